"""Positive and negative examples for the effect engine (never executed)."""
import numpy as np


def direct(a: np.ndarray):
    a[0] = 1


def view(a: np.ndarray):
    b = a.reshape(-1)[1:]
    b += 1
    return b


def _helper(x):
    x[:, 0] = 0


def callee(a: np.ndarray):
    _helper(a.T)


def alias(a: np.ndarray, flag: bool = True):
    b = np.asarray(a) if flag else a.copy()
    b[b > 0] = 0
    return b


def listarg(items: list):
    items.append(1)
    return items


def closure(a: np.ndarray):
    def inner(i):
        a[i] = 0

    for i in range(3):
        inner(i)


def clean_copy(a: np.ndarray):
    a = a.copy()
    a[0] = 1
    return a


def clean_rebind(a: np.ndarray):
    a = a + 1
    a += 1
    return a


def clean_list(items: list):
    items = list(items)
    items.append(1)
    return items


class Box:
    def __init__(self, data: np.ndarray):
        self.data = data
        self.count = 0

    def scale(self):
        self.data *= 2

    def query(self):
        self.count += 1
        return self.data.sum()

    def leak(self):
        return Box(self.data)

    def clean_dup(self):
        return Box(self.data.copy())
