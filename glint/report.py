"""Obligations, findings, known findings and evidence."""
import json
import os
import re
import time

from . import model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("GLINT_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    """Entries `known: property=ID rule=R construct=C :: what` of the committed file."""
    out = []
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN, encoding="utf-8") as fh:
        for line in fh:
            m = re.match(r"known: property=(\S+) rule=(\S+) construct=(\S+) :: (.*)",
                         line.strip())
            if m:
                out.append(dict(property=m[1], rule=m[2], construct=m[3], what=m[4]))
    return out


class Ctx:
    """One check run: collects obligations by rule."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self._prog = None
        self._eng = None
        self.obl = []           # (rule, construct, status, message)
        self.info = {}
        self.assumptions = []
        self.rules = {}

    @property
    def prog(self):
        if self._prog is None:
            self._prog = model.Program()
        return self._prog

    @property
    def eng(self):
        if self._eng is None:
            from . import effects
            self._eng = effects.Engine(self.prog).run()
        return self._eng

    def rule(self, name, text):
        self.rules[name] = text

    def oblige(self, rule, construct, ok, msg=""):
        """ok: True (holds), False (violation), None (undecided: quiet)."""
        construct = re.sub(r"\s+", "", str(construct))
        self.obl.append((rule, construct, ok, msg))
        return ok

    def need(self, rule, n):
        """Instance floor: a rule that matches too little has lost its anchors."""
        k = sum(1 for o in self.obl if o[0] == rule)
        if k < n:
            raise model.AnalysisError(
                f"rule {rule} matched {k} instances, expected at least {n}")

    def selftest(self, name, ok):
        self.info.setdefault("self_tests", []).append(name)
        if not ok:
            raise model.AnalysisError(f"self-test failed: {name}")

    def finish(self):
        viol, known, seen = [], [], set()
        kf = known_findings()
        for rule, cons, ok, msg in self.obl:
            if ok is not False or (rule, cons) in seen:
                continue
            seen.add((rule, cons))
            hit = [k for k in kf if k["property"] == self.prop and k["rule"] == rule
                   and k["construct"] == cons]
            (known if hit else viol).append(
                dict(rule=rule, construct=cons, message=msg,
                     what=hit[0]["what"] if hit else None))
        n = len(self.obl)
        held = sum(1 for o in self.obl if o[2] is True)
        unk = [dict(rule=o[0], construct=o[1], why=o[3]) for o in self.obl
               if o[2] is None]
        byrule = {}
        for o in self.obl:
            r = byrule.setdefault(o[0], {"obligations": 0, "held": 0, "undecided": 0,
                                         "violated": 0})
            r["obligations"] += 1
            r["held" if o[2] else ("undecided" if o[2] is None else "violated")] += 1
        p = self.prog
        cov = {
            "explanation": "Static analysis of the current source; no code of the "
            "repository is executed. Rules and the constructs they were applied to are "
            "listed below.",
            "obligations": n,
            "discharged": held,
            "undecided": len(unk),
            "modules_analysed": len(p.modules),
            "functions_analysed": len(p.funcs),
            "classes_analysed": sum(len(m.classes) for m in p.modules.values()),
            "rules": {k: {"text": self.rules.get(k, ""), **v}
                      for k, v in byrule.items()},
            "undecided_list": unk[:50],
            "samples": [dict(rule=o[0], construct=o[1], held=o[2])
                        for o in self.obl[:: max(1, n // 25)]][:30],
        }
        cov.update(self.info)
        if self._eng is not None:
            cov["effect_engine"] = self._eng.stats
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "other", "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": len(viol),
        }
        if known:
            ev["coverage"]["known_findings"] = known
        if viol:
            ev["coverage"]["violation_list"] = viol
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k['rule']} {k['construct']}: "
                  f"{k['what']}")
        if viol:
            path = os.path.join(EVID, f"{self.prop}.violations.txt")
            with open(path, "w") as fh:
                for v in viol:
                    fh.write(f"{v['rule']} | {v['construct']} | {v['message']}\n")
            for v in viol[:20]:
                print(f"  {v['rule']}: {v['construct']}: {v['message']}")
            print(f"VIOLATION property={self.prop} replay={path}")
        print(f"{self.prop}: {n} obligations, {held} hold, {len(unk)} undecided, "
              f"{len(viol)} violations, {len(known)} known findings "
              f"[{ev['wall_s']} s]")
        return 1 if viol else 0
