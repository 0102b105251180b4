#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None,
         note=None, na=None, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                      why=why, files=files, mechanism=mechanism, technique=technique,
                      note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(HERE, "tools", "proplist.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            src = "src/glimpse/"
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": [src + f for f in p["files"]],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                },
            }
            if p["observe"]:
                d["anchors"]["observe_at"] = list(p["observe"])
            assert len(d["title"]) <= 80, d["title"]
            fh.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        cmd = f"python3-vt run.py --property {p['id']} --tier "
        checks.append({
            "property": p["id"], "quick_cmd": cmd + "quick",
            "thorough_cmd": cmd + "thorough", "technique": p["technique"],
            "level": "other", "level_note": p["note"],
        })
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -c \"import glint.model, glint.effects, "
                     "glint.vg.interp\"",
        "checks": checks, "not_applicable": na,
        "notes": "All checks are static: they parse /repo/src on every run and execute "
                 "no repository code. No hooks are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(HERE, "properties.jsonl")):
            jsonschema.validate(json.loads(line), s)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
    print(len(checks), "claimed;", len(na), "not applicable")


main()
