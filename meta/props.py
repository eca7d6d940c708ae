#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, state=state, observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=None, note=None, state=(), observe=()))
    NA.append(dict(property=id, reason=reason))


here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(os.path.join(here, "p"))):
    if f.endswith(".py"):
        exec(compile(open(os.path.join(here, "p", f)).read(), f, "exec"))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for p in PROPS:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        a["observe_at"] = list(p["observe"])
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        for f in p["files"]:
            assert os.path.exists(os.path.join("/repo", f)), "missing file " + f
        out.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                  quantifier=dict(over=p["over"], text=p["text"]),
                                  why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=NA,
         notes="Every check is `python3 check.py run <id>`: it rebuilds the library and the property's harness from "
               "/repo's working tree (content-hashed, ccache) and runs it with VERIF_SEED / VERIF_TIER. No hooks are "
               "compiled into /repo.")
for p in PROPS:
    if p["technique"] is None:
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick python3 check.py run {p['id']}",
                            thorough_cmd=f"VERIF_TIER=thorough python3 check.py run {p['id']}",
                            evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                            level_note=p["note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
    json.dump(m, out, indent=1, ensure_ascii=False)
    out.write("\n")
print(len(PROPS), "properties,", len(m["checks"]), "checks")
