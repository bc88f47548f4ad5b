#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in this folder."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props_iri
groups = [("iri", props_iri.P)]
for extra in ("names", "core", "io", "cli"):
    try:
        m = __import__("props_" + extra)
        groups.append((extra, m.P))
    except ModuleNotFoundError:
        pass
try:
    from not_applicable import NA, NA_PROPS
except ModuleNotFoundError:
    NA, NA_PROPS = [], []
lines, checks = [], []
def line(p):
    d = dict(id=p["id"], title=p["title"], statement=p["statement"],
             quantifier=dict(over=p["over"], text=p["quant"]),
             why_tests_cant=p["why"],
             anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                          observe_at=p["observe"], hook_needed=None))
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
    return d
for group, ps in groups:
    for p in ps:
        lines.append(line(p))
        checks.append(dict(property=p["id"],
                           quick_cmd=f"VERIF_TIER=quick ./run.sh {group} {p['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough ./run.sh {group} {p['id']}",
                           technique=p["tech"], level="exploration", level_note=p["note"]))
for p in NA_PROPS:
    lines.append(line(p))
ids = [l["id"] for l in lines]
assert len(ids) == len(set(ids)), "duplicate ids"
with open(f"{root}/properties.jsonl", "w") as f:
    for l in lines:
        f.write(json.dumps(l, ensure_ascii=False) + "\n")
man = dict(version=1,
           setup_cmd="for g in %s; do ./run.sh $g --build || exit 1; done" % " ".join(g for g, _ in groups),
           checks=checks, not_applicable=NA,
           notes="Property-based testing with proptest; one check binary per group of crates, built from /repo's working tree. See DESIGN.md.")
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
    jsonschema.validate(man, S("MANIFEST"))
    for l in lines:
        jsonschema.validate(l, S("PROPERTIES"))
    print("valid:", len(lines), "properties,", len(checks), "checks")
except ModuleNotFoundError:
    print("written (no jsonschema here; run with python3-vt to validate)")
