"""Source of properties.jsonl and MANIFEST.json: python tools/props.py writes both."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LD = "pydatastructs/linear_data_structures/"
CA = LD + "_backend/cpp/arrays/"
CG = LD + "_backend/cpp/algorithms/"
CT = "pydatastructs/trees/_backend/cpp/"
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, level_note, technique="property-based testing"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                      mech=mech, level_note=level_note, technique=technique))


exec(open(os.path.join(ROOT, "tools", "props_text.py")).read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        for f in p["files"]:
            assert os.path.exists("/repo/" + f), f
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py --setup", "checks": [], "not_applicable": NOT_APPLICABLE,
           "notes": "Every check mirrors /repo's package into .build/<hash of the sources>, compiles its C++ extensions there "
                    "and runs generated cases against it; VERIF_SEED chooses the cases, VERIF_TIER the number of them."}
    for p in PROPS:
        if p["id"] in na:
            continue
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "/opt/venv/bin/python run.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    try:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(ROOT, "properties.jsonl")):
            jsonschema.validate(json.loads(line), s)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError:
        pass
    print(len(PROPS), "properties,", len(man["checks"]), "checks")


main()
