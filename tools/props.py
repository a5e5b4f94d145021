"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/ecoengine/objects/building/"
C = "src/ecoengine/objects/components/"
D = "src/ecoengine/objects/dhwsystems/"
I = "src/ecoengine/interfaces/"
S = "src/ecoengine/objects/simulation/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    PROPS.append((dict(id=id, title=title, statement=statement,
                       quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))


exec(open(os.path.join(HERE, "tools", "props_text.py")).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])
GENERIC = ("Every obligation generated from /repo's current source is discharged by z3 (cvc5 as second back end). "
           "Floats are treated as mathematical reals; numpy/statistics/math are trusted or modelled; "
           "obligations with native enumeration are labelled bounded. ")
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note in PROPS:
        if p["id"] in {x["property"] for x in NOT_APPLICABLE}:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           technique="contract-based deductive verification: weakest-precondition/symbolic obligations "
                                     "from the real source, discharged by SMT (z3, cvc5), counterexamples replayed",
                           level="proof", level_note=GENERIC + note))
    m = dict(version=1, setup_cmd="python3-vt setup_check.py", checks=checks, not_applicable=NOT_APPLICABLE)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
    print(len(PROPS), "properties", len(checks), "checks")
