"""development aid: writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from collections import OrderedDict as O

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique="", note="", claimed=True, reason=""):
    PROPS.append(dict(prop=O(id=id, title=title, statement=statement, quantifier=O(over=over, text=text), why_tests_cant=why,
                             anchors=O(files=files, mechanism=[O(name=n, where=w) for n, w in mech])),
                      technique=technique, note=note, claimed=claimed, reason=reason))


exec(open(os.path.join(V, "tools", "table.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
            f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
    m = O(version=1, setup_cmd="./setup.sh",
          hooks=O(guard="SLDR_MC_HOOKS", enable="not needed: the checks drive the public entry points of the unmodified code; no commit in /repo adds hooks", source_commits=[]),
          checks=[], not_applicable=[],
          notes="every check imports the code from /repo/lib (and runs /repo/scripts) as it is in the working tree; nothing is cached between runs")
    for p in PROPS:
        i = p["prop"]["id"]
        if p["claimed"]:
            m["checks"].append(O(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                                 evidence_file="evidence/%s.json" % i, technique=p["technique"], level="model_checking", level_note=p["note"]))
        else:
            m["not_applicable"].append(O(property=i, reason=p["reason"]))
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
