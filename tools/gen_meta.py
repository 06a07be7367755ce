"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         technique, note, state=None, claimed=True, na=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(
        p=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=a),
        technique=technique, note=note, claimed=claimed, na=na))


SDP = "inflation/sdp/InflationSDP.py"
LP = "inflation/lp/InflationLP.py"
IP = "inflation/InflationProblem.py"
NPA = "inflation/sdp/fast_npa.py"
QT = "inflation/sdp/quantum_tools.py"
MC = "inflation/sdp/monomial_classes.py"
LMC = "inflation/lp/monomial_classes.py"
MU = "inflation/sdp/monomial_utils.py"
SU = "inflation/sdp/sdp_utils.py"
LU = "inflation/lp/lp_utils.py"
SW = "inflation/sdp/writer_utils.py"
LW = "inflation/lp/writer_utils.py"
UT = "inflation/utils.py"
OU = "inflation/optimization_utils.py"
NF = "inflation/lp/numbafied.py"

exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for e in PROPS:
            f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             hooks=dict(guard="INFLATION_VERIF_HOOKS",
                        enable="no hooks were needed: the monitors wrap the "
                               "library from outside; the variable is unused",
                        source_commits=[]),
             checks=[], not_applicable=[])
    for e in PROPS:
        i = e["p"]["id"]
        if e["claimed"]:
            m["checks"].append(dict(
                property=i, quick_cmd=f"./run.py {i} --tier quick",
                thorough_cmd=f"./run.py {i} --tier thorough",
                technique=e["technique"], level="exploration",
                level_note=e["note"]))
        else:
            m["not_applicable"].append(dict(property=i, reason=e["na"] or
                                            "check not built yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
