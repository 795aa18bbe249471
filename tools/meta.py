"""Source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, text, why, files, mech, observe, over=("inputs",), note=None, tech=None):
    assert len(title) <= 80, (pid, len(title))
    assert len(re.findall(r'\.(?:\s|$)', statement)) <= 3, (pid, 'more than three sentences')
    PROPS.append(
        dict(
            pid=pid,
            row=dict(
                id=pid,
                title=title,
                statement=statement,
                quantifier=dict(over=list(over), text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=list(files),
                    mechanism=[dict(name=n, where=w) for n, w in mech],
                    observe_at=list(observe),
                    hook_needed=None,
                ),
            ),
            note=note,
            tech=tech,
        )
    )


exec(open(os.path.join(HERE, "tools", "props_src.py")).read())


def main():
    PROPS.sort(key=lambda p: p["pid"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["row"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        pid = p["pid"]
        if os.path.exists(os.path.join(HERE, "rv", "props", pid.lower() + ".py")):
            checks.append(
                dict(
                    property=pid,
                    quick_cmd=f"./check run {pid}",
                    thorough_cmd=f"./check run {pid} --tier thorough",
                    technique=p["tech"] or "property-based testing (Hypothesis): generated inputs against an independent oracle, with shrinking",
                    level="exploration",
                    level_note=p["note"]
                    or "Generated-input search within the generator's bounds; the oracle is written independently from the format description. Absence of violations is evidence, not proof.",
                )
            )
        else:
            na.append(dict(property=pid, reason="no check has been built for it yet (the technique applies)"))
    m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na,
             notes="No hooks are needed in /repo: every property is observed through the public readers, writers and utility functions.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not claimed")


main()
