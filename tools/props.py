"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "capture/noworkflow/now/"


def prop(pid, title, statement, over, text, why, files, mechanism,
         technique, note, observe=None):
    anchors = {"files": [f if f.startswith("capture/") else P + f
                         for f in files], "mechanism": mechanism}
    if observe:
        anchors["observe_at"] = observe
    return {
        "record": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": anchors},
        "technique": technique, "note": note}


PROPS = []
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fil:
        for item in PROPS:
            fil.write(json.dumps(item["record"], ensure_ascii=False) + "\n")
    checks = []
    missing = []
    for item in PROPS:
        pid = item["record"]["id"]
        assert len(item["record"]["title"]) <= 80, pid
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            checks.append({
                "property": pid,
                "quick_cmd": "VERIF_TIER=quick ./check " + pid,
                "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
                "evidence_file": "evidence/{}.json".format(pid),
                "technique": item["technique"],
                "level": "exploration",
                "level_note": item["note"]})
        else:
            missing.append({"property": pid,
                            "reason": "check not built yet"})
    manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                "not_applicable": missing}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fil:
        json.dump(manifest, fil, indent=1)
        fil.write("\n")
    print(len(checks), "checks;", [m["property"] for m in missing])


main()
