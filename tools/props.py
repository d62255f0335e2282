"""Single source of properties.jsonl and MANIFEST.json: run  python3 tools/props.py  after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRT = "compiler/extensions/python/runtime/src/zserio/"
PB = "compiler/extensions/python/runtime/src/zserio_cpp/"
PF = "compiler/extensions/python/freemarker/"
PX = "compiler/extensions/python/src/zserio/extension/python/"
CRT = "compiler/extensions/cpp/runtime/src/zserio/"
CF = "compiler/extensions/cpp/freemarker/"
JRT = "compiler/extensions/java/runtime/src/zserio/runtime/"
JF = "compiler/extensions/java/freemarker/"
CORE = "compiler/core/src/zserio/"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": list(observe), "hook_needed": None}, _t=technique, _n=note))


exec(open(os.path.join(V, "tools", "props_data.py")).read())


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=True) + "\n")
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0,'/verif'); import mc.ref, mc.zbuild\"",
         "checks": [{"property": p["id"],
                     "quick_cmd": "/opt/venv/bin/python -B checks/%s.py" % p["id"].lower(),
                     "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python -B checks/%s.py" % p["id"].lower(),
                     "technique": p["_t"], "level": "model_checking", "level_note": p["_n"]} for p in have],
         "not_applicable": [],
         "notes": "Every check compiles what it needs (zserio compiler with its extensions, zserio_cpp binding, C++/Java runtimes, "
                  "generated code) from /repo's working tree into a scratch directory under /var/tmp and removes it. "
                  "Known findings and fixed defects: known_findings.txt. Property texts are generated by tools/props.py."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


main()
