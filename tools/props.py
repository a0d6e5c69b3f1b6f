"""The property list: the single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), claimed=True, na=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe, claimed=claimed, na=na, level=level))


exec(open(os.path.join(HERE, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                 "hook_needed": None}
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    m = {"version": 1,
         "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks: the checks observe the unmodified build", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in P:
        if p["claimed"] and os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            m["checks"].append({"property": p["id"],
                                "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
                                "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "the check for this property is not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    import subprocess
    v = subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", """
import json,jsonschema,sys
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s); n+=1
print('valid:', n, 'properties')
"""], cwd=HERE)
    return v.returncode


if __name__ == "__main__":
    raise SystemExit(main())
