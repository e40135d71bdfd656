"""show.py ID: the last violation of a check, readable."""
import json, sys
d = json.load(open('/verif/evidence/replay/%s.json' % sys.argv[1]))
print(d["what"])
d = d["details"]
s = d.get("session")
if s:
    if "g" in s:
        print("rules", list(enumerate(s['g']['rules'])), "nsyms", s['g']['nsyms'])
    if "cfg" in s:
        c = s["cfg"]
        print("syms", c["syms"], "root", c["root"], "events", c.get("events"))
        for k, r in enumerate(c["rules"]):
            print("  ", k, r["lhs"], "::=", r["rhs"], "#%d" % r["id"])
    if "words" in s:
        print("words", s["words"])
    for k, v in s.get("tables", {}).items():
        print("  T", k, v)
    for e in s['ops'][:d.get('step', 999)]:
        print(json.dumps(e))
    print(d.get('spec_state_before', d.get("how")))
else:
    print(json.dumps(d, indent=1)[:6000])
