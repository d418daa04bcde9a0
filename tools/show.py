"""show.py REPLAY [N [WIDTH]]: prints the distinct kinds of mismatches in a replay file (debugging aid)."""
import json, sys
seen = {}
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
w = int(sys.argv[3]) if len(sys.argv) > 3 else 500
for r in json.load(open(sys.argv[1])):
    t = r.get("trace") or [r]
    seen.setdefault(t[-1].get("e"), []).append(t)
for k, v in seen.items():
    print("==", k, len(v))
    for t in v[:n]:
        for e in (t if len(t) < 12 else t[:4] + [{"...": len(t)}] + t[-3:]):
            print("   ", json.dumps(e)[:w])
        print("   --")
