"""known_findings.json: 'fixed' entries from the fix commits of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(V, "known_findings.json")
MAP = [  # (text in the subject, property)
    ("below the parabolic", "C05"),
    ("README", "C22"), ("benchmark report", "C22"), ("rv2coe", "C18"), ("inclination from", "C21"),
    ("transfer angle between", "C21"), ("collinear", "C13"), ("polar transfer planes", "C06"),
    ("raise", "C13"), ("singular", "C13"), ("loop forever", "C13"), ("cancel", "C13"), ("degenerates to a line", "C13"), ("square root of the semimajor", "C13"), ("requested path", "C04"), ("requested branch", "C04"), ("requested path region", "C04"),
    ("minimum time of flight", "C05"), ("looking for its minimum", "C05"), ("rejects multi-rev", "C12"), ("reject multi-rev", "C12"),
    ("assertions", "C12"), ("validates its input", "C12"), ("below the parabolic", "C05"),
    ("multi-revolution", "C03"), ("next to", "C02"), ("raises", "C13"), ("tolerance", "C15"),
    ("converges on the time", "C15"), ("flat secant", "C15"), ("not below rounding", "C15"),
    ("dimensionally wrong", "C09"), ("fundamental plane", "C02"),
]
old = json.load(open(PATH)) if os.path.exists(PATH) else []
items = [i for i in old if i["kind"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
prev = {i["commit"]: i for i in old if i["kind"] == "fixed"}
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[5:]
    prop = next((p for t, p in MAP if t in s), "C01")
    if h in prev:
        prop = prev[h]["property"]
    items.append({"property": prop, "kind": "fixed", "commit": h, "what": s,
                  "line": f"fixed: property={prop} {h} {s}"})
json.dump(items, open(PATH, "w"), indent=1)
for i in items: print(i.get("line") or i)
