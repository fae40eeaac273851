#!/usr/bin/env python3
"""rewrites the tables in DESIGN.md: bounds (from check.py and the last quick runs) and planted changes (from seeded/)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

def bounds():
    out = ["| id | quick: size, depth | states | replayed | random events | thorough: size, depth | random events |", "|---|---|---|---|---|---|---|"]
    for p, (q, t) in check.BOUNDS.items():
        states = replayed = "–"
        path = os.path.join(HERE, "evidence", p + ".json")
        if os.path.exists(path):
            e = json.load(open(path))
            m = e["coverage"].get("model")
            if e["tier"] == "quick" and m and not e.get("violations"):
                states, replayed = m.get("distinct_states", "–"), m.get("behaviours_replayed", "–")
        sd = lambda b: "– (see Threads)" if b[0] == 0 else "%d, %d" % b[:2]
        out.append("| %s | %s | %s | %s | %d × %d | %s | %d × %d |" % (p, sd(q), states, replayed, check.SHARDS["quick"], q[2], sd(t), check.SHARDS["thorough"], t[2]))
    return out

def seeded():
    out = ["| change | property | needs | effect |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"]))
    return out

if __name__ == "__main__":
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    for name, rows in (("bounds", bounds()), ("seeded", seeded())):
        s, n = re.subn(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m.group(1) + "\n".join(rows).replace("\\", "\\\\") + "\n" + m.group(2), s, flags=re.S)
        assert n == 1, name
    open(p, "w").write(s)
