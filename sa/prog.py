"""Program database over one extractor dump."""
import json, collections

class Prog:
    def __init__(self, path):
        self.types = {}; self.recs = {}; self.fns = {}; self.enums = {}; self.globals = {}
        self.by_q = collections.defaultdict(list); self.rec_q = collections.defaultdict(list)
        for line in open(path):
            o = json.loads(line); k = o["R"]
            if k == "type": self.types[o["id"]] = o
            elif k == "rec": self.recs[o["id"]] = o; self.rec_q[o["q"]].append(o)
            elif k == "fn": self.fns[o["id"]] = o; self.by_q[o["q"]].append(o)
            elif k == "enum": self.enums[o["q"]] = o
            elif k == "global": self.globals[o["d"]] = o
        self.over = collections.defaultdict(list)      # overridden fn id -> overriders
        for f in self.fns.values():
            for b in f.get("over") or []: self.over[b].append(f["id"])

def dump(n, ind=0):
    pad = "  " * ind
    if isinstance(n, dict):
        k = n.get("k", n.get("R", "?"))
        simple = {a: b for a, b in n.items() if a != "k" and not isinstance(b, (dict, list))}
        print(pad + str(k), " ".join("%s=%s" % x for x in simple.items()))
        for a, b in n.items():
            if isinstance(b, (dict, list)) and b:
                print(pad + " ." + a + ":"); dump(b, ind + 1)
    elif isinstance(n, list):
        if all(not isinstance(x, (dict, list)) for x in n): print(pad, n)
        else:
            for x in n: dump(x, ind)
    else: print(pad, n)

if __name__ == "__main__":
    import sys
    sys.path.insert(0, "/verif/sa")
    import extract
    p = Prog(extract.main_unit())
    for f in p.by_q.get(sys.argv[1], []):
        print(f["id"], f["q"], f.get("ta"), f["k"], f["file"], f["line"])
        if len(sys.argv) > 2 and str(f["id"]) == sys.argv[2]: dump(f)
    for f in p.rec_q.get(sys.argv[1], []):
        print("REC", f["id"], f["q"], f.get("ta"))
        if len(sys.argv) > 2 and str(f["id"]) == sys.argv[2]: dump(f)
