"""Reader of the Fortran modules: procedures, interfaces, type-bound procedures, generic names."""
import re
class Proc:
    def __init__(self, kind, name, args): self.kind = kind; self.name = name; self.args = args; self.decl = {}; self.stmts = []; self.bind = None; self.result = None; self.line = 0; self.iface = False
def logical_lines(text):
    out = []; cur = ""; n0 = 1
    for i, raw in enumerate(text.split("\n"), 1):
        s = re.sub(r"!.*$", "", raw) if not re.search(r"['\"].*!.*['\"]", raw) else raw
        s = s.strip()
        if not cur: n0 = i
        if s.endswith("&"): cur += s[:-1].strip() + " "; continue
        cur += s.lstrip("&").strip()
        if cur: out.append((n0, re.sub(r"\s+", " ", cur)))
        cur = ""
    return out
def split(s):
    r = []; d = 0; c = ""
    for ch in s:
        if ch == "(": d += 1
        if ch == ")": d -= 1
        if ch == "," and d == 0: r.append(c.strip()); c = ""
        else: c += ch
    if c.strip(): r.append(c.strip())
    return r
class Module:
    def __init__(self, text):
        self.procs = {}; self.ifaces = {}; self.types = {}; self.generic = {}; self.consts = {}
        cur = None; inif = None; ty = None; ni = 0
        for ln, s in logical_lines(text):
            l = s.lower()
            m = re.match(r"(?:pure |recursive )*(subroutine|function) (\w+) ?\(([^)]*)\)(.*)$", s, re.I)
            if m and not l.startswith("end"):
                cur = Proc(m.group(1).lower(), m.group(2).lower(), [x.strip().lower() for x in m.group(3).split(",") if x.strip()]); cur.line = ln
                r = m.group(4); b = re.search(r'bind\(C, ?name="([^"]+)"\)', r, re.I); cur.bind = b.group(1) if b else None
                b = re.search(r"result\((\w+)\)", r, re.I); cur.result = b.group(1).lower() if b else (cur.name if cur.kind == "function" else None)
                cur.iface = inif == ""
                (self.ifaces if cur.iface else self.procs)[cur.name] = cur; continue
            if re.match(r"end ?(subroutine|function)", l): cur = None; continue
            if cur is None and re.match(r"(abstract )?interface\b", l): inif = s.split(None, 1)[1].lower() if " " in s else ""; continue
            if re.match(r"end ?interface", l): inif = None; continue
            if cur is None and inif: 
                m = re.match(r"(?:module )?procedure(?: ?::)? ?(.*)$", l)
                if m: self.generic.setdefault(inif, []).extend(x.strip() for x in m.group(1).split(","))
                continue
            if cur is None and re.match(r"type\b(?! ?\()", l) and "::" in l: ty = l.split("::")[1].strip(); self.types[ty] = {"proc": {}, "gen": {}}; continue
            if re.match(r"end ?type", l): ty = None; continue
            if cur is None and ty:
                m = re.match(r"procedure[^:]*:: ?(.*)$", l)
                if m:
                    for x in split(m.group(1)):
                        a, b = ([y.strip() for y in x.split("=>")] if "=>" in x else (x, x)); self.types[ty]["proc"][a] = b
                m = re.match(r"generic[^:]*:: ?([^=]*(?:\(=\))?[^=]*)=> ?(.*)$", l)
                if m: self.types[ty]["gen"].setdefault(m.group(1).strip(), []).extend(x.strip() for x in m.group(2).split(","))
                continue
            if cur is not None:
                if "::" in s and re.match(r"(integer|real|complex|logical|type|class|character)\b", l):
                    a, b = l.split("::", 1)
                    for x in split(b): cur.decl[re.sub(r"\(.*| ?=.*", "", x).strip()] = [y.replace(" ", "") for y in split(a)]
                elif not re.match(r"(use|import|implicit)\b", l) and not re.match(r"bind\(|result\(", l): cur.stmts.append((ln, l))
                continue
            if "bind(c" in l and "::" in l:
                m = re.search(r'bind\(c, ?name="([^"]+)"\)', s, re.I)
                if m:
                    for x in split(s.split("::")[1]): self.consts[x.strip().lower()] = m.group(1)
