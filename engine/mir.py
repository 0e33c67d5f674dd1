"""Loader for the JSON produced by mirdump: types, instances, bodies."""
import json

class Ty:
    __slots__ = ("id", "k", "name", "d", "prog", "_layout")
    def __init__(self, prog, id, d):
        self.prog = prog; self.id = id; self.d = d; self.k = d["k"]; self.name = d["name"]; self._layout = None
    def __repr__(self): return f"Ty({self.name})"
    @property
    def elem(self): return self.prog.types[self.d["elem"]]
    @property
    def layout(self):
        if self._layout is None and self.d["layout"]: self._layout = json.loads(self.d["layout"])
        return self._layout
    @property
    def adt(self): return self.d.get("def")
    def args(self):
        if self.k == "tuple": return [self.prog.types[t] for t in self.d["elems"]]
        return [self.prog.types[a["ty"]] for a in self.d.get("args", []) if isinstance(a, dict) and "ty" in a]
    def fields(self, variant=0):
        if self.k == "adt":
            return [(n, self.prog.types[t]) for n, t in self.d["variants"][variant]["fields"]]
        if self.k == "tuple":
            return [(str(i), self.prog.types[t]) for i, t in enumerate(self.d["elems"])]
        if self.k == "closure":
            up = self.args()[-1]
            return up.fields()
        raise Exception("fields of " + self.name)

class Body:
    def __init__(self, js):
        self.blocks = js["blocks"]; self.locals = js["locals"]; self.arg_count = js["arg_count"]
        self.spread_arg = js.get("spread_arg")
        self.names = {}
        for v in js.get("var_debug_info", []):
            try:
                pl = v["value"]["Place"]
                if not pl["projection"]: self.names.setdefault(pl["local"], v["name"])
            except Exception: pass

class Inst:
    def __init__(self, prog, id, d):
        self.prog = prog; self.id = id; self.name = d["name"]; self.defn = d["def"]; self.crate = d["crate"]
        self.kind = d["kind"]; self.intrinsic = d["intrinsic"]; self.d = d; self._body = None
    @property
    def has_body(self): return "body" in self.d
    @property
    def body(self):
        if self._body is None and "body" in self.d: self._body = Body(json.loads(self.d["body"]))
        return self._body
    def args(self):
        return [self.prog.types[a["ty"]] for a in self.d.get("args", []) if isinstance(a, dict) and "ty" in a]
    def __repr__(self): return f"Inst({self.name})"

class Prog:
    def __init__(self, path):
        js = json.load(open(path))
        self.types = {}
        for k, v in js["types"].items(): self.types[int(k)] = Ty(self, int(k), v)
        self.insts = {int(k): Inst(self, int(k), v) for k, v in js["instances"].items()}
        self.allocs = {int(k): v for k, v in js["allocs"].items()}
        self.roots = {n.split("::")[-1]: self.insts[i] for n, i in js["roots"]}
        self._by_name = {}
        for i in self.insts.values(): self._by_name.setdefault(i.name, i)
    def by_name(self, n): return self._by_name.get(n)
    def ty_by_name(self, n):
        for t in self.types.values():
            if t.name == n: return t
        return None

def _match(s, i):
    """index just past the '>' matching s[i]=='<' ('->' ignored)"""
    d = 0
    while i < len(s):
        c = s[i]
        if c in "<([{": d += 1
        elif c in ")]}": d -= 1
        elif c == ">" and s[i-1] != "-":
            d -= 1
        if d == 0: return i + 1
        i += 1
    raise Exception("unbalanced " + s)

def _ty_head(s):
    """short head name of a type string"""
    s = s.strip()
    while s.startswith("&") or s.startswith("mut ") or s.startswith("'"):
        if s.startswith("&"): s = s[1:].strip()
        elif s.startswith("mut "): s = s[4:].strip()
        else: s = s.split(" ", 1)[1].strip() if " " in s else s[1:]
    if s.startswith("["):
        return "[T;N]" if ";" in s and _match_semi(s) else "[T]"
    if s.startswith("("): return "()" if s == "()" else "(..)"
    if s.startswith("{closure") : return "{closure}"
    if s.startswith("dyn "): return "dyn " + _ty_head(s[4:].split("+")[0])
    if s.startswith("<"):
        return canon(s)
    out = []; i = 0; seg = ""
    while i < len(s):
        c = s[i]
        if c == "<":
            i = _match(s, i); continue
        if s.startswith("::", i):
            if seg: out.append(seg)
            seg = ""; i += 2; continue
        seg += c; i += 1
    if seg: out.append(seg)
    return out[-1] if out else s

def _match_semi(s):
    d = 0
    for c in s:
        if c in "<([{": d += 1
        elif c in ">)]}": d -= 1
        elif c == ";" and d == 1: return True
    return False

def canon(name):
    """path-independent function key: Type::method, <Type as Trait>::method, mod::func"""
    s = name
    # split top-level by '::'
    segs = []; i = 0; cur = ""
    while i < len(s):
        c = s[i]
        if c in "<([{":
            j = _match(s, i); cur += s[i:j]; i = j; continue
        if s.startswith("::", i):
            segs.append(cur); cur = ""; i += 2; continue
        cur += c; i += 1
    segs.append(cur)
    # drop pure generic segments
    out = []
    for n, g in enumerate(segs):
        if g.startswith("<"):
            inner = g[1:-1]
            if inner.startswith("impl "):
                body = inner[5:]
                # 'impl Trait for T' or 'impl T'
                k = _top_find(body, " for ")
                if k >= 0: out = [f"<{_ty_head(body[k+5:])} as {_ty_head(body[:k])}>"]
                else: out = [_ty_head(body)]
            else:
                k = _top_find(inner, " as ")
                if k >= 0 and n == 0: out = [f"<{_ty_head(inner[:k])} as {_ty_head(inner[k+4:])}>"]
                elif n == 0: out = [_ty_head(inner)]
                # else generic args: drop
        else:
            b = g.find("<")
            out.append(g[:b] if b > 0 else g)
    if len(out) == 1: return out[0]
    # keep last two segments, more if closure
    k = len(out)
    tail = []
    while k > 0:
        k -= 1
        tail.insert(0, out[k])
        if len([t for t in tail if not t.startswith("{")]) >= 2: break
    return "::".join(tail)

def _top_find(s, pat):
    d = 0
    for i, c in enumerate(s):
        if c in "<([{": d += 1
        elif c in ")]}" or (c == ">" and s[i-1] != "-"): d -= 1
        elif d == 0 and s.startswith(pat, i): return i
    return -1
