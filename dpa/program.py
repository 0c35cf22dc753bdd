"""The resolved program: functions, records and callees of every translation unit."""
import json
import re

from . import frontend


def strip_targs(s):
    """drop template arguments from a qualified name"""
    j = s.find("operator")
    if j > 0 and s[j - 1] == ":":
        head, tail = s[:j], s[j:]
        m = re.match(r"operator(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|\(\)|\[\]|[a-zA-Z0-9_ ]+|[^\w<>]+|<|>)", tail)
        return strip_targs(head) + (m.group(0) if m else tail)
    out = []
    d = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def targs(s):
    """template arguments of the outermost template of a type string"""
    i = s.find("<")
    if i < 0:
        return []
    d = 0
    cur = []
    out = []
    for ch in s[i:]:
        if ch == "<":
            d += 1
            if d == 1:
                continue
        elif ch == ">":
            d -= 1
            if d == 0:
                out.append("".join(cur).strip())
                break
        elif ch == "," and d == 1:
            out.append("".join(cur).strip())
            cur = []
            continue
        cur.append(ch)
    return out


def clean_type(t):
    t = t.strip()
    while True:
        u = t
        if t.startswith("const "):
            t = t[6:]
        if t.endswith("&"):
            t = t[:-1].strip()
        if t.endswith(" const"):
            t = t[:-6]
        if t == u:
            return t


class Callee:
    __slots__ = ("qn", "sqn", "n", "usr", "ret", "rm", "pm", "pt", "cls", "static", "virt", "ctor", "repo", "ta", "const", "rlt")

    def __init__(self, d):
        self.rlt = d.get("rlt", "")
        self.qn = d["qn"]
        self.sqn = strip_targs(d["qn"])
        self.n = d["n"]
        self.usr = d["usr"]
        self.ret = d.get("ret", "")
        self.rm = d.get("rm", "v")
        self.pm = d.get("pm", "")
        self.pt = d.get("pt", [])
        self.cls = d.get("cls")
        self.static = bool(d.get("static"))
        self.virt = bool(d.get("virt"))
        self.ctor = d.get("ctor")
        self.repo = bool(d.get("repo"))
        self.ta = [x for x in d.get("ta", [])]
        self.const = bool(d.get("const"))


class Func:
    __slots__ = ("d", "qn", "n", "usr", "file", "line", "cls", "params", "callees", "tu", "ov", "body", "inits", "ret", "rm", "ctor", "const", "virt",
                 "static", "acc", "defaulted")

    def __init__(self, d, callees, tu):
        self.d = d
        self.qn = d["qn"]
        self.n = d["n"]
        self.usr = d["usr"]
        self.file = d["file"]
        self.line = d["l"]
        self.cls = d.get("cls")
        self.params = d["params"]
        self.callees = callees
        self.tu = tu
        self.ov = d.get("ov", [])
        self.body = d.get("body")
        self.inits = d.get("inits", [])
        self.ret = d.get("ret", "void")
        self.rm = d.get("rm", "v")
        self.ctor = d.get("ctor")
        self.const = bool(d.get("const"))
        self.virt = bool(d.get("virt"))
        self.static = bool(d.get("static"))
        self.acc = d.get("acc")
        self.defaulted = bool(d.get("defaulted"))

    @property
    def where(self):
        return "%s:%d" % (self.file, self.line)

    def __repr__(self):
        return "<%s %s>" % (self.qn, self.where)


class Program:
    def __init__(self, units=None):
        if units is None:
            units = [u for u in frontend.all_units() if u not in ("levi",)]
        self.units = units
        self.funcs = {}      # usr -> Func
        self.byqn = {}       # qn -> [Func]
        self.records = {}    # qn -> record
        self.errors = []
        self.tus = {}
        self.how = {}
        for name, (path, how) in frontend.extract(units).items():
            d = json.load(open(path))
            self.how[name] = how
            if d.get("errors"):
                self.errors.append((name, d["errors"]))
            out = [x for x in d.get("outside", []) if "/extern/" not in x]
            if out:
                raise frontend.AnalysisBroken("%s does not compile: %s" % (name, out[0]))
            cal = [Callee(c) for c in d["callees"]]
            self.tus[name] = d
            for r in d["records"]:
                q = r["qn"]
                r["#callees"] = cal
                if q not in self.records or len(r.get("fields", [])) > len(self.records[q].get("fields", [])):
                    self.records[q] = r
                # a record name that is unique to one unit (anonymous namespaces, nested in .cpp)
            for f in d["functions"]:
                if f["usr"] in self.funcs and self.funcs[f["usr"]].body is not None:
                    continue
                F = Func(f, cal, name)
                if f["usr"] in self.funcs:
                    self.byqn[F.qn].remove(self.funcs[f["usr"]])
                self.funcs[f["usr"]] = F
                self.byqn.setdefault(F.qn, []).append(F)
        self.short = {}
        for q in self.records:
            self.short.setdefault(q.split("::")[-1], []).append(q)
        self._vt = {}
        self._ovcache = {}

    def rec_callees(self, r):
        return r["#callees"]

    def record(self, t):
        t = clean_type(t)
        r = self.records.get(t)
        if r is None and t in self.short and len(self.short[t]) == 1:
            r = self.records[self.short[t][0]]
        return r

    def bases(self, cls):
        out = []
        r = self.record(cls)
        if not r:
            return out
        for b in r.get("bases", []):
            b = b["qn"] if isinstance(b, dict) else b
            out.append(b)
            out.extend(self.bases(b))
        return out

    def overrides(self, usr):
        """all USRs (transitively) overridden by the function"""
        if usr in self._ovcache:
            return self._ovcache[usr]
        s = set()
        f = self.funcs.get(usr)
        if f:
            for o in f.ov:
                s.add(o)
                s |= self.overrides(o)
        self._ovcache[usr] = s
        return s

    def dispatch(self, cls, usr, name=None):
        """the function that a virtual call to usr on an object of class cls runs"""
        key = (cls, usr)
        if key in self._vt:
            return self._vt[key]
        res = None
        for c in [cls] + self.bases(cls):
            for f in self.methods(c):
                if f.usr == usr or usr in self.overrides(f.usr):
                    res = f
                    break
            if res:
                break
        self._vt[key] = res
        return res

    def methods(self, cls):
        if not hasattr(self, "_m"):
            self._m = {}
            for f in self.funcs.values():
                if f.cls:
                    self._m.setdefault(f.cls, []).append(f)
        return self._m.get(cls, [])

    def find(self, qn, nparams=None):
        fs = self.byqn.get(qn, [])
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        return fs

    def method(self, cls, name):
        fs = [f for f in self.methods(cls) if f.n == name]
        if not fs:
            for b in self.bases(cls):
                if b != cls:
                    fs = [f for f in self.methods(b) if f.n == name]
                    if fs:
                        break
        return fs


def walk(x, fn):
    if isinstance(x, dict):
        if fn(x) is False:
            return
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, fn)
    elif isinstance(x, list):
        for v in x:
            walk(v, fn)
