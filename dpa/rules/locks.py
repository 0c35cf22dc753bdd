"""C08: every query of the shared kinematics runs in one critical section of the object's mutex.

A flow analysis over the methods of SharedKinDynComputations (interprocedural over this-calls and repository helpers):
the state is (mutex certainly held, an earlier critical section already touched the data). Every access to the guarded
data must happen with the mutex held, all accesses of one public call in the same critical section, and no path may
lock the (non recursive) mutex twice.
"""
from ..report import Res
from ..world import Broken, PNS
from ..program import walk

CLS = PNS + "SharedKinDynComputations"
DATA = CLS + "::Data"
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
MUT = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::recursive_timed_mutex")


class S:
    """held: certainly locked; done: the data was touched in a critical section that ended; live: reachable"""
    __slots__ = ("held", "done", "used")

    def __init__(self, held=False, done=False, used=False):
        self.held, self.done, self.used = held, done, used

    def copy(self):
        return S(self.held, self.done, self.used)

    def key(self):
        return (self.held, self.done, self.used)


def join(a, b):
    if a is None or b is None:
        return a or b
    return S(a.held and b.held, a.done or b.done, a.used or b.used)


def cleantype(t):
    return (t or "").replace("const ", "").replace("&", "").split("<")[0].strip()


class Flow:
    def __init__(self, P, fn, res, label):
        self.P, self.res, self.label = P, res, label
        self.top = fn
        self.stack = []
        self.mutexes = set()
        self.accesses = 0
        self.locked = 0
        self.bad = {}
        self.last = None

    def violation(self, key, node, what):
        if key not in self.bad:
            self.bad[key] = (self.file + ":" + str(node.get("l", "?")), what)

    # ---------------------------------------------------------------------------------- functions
    def func(self, fn, st):
        if fn.usr in self.stack or len(self.stack) > 12:
            return st
        self.stack.append(fn.usr)
        f0 = getattr(self, "file", None)
        self.file = fn.file
        self.rets = getattr(self, "rets", [])
        saved, self.rets = self.rets, []
        o = self.block(fn.body, st)
        for r in self.rets:
            o = join(o, r)
        self.rets = saved
        self.file = f0 or fn.file
        self.stack.pop()
        return o if o is not None else st

    def block(self, b, st):
        """statements of one scope; locks declared in it are released at its end"""
        n = len(self.scopes) if hasattr(self, "scopes") else 0
        if not n:
            self.scopes = getattr(self, "scopes", [])
        self.scopes.append([])
        for s in b.get("s", []) if b.get("k") == "blk" else [b]:
            if st is None:
                break
            st = self.stmt(s, st)
        own = self.scopes.pop()
        if st is not None and own:
            st = self.release(st)
        return st

    def release(self, st):
        st = st.copy()
        st.held = False
        st.done = st.done or st.used
        st.used = False
        return st

    def acquire(self, node, mutex, st):
        st = st.copy()
        self.locked += 1
        self.mutexes.add(mutex[0])
        self.last = mutex
        if st.held and "recursive" not in mutex[1]:
            self.violation("double lock", node, "%s locks %s while it is already held" % (self.label, mutex[0]))
        st.held = True
        return st

    def mutex(self, e):
        """(member, type) of the guarded object's mutex named by an expression"""
        found = []

        def see(x):
            if x.get("k") == "mem" and any(cleantype(x.get("t")) == m for m in MUT):
                found.append((x.get("q") or x.get("n"), x.get("t")))
        walk(e, see)
        return found[0] if found else None

    def locker(self, e):
        """mutex held by the lock object an expression creates, directly or through a helper that returns it"""
        k = e.get("k")
        if k in ("ctor", "cast", "ilist", "vinit") or k is None:
            text = []
            walk(e, lambda x: text.append(str(x.get("n", "")) + str(x.get("q", ""))))
            if any("defer_lock" in t or "try_to_lock" in t for t in text):
                return None
            m = self.mutex(e)
            if m:
                return m
        r = []

        def see(x):
            if x.get("k") in ("call", "mcall") and "f" in x:
                c = self.callee(x)
                f = self.P.funcs.get(c.usr) if c is not None else None
                if f is not None and f.body is not None and any(l in str(c.ret) for l in ("unique_lock", "lock_guard", "scoped_lock")):
                    m = self.mutex(f.body)
                    if m:
                        r.append(m)
        walk(e, see)
        return r[0] if r else None

    def callee(self, x):
        fn = self.P.funcs[self.stack[-1]]
        try:
            return fn.callees[x["f"]]
        except (IndexError, KeyError, TypeError):
            return None

    # ---------------------------------------------------------------------------------- statements
    def stmt(self, s, st):
        k = s.get("k")
        if k == "blk":
            return self.block(s, st)
        if k == "decl":
            for d in s.get("d", []):
                if cleantype(d.get("lt") or d.get("t")) in LOCKS or cleantype(d.get("t")) in LOCKS:
                    m = self.locker(d.get("e") or {})
                    if m:
                        st = self.acquire(s, m, st)
                        self.scopes[-1].append(d.get("n"))
                elif d.get("e"):
                    st = self.expr(d["e"], st)
            return st
        if k == "if":
            for x in ("init", "i"):
                if isinstance(s.get(x), dict):
                    st = self.stmt(s[x], st)
            st = self.expr(s.get("c"), st)
            a = self.block(s["t"], st.copy()) if isinstance(s.get("t"), dict) else st
            b = self.block(s["e"], st.copy()) if isinstance(s.get("e"), dict) else st
            return join(a, b)
        if k in ("for", "rfor", "while", "do"):
            body = [v for v in s.values() if isinstance(v, dict)]
            for _ in range(2):
                t = st
                for v in body:
                    if t is None:
                        break
                    t = self.block(v, t) if v.get("k") in ("blk",) else self.stmt(v, t) if v.get("k") in ("decl", "ex", "if") else self.expr(v, t)
                st = join(st, t)
            return st
        if k == "ret":
            if s.get("e"):
                st = self.expr(s["e"], st)
            o = st
            if any(self.scopes[i] for i in range(len(self.scopes))) and o.held:
                # locks of this function's scopes end with it; a caller's lock survives
                if any(self.scopes[i] for i in range(self.base, len(self.scopes))):
                    o = self.release(o)
            self.rets.append(o)
            return None
        if k == "throw":
            return None
        if k in ("break", "continue", "nop"):
            return st
        if k == "ex":
            return self.expr(s.get("e"), st)
        # anything else: in order
        for v in s.values():
            if isinstance(v, dict):
                if st is None:
                    return None
                st = self.block(v, st) if v.get("k") == "blk" else self.expr(v, st)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and st is not None:
                        st = self.stmt(x, st) if x.get("k") in ("blk", "decl", "if", "for", "rfor", "while", "do", "ret", "ex", "case", "default") else self.expr(x, st)
        return st

    # ---------------------------------------------------------------------------------- expressions
    def expr(self, e, st):
        if e is None or st is None:
            return st
        k = e.get("k")
        if k == "mcall" and "f" in e and not st.held:
            c = self.callee(e)
            if c is not None and c.n == "isValid":
                # only loading a model changes it, and that happens before the object is shared
                return st
        for kk, v in e.items():
            if isinstance(v, dict):
                st = self.expr(v, st) if v.get("k") != "blk" else self.block(v, st)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        st = self.expr(x, st) if x.get("k") != "blk" else self.block(x, st)
        if k == "mem" and str(e.get("q", "")).startswith(DATA + "::") and not any(cleantype(e.get("t")) == m for m in MUT):
            st = self.access(e, st)
        if k == "mcall" and "f" in e:
            c = self.callee(e)
            if c is not None and isinstance(e.get("o"), dict):
                t = cleantype(e["o"].get("t"))
                if t in MUT or t in LOCKS:
                    m = self.mutex(e["o"]) or self.last or (t, t)
                    if c.n == "lock":
                        st = self.acquire(e, m, st)
                    elif c.n == "unlock":
                        st = self.release(st)
        if k in ("call", "mcall") and "f" in e:
            c = self.callee(e)
            f = self.P.funcs.get(c.usr) if c is not None else None
            if f is not None and f.body is not None and touches(self.P, f) and not any(l in str(c.ret) for l in ("unique_lock", "lock_guard")):
                base, self.base = self.base, len(self.scopes)
                st = self.func(f, st)
                self.base = base
        return st

    def access(self, e, st):
        self.accesses += 1
        st = st.copy()
        if not st.held:
            self.violation("access without lock: " + e["n"], e, "%s uses %s without holding the mutex" % (self.label, e["n"]))
        elif st.done:
            self.violation("second critical section: " + e["n"], e, "%s uses %s in a second critical section: another thread can change the state in between" % (self.label, e["n"]))
        st.used = True
        return st


def touches(P, f, seen=None):
    """the function, or one it calls, works on the guarded data"""
    memo = P.__dict__.setdefault("_touches", {})
    if f.usr in memo:
        return memo[f.usr]
    memo[f.usr] = False
    r = []

    def see(x):
        if r:
            return False
        if x.get("k") == "mem" and str(x.get("q", "")).startswith(DATA + "::"):
            r.append(1)
        if x.get("k") in ("call", "mcall") and "f" in x:
            try:
                g = P.funcs.get(f.callees[x["f"]].usr)
            except (IndexError, KeyError, TypeError):
                g = None
            if g is not None and g.body is not None and g.usr != f.usr and g.file.endswith("SharedKinDynComputations.cpp") and touches(P, g):
                r.append(1)
    walk(f.body, see)
    memo[f.usr] = bool(r)
    return bool(r)


def public(P):
    out = []
    for f in P.methods(CLS):
        if f.body is None or f.ctor or f.n.startswith("~") or f.d.get("acc") != 0:
            continue
        query = any("RobotState" in p.get("t", "") for p in f.params)
        if query or not f.const:
            out.append(f)
    return out


def discipline(P, tier):
    res = Res()
    fs = public(P)
    if len([f for f in fs if any("RobotState" in p.get("t", "") for p in f.params)]) < 10:
        raise Broken("queries of SharedKinDynComputations")
    mutexes = {}
    for f in fs:
        label = "%s(%s)" % (f.n, ", ".join(p.get("t", "").split("::")[-1] for p in f.params))
        fl = Flow(P, f, res, label)
        fl.scopes, fl.base, fl.file = [], 0, f.file
        fl.func(f, S())
        res.site("SharedKinDynComputations::" + label)
        res.count("accesses to the guarded data", fl.accesses)
        res.count("lock sites", fl.locked)
        for key, (where, what) in sorted(fl.bad.items()):
            res.bad("%s: %s" % (label, key), where, what)
        if not fl.bad:
            res.good(fl.accesses + 1)
        for m in fl.mutexes:
            mutexes.setdefault(m, []).append(label)
        # static locals are shared by every object, whatever mutex each of them holds
        seen = set()
        statics(P, f, res, label, seen)
    res.decide(len(mutexes) <= 1, "one mutex", CLS, "queries lock different mutexes: " + "; ".join("%s in %s" % (m, ", ".join(v[:3])) for m, v in mutexes.items()))
    # the mutex belongs to the object
    rec = P.records.get(DATA)
    for m in mutexes:
        res.decide(rec is not None and any(m.endswith("::" + x["n"]) and x["n"] in [y["n"] for y in rec.get("fields", [])] for x in rec["fields"]), "mutex per object", CLS,
                   "%s is not a field of the guarded object" % m)
    return res


def statics(P, f, res, label, seen):
    if f.usr in seen or f.body is None:
        return
    seen.add(f.usr)

    def see(x):
        if x.get("k") == "decl":
            for d in x.get("d", []):
                if d.get("st") or d.get("static"):
                    t = d.get("lt") or d.get("t", "")
                    res.decide(t.startswith("const") or d.get("c") == 1, "%s: static %s" % (label, d["n"]), "%s:%s" % (f.file, x.get("l")),
                               "%s keeps %s in storage shared by every object" % (label, d["n"]))
        if x.get("k") in ("call", "mcall") and "f" in x:
            try:
                g = P.funcs.get(f.callees[x["f"]].usr)
            except (IndexError, KeyError, TypeError):
                g = None
            if g is not None and g.file.endswith("SharedKinDynComputations.cpp"):
                statics(P, g, res, label, seen)
    walk(f.body, see)


def tasks(P, pid, tier):
    return [(discipline, ())]
