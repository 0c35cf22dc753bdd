"""Gated value-graph construction for the functions of a Program.

Every function is turned into gated SSA over the value domain of terms.py: both arms
of a condition the analysis cannot decide are put into the graph, each write becoming
the gate `cond ? new : old`; early exits gate the rest of the function. Nothing is
executed and no path is enumerated: there is one graph per function, whose leaves are
the analysis' atoms. Container dimensions come from a small layout instance and are
constants of the graph.
"""
import numpy as np

from . import terms as T
from .program import clean_type, strip_targs, targs, walk


def units(k, lits):
    """what a false conjunction or a selection implies once its other parts are known"""
    todo = [(a, v) for a, v in lits.items() if (a.op == "and" and not v) or a.op == "bite"]
    memo = {}

    def learn(a, v):
        if not T.isn(a):
            return
        for b, w in T.literals(a, v).items():
            if b not in k:
                k[b] = w
                memo.clear()
                if (b.op == "and" and not w) or b.op == "bite":
                    todo.append((b, w))
    while todo:
        a, v = todo.pop()
        if a.op == "and":
            x, y = a.args
            if T.kleene(x, k, memo) is True:
                learn(y, False)
            elif T.kleene(y, k, memo) is True:
                learn(x, False)
        else:
            c, x, y = a.args
            kc = T.kleene(c, k, memo)
            if kc is None:
                kx, ky = T.kleene(x, k, memo), T.kleene(y, k, memo)
                if kx is (not v):
                    kc = False
                elif ky is (not v):
                    kc = True
                if kc is not None:
                    learn(c, kc)
            if kc is not None:
                learn(x if kc else y, v)


class Abort(Exception):
    """the construct is outside the domain: the caller's result is unknown"""


class Wild(Abort):
    """an access that is invalid whatever the inputs, reached on every path: the code itself is wrong"""


class Endless(Abort):
    """a repetition went on for as long as the analysis follows it, on every path"""


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class G:
    """guard chain node"""
    __slots__ = ("up", "c", "depth")

    def __init__(self, up, c):
        self.up = up
        self.c = c
        self.depth = up.depth + 1 if up else 0


ROOT = G(None, True)
_ids = [0]


class Ent:
    __slots__ = ("d", "g", "fresh", "id", "sg", "__weakref__")

    def __init__(self, g=ROOT):
        self.d = {}
        self.g = g
        self.fresh = True
        self.sg = None
        _ids[0] += 1
        self.id = _ids[0]


class Obj(Ent):
    __slots__ = ("cls", "info")

    def __init__(self, cls, g=ROOT):
        super().__init__(g)
        self.cls = cls
        self.info = None

    def __repr__(self):
        return "<%s#%d>" % (self.cls, self.id)


class Frame(Ent):
    __slots__ = ("fn", "this", "rets", "entry", "cap", "callees", "rm", "name")

    def __init__(self, fn, this, g, cap=None):
        super().__init__(g)
        self.fn = fn
        self.this = this
        self.rets = []
        self.entry = g
        self.cap = cap
        self.sg = {}
        self.rm = "v"


class Buf(Ent):
    __slots__ = ()

    def __repr__(self):
        return "<buf#%d %d>" % (self.id, len(self.d))


class M(Ent):
    """matrix: owner (d: b, r, c) or view (buf, idx)"""
    __slots__ = ("kind", "idx", "vb", "quat", "vec")

    def __init__(self, kind, g=ROOT):
        super().__init__(g)
        self.kind = kind    # dyn / fix / view
        self.idx = None
        self.vb = None
        self.quat = None
        self.vec = False

    def __repr__(self):
        return "<M#%d %s>" % (self.id, self.kind)


class Lst(Ent):
    __slots__ = ("et",)

    def __init__(self, et="", g=ROOT):
        super().__init__(g)
        self.et = et
        self.d["#n"] = 0


class MapV(Ent):
    __slots__ = ("kt", "vt")

    def __init__(self, kt="", vt="", g=ROOT):
        super().__init__(g)
        self.kt = kt
        self.vt = vt


class Sp(Ent):
    """sparsity pattern: {(row, col): condition}"""
    __slots__ = ()


class Opq(Ent):
    __slots__ = ("kind", "info")

    def __init__(self, kind, info=None, g=ROOT):
        super().__init__(g)
        self.kind = kind
        self.info = info

    def __repr__(self):
        return "<opq %s>" % self.kind


class LVar(Ent):
    """levi variable (d: i -> value)"""
    __slots__ = ("name", "dim", "atoms", "deff", "indep")

    def __init__(self, name, dim, g=ROOT):
        super().__init__(g)
        self.name = name
        self.dim = dim
        self.deff = None
        self.indep = False
        self.atoms = [T.atom("LV#%d:%s[%d]" % (self.id, name, i)) for i in range(dim)]
        for i in range(dim):
            self.d[i] = 0.0

    def __repr__(self):
        return "<lvar %s>" % self.name


class LE:
    """levi expression: matrix of terms over LVar atoms (immutable)"""
    __slots__ = ("a", "name", "vars")

    def __init__(self, a, vars=(), name=""):
        self.a = a
        self.vars = frozenset(vars)
        self.name = name

    def __repr__(self):
        return "<LE %s %s>" % (self.name, self.a.shape)


class Ptr:
    __slots__ = ("t", "uniq")

    def __init__(self, t, uniq=False):
        self.t = t
        self.uniq = uniq

    def __repr__(self):
        return "&%r" % (self.t,)


NULL = Ptr(None)


class LRef:
    __slots__ = ("e", "k")

    def __init__(self, e, k):
        self.e = e
        self.k = k

    def __repr__(self):
        return "ref(%r,%r)" % (self.e, self.k)


class Lam:
    __slots__ = ("node", "frame", "vals")

    def __init__(self, node, frame, vals):
        self.node = node
        self.frame = frame
        self.vals = vals


class FnRef:
    __slots__ = ("c", "obj")

    def __init__(self, c, obj=None):
        self.c = c
        self.obj = obj


class Ch:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "(%s ? %r : %r)" % (T.show(self.c, 2), self.a, self.b)


class It:
    __slots__ = ("cont", "pos", "rev")

    def __init__(self, cont, pos, rev=False):
        self.cont = cont
        self.pos = pos
        self.rev = rev

    def __repr__(self):
        return "it(%r,%r)" % (self.cont, self.pos)


def scalar(v):
    return isinstance(v, (int, float, bool, T.N))


INTT = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "long long",
        "unsigned long long", "signed char", "size_t"}
FLT = {"double", "float", "long double"}

VECFIX = {"iDynTree::Position": 3, "iDynTree::GeomVector3": 3, "iDynTree::Direction": 3, "iDynTree::PositionRaw": 3,
          "iDynTree::AngularMotionVector3": 3, "iDynTree::LinearMotionVector3": 3, "iDynTree::Force3": 3, "iDynTree::Torque3": 3,
          "iDynTree::Twist": 6, "iDynTree::Wrench": 6, "iDynTree::SpatialMotionVector": 6, "iDynTree::SpatialForceVector": 6,
          "iDynTree::LinearForceVector3": 3, "iDynTree::AngularForceVector3": 3,
          "iDynTree::SpatialMomentum": 6, "iDynTree::SpatialAcc": 6, "iDynTree::Vector3": 3, "iDynTree::Vector4": 4, "iDynTree::Vector6": 6}


UNSIGNED = {"unsigned int": 32, "unsigned short": 16, "unsigned char": 8, "unsigned long": 64, "unsigned long long": 64, "size_t": 64, "std::size_t": 64}


def wrap(v, t):
    """unsigned arithmetic is modular"""
    if isinstance(v, int) and not isinstance(v, bool) and (v < 0 or v >> 32) and t:
        b = UNSIGNED.get(clean_type(t))
        if b:
            return v % (1 << b)
    return v


def eig_dims(cl):
    a = [x for x in targs(cl) if x.lstrip("-").isdigit()]
    return int(a[0]), int(a[1])


class Interp:
    def __init__(self, prog, maxdepth=60):
        self.P = prog
        self.guard = ROOT
        self.known = {}
        self.kmemo = {}
        self.frames = []
        self.events = []
        self.globals = {}
        self.statics = {}
        self.fresh_n = 0
        self.maxdepth = maxdepth
        self.unmodelled = {}
        self.hooks = {}       # qn or usr -> callable(I, this, args(lvals), node, callee)
        self.wlog = None
        self.cur = None
        self.called = {}
        self.nstat = 0
        self.line = 0
        self.onread = None
        self.opt = {}
        self.asvars = {}
        from . import models, kin
        self.models = models.MODELS
        self.mod = models

    # ------------------------------------------------------------ atoms
    def uniq(self, stem):
        self.fresh_n += 1
        return "%s~%d" % (stem, self.fresh_n)

    def top(self, why):
        return T.top(self.uniq(why))

    def uninit(self, stem, boolean=False):
        n = self.uniq("uninit:" + stem)
        return T.batom(n) if boolean else T.atom(n)

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw["guard"] = self.path()
        kw["at"] = self.at()
        kw["fn"] = self.frames[-1].fn.qn if self.frames and self.frames[-1].fn is not None else "?"
        self.events.append(kw)
        return kw

    def wild(self, kind, what, msg):
        """a definitely invalid access: certain if nothing symbolic guards it"""
        e = self.event(kind, what=what)
        sure = self.happens(e["guard"])
        raise (Wild if sure else Abort)(what if sure else msg)

    def sized(self, *n):
        for x in n:
            if isinstance(x, int) and not 0 <= x < 10 ** 6:
                self.wild("size", "a container of %d elements" % x, "negative or gigantic size")

    def happens(self, g):
        """the guard holds surely, or (where every input is admissible) for some input"""
        if g is True:
            return True
        if not self.opt.get("all_inputs") or T.has_top(g) or any(str(a.args[0]).startswith("uninit:") for a in T.atoms_of(g)):
            return False
        return bool(np.asarray(T.Valuation(7)(g)).astype(bool).any())

    def at(self):
        if not self.frames:
            return "?"
        f = self.frames[-1].fn
        return "%s:%d" % (f.file if f is not None else "?", self.line)

    # ------------------------------------------------------------ guards
    def push(self, c):
        c = T.tobool(c) if not isinstance(c, bool) else c
        prev = (self.guard, self.known, self.kmemo)
        self.guard = G(self.guard, c)
        lits = T.literals(c)
        if lits:
            k = dict(self.known)
            for a, v in lits.items():
                k[a] = v
                if a.op == "lt" and v:
                    k[T.mk("le", *a.args)] = True
                    k[T.mk("le", a.args[1], a.args[0])] = False
                    k[T.mk("lt", a.args[1], a.args[0])] = False
                elif a.op == "lt":
                    k[T.mk("le", a.args[1], a.args[0])] = True
                elif a.op == "le" and not v:
                    k[T.mk("lt", a.args[1], a.args[0])] = True
                    k[T.mk("le", a.args[1], a.args[0])] = True
                    k[T.mk("lt", a.args[0], a.args[1])] = False
                elif a.op == "le" and v:
                    k[T.mk("lt", a.args[1], a.args[0])] = False
            units(k, lits)
            self.known = k
            self.kmemo = {}
        return prev

    def pop(self, prev):
        self.guard, self.known, self.kmemo = prev

    def path(self, upto=ROOT):
        c = True
        g = self.guard
        while g is not None and g is not upto:
            if g.c is not True:
                c = T.land(g.c, c)
            g = g.up
        return c

    def rel(self, g):
        """condition under which the current point runs, given that g holds"""
        cur = self.guard
        if cur is g:
            return True
        conds = []
        a, b = cur, g
        while a is not b:
            if a.depth >= b.depth:
                conds.append(a.c)
                a = a.up
            else:
                b = b.up
        c = True
        for x in reversed(conds):
            if x is not True:
                c = T.land(c, x)
        return c

    def truth(self, c):
        c = T.tobool(c)
        if isinstance(c, bool):
            return c
        if not T.isn(c):
            return None
        if not self.known:
            return None
        return T.kleene(c, self.known, self.kmemo)

    def reduce(self, v):
        if not self.known:
            return v
        while True:
            if isinstance(v, T.N):
                if v.op in ("ite", "bite"):
                    k = T.kleene(v.args[0], self.known, self.kmemo)
                    if k is None:
                        if v.op == "bite":
                            k2 = T.kleene(v, self.known, self.kmemo)
                            return v if k2 is None else k2
                        return v
                    v = v.args[1] if k else v.args[2]
                    continue
                if v.op in T.BOOLOPS:
                    k = T.kleene(v, self.known, self.kmemo)
                    if k is not None:
                        return k
                return v
            if isinstance(v, Ch):
                k = T.kleene(v.c, self.known, self.kmemo)
                if k is None:
                    return v
                v = v.a if k else v.b
                continue
            return v

    # ------------------------------------------------------------ memory
    def write(self, e, k, v, init=False):
        d = e.d
        if self.wlog is not None:
            self.wlog.append((e, k))
        if init:
            if e.sg is not None:
                e.sg[k] = self.guard
            d[k] = v
            if isinstance(v, Ent):
                v.fresh = False
            return
        g0 = e.g
        if e.sg is not None:
            g0 = e.sg.get(k, g0)
        c = self.rel(g0) if self.guard is not g0 else True
        if c is not True:
            t = self.truth_upto(c, g0)
            if t is not None:
                c = t
        if c is False:
            return
        old = d.get(k, MISSING)
        d[k] = v if c is True else self.merge(c, v, old)
        if isinstance(v, Ent):
            v.fresh = False

    def truth_upto(self, c, g0):
        return None

    def read(self, e, k):
        v = e.d.get(k, MISSING)
        if self.onread is not None:
            self.onread(e, k)
        if v.__class__ in (T.N, Ch):
            return self.reduce(v)
        return v

    def rd(self, x):
        """value of an lvalue-or-value"""
        if x.__class__ is SymRef:
            return self.top("element at unknown index")
        while x.__class__ is LRef:
            v = self.read(x.e, x.k)
            if v is MISSING:
                v = self.lazy(x)
            x = v
        if x.__class__ is Ch:
            x = self.reduce(x)
            if x.__class__ is Ch:
                a, b = x.a, x.b
                if a.__class__ is LRef or b.__class__ is LRef:
                    return self.merge(x.c, self.under(x.c, lambda: self.rd(a)), self.under(T.lnot(x.c), lambda: self.rd(b)))
        return x

    def under(self, c, f):
        p = self.push(c)
        try:
            return f()
        finally:
            self.pop(p)

    def lazy(self, ref):
        e, k = ref.e, ref.k
        if isinstance(e, Buf):
            return self.top("out of bounds read")
        v = self.uninit(str(k))
        e.d[k] = v
        return v

    def assign(self, lhs, v):
        """lhs: LRef or entity; v: value"""
        if lhs.__class__ is SymRef:
            return self.havoc(lhs.e, "write at unknown index")
        if lhs.__class__ is Ch:
            lhs = self.reduce(lhs)
        if lhs.__class__ is Ch:
            self.under(lhs.c, lambda: self.assign(lhs.a, v))
            self.under(T.lnot(lhs.c), lambda: self.assign(lhs.b, v))
            return
        if lhs.__class__ is LRef:
            cur = lhs.e.d.get(lhs.k, MISSING)
            if isinstance(cur, LRef):
                return self.assign(cur, v)
            if isinstance(cur, Ch) :
                cur = self.reduce(cur)
                if isinstance(cur, Ch) and (isinstance(cur.a, (LRef, Ent)) and isinstance(cur.b, (LRef, Ent))):
                    return self.assign(cur, v)
            if isinstance(cur, (M, Obj, Lst, MapV, Sp)) and isinstance(v, Ent):
                return self.assign_ent(cur, v)
            self.write(lhs.e, lhs.k, v if not isinstance(v, Ent) else self.own(v))
            return
        if isinstance(lhs, Ent):
            if isinstance(v, Ch):
                v = self.reduce(v)
                if isinstance(v, Ch):
                    self.under(v.c, lambda: self.assign(lhs, v.a))
                    self.under(T.lnot(v.c), lambda: self.assign(lhs, v.b))
                    return
            if isinstance(v, Ent):
                return self.assign_ent(lhs, v)
            if T.isn(v):
                return self.havoc(lhs, "assigned unknown")
        raise Abort("assign to %r" % (lhs,))

    def havoc(self, e, why, depth=0):
        if isinstance(e, M):
            b, r, c, idx = self.mview(e)
            for k in idx.flat:
                self.write(b, int(k), self.top(why))
            e.quat = None
            return
        if isinstance(e, (Obj, Frame)):
            for k in list(e.d):
                v = e.d[k]
                if isinstance(v, Ent) and depth < 4:
                    self.havoc(v, why, depth + 1)
                elif scalar(v) or isinstance(v, str):
                    self.write(e, k, self.top(why))
            return
        if isinstance(e, Lst):
            for k in list(e.d):
                v = e.d[k]
                if isinstance(v, Ent) and depth < 4:
                    self.havoc(v, why, depth + 1)
                elif k != "#n":
                    self.write(e, k, self.top(why))

    def assign_ent(self, dst, src):
        if dst is src:
            return
        if isinstance(dst, M):
            if isinstance(src, M):
                return self.m_assign(dst, src)
        if isinstance(dst, Obj) and isinstance(src, Obj):
            for k, v in list(src.d.items()):
                self.copy_slot(dst, k, v)
            if src.info is not None:
                dst.info = src.info
            return
        if isinstance(dst, Lst) and isinstance(src, Lst):
            for k, v in list(src.d.items()):
                if k == "#n":
                    self.write(dst, k, v)
                    continue
                cur = dst.d.get(k, MISSING)
                if isinstance(cur, Ent) and isinstance(v, Ent) and cur.__class__ is v.__class__:
                    self.assign_ent(cur, v)
                else:
                    self.write(dst, k, self.copy(v))
            return
        if isinstance(dst, (MapV, Sp)) and dst.__class__ is src.__class__:
            for k in list(dst.d):
                if k not in src.d:
                    self.write(dst, k, False if isinstance(dst, Sp) else MISSING)
            for k, v in list(src.d.items()):
                self.write(dst, k, self.copy(v))
            return
        if isinstance(dst, LVar) and isinstance(src, M):
            self.lv_assign(dst, src)
            return
        raise Abort("assign %r := %r" % (dst, src))

    def lv_assign(self, dst, src):
        a = self.m_arr(src)
        vals = list(a.flat)
        if len(vals) != dst.dim:
            self.event("shape", what="levi variable %s of dimension %d assigned %d values" % (dst.name, dst.dim, len(vals)))
        for i, v in enumerate(vals[:dst.dim]):
            self.write(dst, i, v)

    def copy_slot(self, dst, k, v):
        cur = dst.d.get(k, MISSING)
        if isinstance(v, Ch):
            v = self.reduce(v)
        if isinstance(cur, Ent) and isinstance(v, Ent) and cur.__class__ is v.__class__ and not isinstance(cur, (Opq,)):
            self.assign_ent(cur, v)
        else:
            self.write(dst, k, self.copy(v))

    def held(self, x):
        """a copy that is part of something else"""
        x = self.copy(x)
        if isinstance(x, Ent):
            x.fresh = False
        return x

    def copy(self, v, deep=True):
        """the value a by-value copy has"""
        if isinstance(v, M):
            if v.kind != "view":
                n = M(v.kind, self.guard)
                b, r, c, idx = self.mview(v)
                nb = Buf(self.guard)
                for i, k in enumerate(idx.flat):
                    nb.d[i] = self.read(b, int(k))
                n.d = {"b": nb, "r": r, "c": c}
                n.quat = v.quat
                n.vec = v.vec
                return n
            return v   # views (Map, Span, Block) copy as references
        if isinstance(v, Obj):
            n = Obj(v.cls, self.guard)
            n.info = v.info
            for k, x in v.d.items():
                n.d[k] = self.held(x)
            return n
        if isinstance(v, Lst):
            n = Lst(v.et, self.guard)
            for k, x in v.d.items():
                n.d[k] = self.held(x)
            return n
        if isinstance(v, MapV):
            n = MapV(v.kt, v.vt, self.guard)
            for k, x in v.d.items():
                n.d[k] = self.held(x)
            return n
        if isinstance(v, Sp):
            n = Sp(self.guard)
            n.d = dict(v.d)
            return n
        return v

    def own(self, v):
        if isinstance(v, Ent) and v.fresh:
            return v
        return self.copy(v)

    def merge(self, c, a, b):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if b is MISSING and not isinstance(a, Ent):
            return a if scalar(a) else Ch(c, a, b)
        if scalar(a) and scalar(b):
            return T.ite(c, a, b)
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.t is b.t:
            return a
        if isinstance(a, LRef) and isinstance(b, LRef) and a.e is b.e and a.k == b.k:
            return a
        if isinstance(a, LE) and isinstance(b, LE) and a.a.shape == b.a.shape:
            n = np.empty(a.a.shape, dtype=object)
            for i in np.ndindex(*n.shape):
                n[i] = T.ite(c, a.a[i], b.a[i])
            return LE(n, a.vars | b.vars, a.name)
        if isinstance(a, Buf) and isinstance(b, Buf) and len(a.d) == len(b.d):
            n = Buf(self.guard)
            for k in a.d:
                n.d[k] = self.merge(c, a.d[k], b.d.get(k, MISSING))
            return n
        if isinstance(a, Ch) and a.c is c:
            a = a.a
        if isinstance(b, Ch) and b.c is c:
            b = b.b
        if a is b:
            return a
        return Ch(c, a, b)

    def merge_ret(self, c, a, b):
        """merge by-value results"""
        if isinstance(a, M) and isinstance(b, M):
            try:
                x, y = self.m_arr(a), self.m_arr(b)
            except Abort:
                return Ch(c, a, b)
            if x.shape == y.shape:
                n = np.empty(x.shape, dtype=object)
                for i in np.ndindex(*x.shape):
                    n[i] = T.ite(c, x[i], y[i])
                m = self.mnew(n, a.kind if a.kind != "view" else "fix", a.vec)
                if (a.quat is not None or b.quat is not None) and x.shape == (3, 3):
                    m.quat = tuple(T.ite(c, u, v) for u, v in zip(self.mod.as_quat(self, a), self.mod.as_quat(self, b)))
                return m
            return Ch(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
            n = Obj(a.cls, self.guard)
            for k in set(a.d) | set(b.d):
                n.d[k] = self.merge_ret(c, a.d.get(k, MISSING), b.d.get(k, MISSING))
            return n
        return self.merge(c, a, b)

    # ------------------------------------------------------------ matrices
    def mnew(self, arr, kind="dyn", vec=None):
        m = M(kind, self.guard)
        b = Buf(self.guard)
        r, c = arr.shape
        i = 0
        for v in arr.flat:
            b.d[i] = v
            i += 1
        m.d = {"b": b, "r": r, "c": c}
        m.vec = (c == 1) if vec is None else vec
        return m

    def mfill(self, r, c, val, kind="dyn", vec=None):
        a = np.empty((r, c), dtype=object)
        for i in np.ndindex(r, c):
            a[i] = val(i) if callable(val) else val
        return self.mnew(a, kind, vec)

    def mzero(self, r, c, kind="dyn", vec=None):
        return self.mfill(r, c, 0.0, kind, vec)

    def muninit(self, r, c, kind, stem, vec=None):
        return self.mfill(r, c, lambda i: self.uninit("%s[%d,%d]" % (stem, i[0], i[1])), kind, vec)

    def view(self, buf, idx, vec=None):
        m = M("view", self.guard)
        m.vb = buf
        m.idx = idx
        m.vec = (idx.shape[1] == 1) if vec is None else vec
        return m

    def mview(self, m):
        if m.kind == "view":
            return m.vb, m.idx.shape[0], m.idx.shape[1], m.idx
        b, r, c = self.read(m, "b"), self.read(m, "r"), self.read(m, "c")
        if not isinstance(r, int) or not isinstance(c, int) or not isinstance(b, Buf):
            raise Abort("matrix with unknown dimensions")
        return b, r, c, np.arange(r * c).reshape(r, c)

    def shape(self, m):
        if m.kind == "view":
            return m.idx.shape
        r, c = self.read(m, "r"), self.read(m, "c")
        if not isinstance(r, int) or not isinstance(c, int):
            raise Abort("matrix with unknown dimensions")
        return r, c

    def asview(self, m, rows=None):
        b, r, c, idx = self.mview(m)
        v = self.view(b, idx, m.vec)
        return v

    def m_arr(self, m):
        if isinstance(m, Ch):
            m = self.reduce(m)
        if isinstance(m, Ch):
            x = self.under(m.c, lambda: self.m_arr(m.a))
            y = self.under(T.lnot(m.c), lambda: self.m_arr(m.b))
            if x.shape != y.shape:
                raise Abort("choice of matrices with different shapes")
            n = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                n[i] = T.ite(m.c, x[i], y[i])
            return n
        if isinstance(m, LE):
            raise Abort("expression used as matrix")
        if scalar(m):
            a = np.empty((1, 1), dtype=object)
            a[0, 0] = m
            return a
        if not isinstance(m, M):
            raise Abort("not a matrix: %r" % (m,))
        b, r, c, idx = self.mview(m)
        a = np.empty((r, c), dtype=object)
        rd = self.read
        for i in range(r):
            for j in range(c):
                v = rd(b, int(idx[i, j]))
                if v is MISSING:
                    v = self.top("out of bounds")
                a[i, j] = v
        return a

    def m_assign(self, dst, src, aliasing=True):
        a = self.m_arr(src)
        q = src.quat if isinstance(src, M) else None
        old = None
        if q is not None and dst.kind == "fix":
            c = self.rel(dst.g)
            if c is not True:
                old = self.mod.as_quat(self, dst)
        self.m_store(dst, a)
        if q is not None and dst.kind == "fix":
            dst.quat = tuple(T.ite(c, x, y) for x, y in zip(q, old)) if old is not None else q

    def m_store(self, dst, a):
        if dst.kind == "dyn":
            r, c = self.read(dst, "r"), self.read(dst, "c")
            if (r, c) != a.shape:
                if dst.vec and a.shape[0] == 1 and a.shape[1] != 1:
                    a = a.T
                if (r, c) != a.shape:
                    nb = Buf(self.guard)
                    for i, v in enumerate(a.flat):
                        nb.d[i] = v
                    self.write(dst, "b", nb)
                    self.write(dst, "r", a.shape[0])
                    self.write(dst, "c", a.shape[1])
                    dst.quat = None
                    return
        b, r, c, idx = self.mview(dst)
        if (r, c) != a.shape:
            if r * c == a.size and (r == 1 or c == 1) and (a.shape[0] == 1 or a.shape[1] == 1):
                a = a.reshape(r, c)
            else:
                self.event("shape", what="assignment of a %dx%d value to a %dx%d destination" % (a.shape + (r, c)))
                rr, cc = min(r, a.shape[0]), min(c, a.shape[1])
                idx, a = idx[:rr, :cc], a[:rr, :cc]
        dst.quat = None
        w = self.write
        fi = idx.ravel()
        fa = a.ravel()
        for i in range(len(fi)):
            w(b, int(fi[i]), fa[i])

    def m_set(self, m, i, j, v):
        b, r, c, idx = self.mview(m)
        m.quat = None
        self.write(b, int(idx[i, j]), v)

    def m_ref(self, m, i, j=None):
        b, r, c, idx = self.mview(m)
        m.quat = None if m.kind != "view" else m.quat
        if j is None:
            if not isinstance(i, int):
                return self.symidx(m, i)
            if i < 0 or i >= r * c:
                if self.happens(self.event("oob", what="index %d of a vector of size %d" % (i, r * c))["guard"]):
                    raise Wild("index %d of a vector of size %d" % (i, r * c))
                return self.top("out of bounds")
            if c == 1:
                return LRef(b, int(idx[i, 0]))
            if r == 1:
                return LRef(b, int(idx[0, i]))
            return LRef(b, int(idx.T.ravel()[i]))
        if not isinstance(i, int) or not isinstance(j, int):
            return self.symidx(m, i)
        if i < 0 or j < 0 or i >= r or j >= c:
            if self.happens(self.event("oob", what="element (%d,%d) of a %dx%d matrix" % (i, j, r, c))["guard"]):
                raise Wild("element (%d,%d) of a %dx%d matrix" % (i, j, r, c))
            return self.top("out of bounds")
        return LRef(b, int(idx[i, j]))

    def unset(self, v, what):
        """a position or size read from storage that was never written"""
        if T.isn(v):
            un = set(a for a in T.atoms_of(v) if a.op == "atom" and str(a.args[0]).startswith("uninit:"))
            if un and T.depends(v, un):
                self.wild("oob", what + " that was never set", "uninitialised position")

    def symidx(self, m, i):
        self.unset(i, "an index")
        # unknown element: reading yields top, and a write may hit any element
        self.event("symidx", what="unknown index")
        return SymRef(m)

    # ------------------------------------------------------------ default values
    def default(self, t, lt=None, stem="v", zero=False):
        ct = clean_type(t or "")
        cl = clean_type(lt or t or "")
        if ct.endswith("*") or cl.endswith("*"):
            return NULL
        if cl in ("bool",):
            return False if zero else self.uninit(stem, True)
        if cl in INTT:
            return 0 if zero else self.uninit(stem)
        if cl in FLT:
            return 0.0 if zero else self.uninit(stem)
        s = strip_targs(cl)
        if s in VECFIX:
            if s in ("iDynTree::Position", "iDynTree::PositionRaw", "iDynTree::Vector3", "iDynTree::Vector4", "iDynTree::Vector6"):
                return self.muninit(VECFIX[s], 1, "fix", stem, True)      # their constructors leave the data as it is
            if not zero and s in ("iDynTree::GeomVector3", "iDynTree::LinearForceVector3", "iDynTree::AngularForceVector3", "iDynTree::LinearMotionVector3",
                                  "iDynTree::AngularMotionVector3"):
                return self.muninit(VECFIX[s], 1, "fix", stem, True)      # defaulted: zero only when value-initialised
            return self.mzero(VECFIX[s], 1, "fix", True)
        if s == "iDynTree::VectorFixSize":
            n = int(targs(cl)[0])
            return self.muninit(n, 1, "fix", stem, True)
        if s == "iDynTree::MatrixFixSize":
            r, c = (int(x) for x in targs(cl)[:2])
            return self.muninit(r, c, "fix", stem, False)
        if s == "iDynTree::VectorDynSize":
            return self.mzero(0, 1, "dyn", True)
        if s == "iDynTree::MatrixDynSize":
            return self.mzero(0, 0, "dyn", False)
        if s in ("iDynTree::Rotation", "iDynTree::RotationRaw"):
            return self.muninit(3, 3, "fix", stem, False)
        if s == "iDynTree::Transform":
            return self.mod.transform(self, self.muninit(3, 1, "fix", stem + ".p", True), self.muninit(3, 3, "fix", stem + ".R", False))
        if s == "iDynTree::IndexRange":
            o = Obj("iDynTree::IndexRange", self.guard)
            o.d = {"offset": self.uninit(stem + ".offset"), "size": self.uninit(stem + ".size")}
            return o
        if s == "iDynTree::optimalcontrol::SparsityStructure":
            return Sp(self.guard)
        if s == "iDynTree::optimalcontrol::TimeRange":
            return self.mod.timerange(self, 0.0, 0.0)
        if s.startswith("Eigen::Matrix") or s.startswith("Eigen::Array"):
            r, c = eig_dims(cl)
            if r < 0 or c < 0:
                return self.mzero(max(r, 0), max(c, 0) if c != 1 else 1, "dyn", c == 1)
            return self.muninit(r, c, "fix", stem, c == 1)
        if s in ("std::vector", "std::deque", "std::array"):
            a = targs(cl)
            l = Lst(a[0] if a else "", self.guard)
            if s == "std::array" and len(a) > 1 and a[1].isdigit():
                for i in range(int(a[1])):
                    l.d[i] = self.default(a[0], a[0], "%s[%d]" % (stem, i))
                l.d["#n"] = int(a[1])
            return l
        if s in ("std::unordered_map", "std::map"):
            a = targs(cl) + ["", ""]
            return MapV(a[0], a[1] or "?", self.guard)
        if s in ("std::unordered_set", "std::set"):
            a = targs(cl) + [""]
            return MapV(a[0], "", self.guard)
        if s in ("std::basic_string", "std::string"):
            return ""
        if s in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr"):
            return NULL
        if s == "std::pair":
            a = targs(cl) + ["", ""]
            o = Obj("std::pair", self.guard)
            o.d = {"first": self.default(a[0], a[0], stem + ".first", True), "second": self.default(a[1], a[1], stem + ".second", True)}
            return o
        if s == "std::function":
            return NULL
        if s in self.mod.DEFAULTS:
            return self.mod.DEFAULTS[s](self, cl, stem)
        r = self.P.record(ct) or self.P.record(cl) or self.P.record(s)
        if r is not None and not r["qn"].startswith("iDynTree::optimalcontrol::TimeInvariant"):
            o = self.construct_default(r["qn"])
            if zero and not any(f.ctor == "default" and f.body is not None for f in self.P.methods(r["qn"])):
                self.zeroed(o)        # value initialisation zeroes the storage of a class without a constructor of its own first
            return o
        if s.startswith("levi::"):
            return LE(np.empty((0, 0), dtype=object))
        if "enum" in cl or self.is_enum(cl):
            return self.uninit(stem)
        return Opq(cl, None, self.guard)

    def zeroed(self, o):
        for k, v in list(o.d.items()):
            if isinstance(v, Obj):
                self.zeroed(v)
            elif isinstance(v, M):
                if v.kind == "fix":
                    b = v.d["b"]
                    b.d.update({i: self.zero_leaf(x) for i, x in b.d.items()})
            else:
                o.d[k] = self.zero_leaf(v)

    @staticmethod
    def zero_leaf(v):
        if isinstance(v, T.N) and v.op in ("atom", "batom") and str(v.args[0]).startswith("uninit:"):
            return 0 if v.op == "atom" else False
        return v

    def is_enum(self, cl):
        return cl in ("iDynTree::FrameVelocityRepresentation", "DynamicalPlanner::ComplementarityType", "DynamicalPlanner::PlanarComplementarityType")

    def construct_default(self, cls):
        fs = [f for f in self.P.methods(cls) if f.ctor == "default"]
        if fs and fs[0].body is not None:
            return self.construct(fs[0], cls, [])
        o = Obj(cls, self.guard)
        self.fields(o, cls)
        return o

    def fields(self, o, cls, skip=()):
        r = self.P.record(cls)
        if r is None:
            return
        for b in r.get("bases", []):
            self.fields(o, b, skip)
        for f in r.get("fields", []):
            if f["n"] in skip:
                continue
            if f.get("m") in ("c", "m", "r") :
                o.d[f["n"]] = MISSING
                continue
            o.d[f["n"]] = self.field_init(r, f, cls)
            v = o.d[f["n"]]
            if isinstance(v, Ent):
                v.fresh = False

    def field_init(self, r, f, cls):
        if f.get("e") is not None:
            fr = Frame(None, None, self.guard)
            fr.callees = self.P.rec_callees(r) if hasattr(self.P, "rec_callees") else []
            self.frames.append(fr)
            try:
                v = self.init_value(f["e"], f.get("t"), f.get("lt"))
            finally:
                self.frames.pop()
            return v
        return self.default(f["t"], f["lt"], cls.split("::")[-1] + "." + f["n"])

    def init_value(self, e, t, lt):
        v = self.rd(self.ev(e))
        v = self.own(v)
        return self.coerce(v, t, lt)

    def coerce(self, v, t, lt=None):
        cl = clean_type(lt or t or "")
        if cl == "bool":
            if not isinstance(v, bool):
                if isinstance(v, Ptr):
                    return v.t is not None
                if scalar(v):
                    return T.tobool(v)
            return v
        if cl in FLT:
            if isinstance(v, bool) or (T.isn(v) and T.isbool(v)):
                v = T.tonum(v)
            if isinstance(v, int) and not isinstance(v, bool):
                return float(v)
            if isinstance(v, M):
                a = self.m_arr(v)
                if a.size == 1:
                    return a.flat[0]
            return v
        if cl in INTT:
            if isinstance(v, bool) or (T.isn(v) and T.isbool(v)):
                v = T.tonum(v)
            if isinstance(v, float):
                return int(v)
            return v
        s = strip_targs(cl)
        if isinstance(v, (Lst, MapV)) and "<" in cl and s.startswith("std::"):
            a = targs(cl)
            if isinstance(v, Lst) and not v.et:
                v.et = a[0]
            elif isinstance(v, MapV) and v.vt == "?":
                v.kt, v.vt = a[0], a[1]
        if isinstance(v, M):
            want = None
            if s in ("iDynTree::VectorDynSize", "iDynTree::MatrixDynSize"):
                want = "dyn"
            elif s in VECFIX or s in ("iDynTree::VectorFixSize", "iDynTree::MatrixFixSize", "iDynTree::Rotation"):
                want = "fix"
            elif s.startswith("Eigen::Matrix"):
                r, c = eig_dims(cl)
                want = "dyn" if r < 0 or c < 0 else "fix"
            if want and v.kind == "view":
                q = v.quat
                n = self.mnew(self.m_arr(v), want, v.vec)
                n.quat = q
                return n
            if want and v.kind != want:
                v.kind = want
        return v

    def construct(self, fn, cls, args, obj=None):
        o = obj if obj is not None else Obj(cls, self.guard)
        if obj is None:
            o.d = {}
        r = self.P.record(cls)
        written = {i["f"] for i in fn.inits if "f" in i}
        if r is not None and not any(i.get("deleg") for i in fn.inits):
            for f in r.get("fields", []):
                if f["n"] not in written and f.get("m") not in ("c", "m", "r"):
                    o.d[f["n"]] = self.field_init(r, f, cls)
                    if isinstance(o.d[f["n"]], Ent):
                        o.d[f["n"]].fresh = False
        fr = self.enter(fn, o, args)
        try:
            fields = {f["n"]: f for f in (r or {}).get("fields", [])}
            for i in fn.inits:
                if "base" in i:
                    self.base_init(o, i)
                elif i.get("deleg"):
                    v = self.rd(self.ev(i["e"]))
                    if isinstance(v, Obj):
                        o.d.update(v.d)
                else:
                    f = fields.get(i["f"], {})
                    if f.get("m") in ("c", "m", "r"):
                        self.write(o, i["f"], self.ev(i["e"]), init=True)
                    else:
                        e = i["e"]
                        if e and e.get("k") == "ilist" and not e["a"]:
                            v = self.default(f.get("t"), f.get("lt"), i["f"], True)
                        elif e and e.get("k") == "vinit":
                            v = self.default(f.get("t"), f.get("lt"), i["f"], True)
                        else:
                            v = self.init_value(e, f.get("t"), f.get("lt"))
                        self.write(o, i["f"], v, init=True)
            self.body(fn, fr)
        finally:
            self.leave()
        return o

    def base_init(self, o, i):
        e = i["e"]
        if e.get("k") != "ctor":
            return
        c = self.callee(e)
        if c.repo and c.usr in self.P.funcs:
            f = self.P.funcs[c.usr]
            args = self.args(e, c)
            self.construct(f, i["base"], args, o)
            return
        if self.P.record(i["base"]) is not None and not i["base"].startswith("iDynTree"):
            self.fields(o, i["base"])
            return
        args = [self.rd(x) for x in self.args(e, c)]
        m = self.mod.BASES.get(strip_targs(i["base"]))
        if m:
            self.base_type = e.get("lt") or i["base"]
            m(self, o, args)
        o.d["#base:" + strip_targs(i["base"])] = tuple(a for a in args if not isinstance(a, Ent))

    # ------------------------------------------------------------ calls
    def callee(self, node):
        return self.frames[-1].callees[node["f"]]

    def args(self, node, c, skip=0):
        out = []
        for i, a in enumerate(node["a"][skip:]):
            m = c.pm[i] if i < len(c.pm) else "v"
            v = self.ev(a)
            if m == "v":
                v = self.rd(v)
                if isinstance(v, Ent):
                    v = self.own(v)
                if i < len(c.pt):
                    v = self.coerce(v, c.pt[i])
            elif m in ("p", "q"):
                v = self.rd(v)
            out.append(v)
        return out

    def enter(self, fn, this, args):
        if len(self.frames) > self.maxdepth:
            raise (Endless if self.path() is True else Abort)("call depth")
        fr = Frame(fn, this, self.guard)
        fr.callees = fn.callees
        fr.name = fn.qn
        fr.rm = fn.rm
        self.called[fn.usr] = self.called.get(fn.usr, 0) + 1
        for p, a in zip(fn.params, args):
            if p["m"] == "v" and isinstance(a, LRef):
                a = self.own(self.rd(a))
            fr.d[p["id"]] = a
            fr.sg[p["id"]] = self.guard
        self.frames.append(fr)
        return fr

    def leave(self):
        return self.frames.pop()

    def body(self, fn, fr):
        if fn.d.get("broken"):
            raise Abort("%s does not compile" % fn.qn)
        if fn.body is None:
            raise Abort("no body for " + fn.qn)
        self.exec(fn.body)

    def call_fn(self, fn, this, args):
        line = self.line
        g, k, km = self.guard, self.known, self.kmemo
        fr = self.enter(fn, this, args)
        try:
            self.body(fn, fr)
            return self.result(fr)
        except Abort as e:
            if not hasattr(e, "_at"):
                e._at = self.at()
            raise
        finally:
            self.leave()
            self.line = line
            self.guard, self.known, self.kmemo = g, k, km

    def result(self, fr):
        if not fr.rets:
            return None
        v = fr.rets[-1][1]
        for c, x in reversed(fr.rets[:-1]):
            v = self.merge_ret(c, x, v) if fr.rm == "v" else self.merge(c, x, v)
        return v

    def lam_body(self, node, args, fid=None):
        """the instantiation of a generic lambda that takes these arguments"""
        for sp in node["specs"]:
            if fid is not None and sp.get("f") == fid:
                return sp
        fit = []
        vals = [self.rd(a) for a in args]
        for sp in node["specs"]:
            ps = sp["params"]
            if len(ps) != len(vals):
                continue
            ok = True
            for p, v in zip(ps, vals):
                t = clean_type(p.get("lt") or p.get("t", ""))
                num = t in INTT or t in FLT or t == "bool"
                if num != scalar(v) or (isinstance(v, Obj) and strip_targs(t) != strip_targs(v.cls) and self.P.record(t) is not None and self.P.record(t)["qn"] != v.cls):
                    ok = False
            if ok:
                fit.append(sp)
        kinds = {tuple(p.get("t") in INTT for p in sp["params"]) for sp in fit}
        if not fit or len(kinds) > 1:
            raise Abort("generic lambda: %d instantiations fit the call" % len(fit))
        return fit[0]

    def call_lam(self, lam, args, fid=None):
        if isinstance(lam, FnRef):
            return self.invoke(lam.c, lam.obj, args, {"k": "call", "a": []}, False)
        if isinstance(lam, Opq) and lam.kind == "fn":           # a function of the caller, given by the analysis
            return lam.info(self, args)
        if not isinstance(lam, Lam):
            raise Abort("call of %r" % (lam,))
        line = self.line
        node = self.lam_body(lam.node, args, fid) if "specs" in lam.node else lam.node
        fr = Frame(lam.frame.fn, lam.frame.this, self.guard, lam.frame)
        fr.callees = lam.frame.callees
        fr.name = "lambda"
        for k, v in lam.vals.items():
            fr.d[k] = v
        for p, a in zip(node["params"], args):
            if p["m"] == "v" and isinstance(a, LRef):
                a = self.own(self.rd(a))
            fr.d[p["id"]] = a
            fr.sg[p["id"]] = self.guard
        self.frames.append(fr)
        g, k, km = self.guard, self.known, self.kmemo
        try:
            self.exec(node["body"])
            return self.result(fr)
        finally:
            self.frames.pop()
            self.line = line
            self.guard, self.known, self.kmemo = g, k, km

    def invoke(self, c, this, args, node, qual=False):
        """call of callee c on `this` with lvalue-or-value args"""
        h = self.hooks.get(c.sqn) or self.hooks.get(c.usr)
        if h is not None:
            r = h(self, this, args, node, c)
            if r is not NotImplemented:
                return r
        if isinstance(this, Opq) and this.kind in self.mod.OPAQUE:
            r = self.mod.OPAQUE[this.kind](self, this, c, args, node)
            if r is not NotImplemented:
                return r
        if c.repo or c.usr in self.P.funcs or (isinstance(this, Obj) and c.virt):
            fn = None
            if this is not None and c.virt and not qual and isinstance(this, Obj):
                fn = self.P.dispatch(this.cls, c.usr)
            if fn is None:
                fn = self.P.funcs.get(c.usr)
            if fn is not None and fn.body is not None:
                return self.call_fn(fn, this, args)
        if c.repo and c.n == "operator=" and isinstance(this, Obj) and args:
            self.assign(this, self.rd(args[0]))
            return this
        if c.n == "operator=" and isinstance(this, Obj) and args and c.sqn not in self.models and this.cls not in self.mod.OBJCLS:
            v = self.rd(args[0])
            if isinstance(v, Obj) or isinstance(v, Ch):
                self.assign(this, v)
                return this
        m = self.models.get(c.sqn)
        if m is None and this is not None:
            m = self.mod.by_class(self, this, c)
        if m is not None:
            r = m(self, this, args, node, c)
            if r is not NotImplemented:
                return r
        return self.unknown_call(c, this, args, node)

    def unknown_call(self, c, this, args, node):
        self.unmodelled[c.sqn] = self.unmodelled.get(c.sqn, 0) + 1
        for a, m in zip(args, c.pm):
            if m in ("m", "r", "p"):
                if m == "m":
                    self.havoc_arg(a, c.sqn)
                elif m == "p" and isinstance(a, Ptr) and a.t is not None:
                    self.havoc_arg(a.t, c.sqn)
        if isinstance(this, Ent) and not c.const and not c.static and not isinstance(this, Opq):
            self.havoc(this, "unmodelled " + c.sqn)
        if isinstance(this, (It, Ptr)) and not c.const and not c.static:
            raise Abort("unmodelled " + c.sqn)
        if any(isinstance(a, (It, Lam)) or isinstance(a, LRef) and isinstance(self.rd(a), (It, Lam)) for a in args):
            raise Abort("unmodelled " + c.sqn)
        return self.top("ext " + c.sqn)

    def havoc_arg(self, a, why):
        if isinstance(a, LRef):
            v = self.rd(a)
            if isinstance(v, Ent):
                self.havoc(v, why)
            else:
                self.write(a.e, a.k, self.top(why))
        elif isinstance(a, Ent):
            self.havoc(a, why)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        """evaluate to LRef (scalar lvalue) or value/entity"""
        if e is None:
            return None
        l = e.get("l")
        if l:
            self.line = l
        return getattr(self, "e_" + e["k"], self.e_other)(e)

    def val(self, e):
        return self.rd(self.ev(e))

    def e_val(self, e):
        return e["v"]

    def e_int(self, e):
        return e["v"]

    def e_flt(self, e):
        return float(e["v"])

    def e_bool(self, e):
        return bool(e["v"])

    def e_str(self, e):
        return e["v"]

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        f = self.frames[-1]
        return Ptr(f.this)

    def e_enum(self, e):
        return e["v"]

    def e_fref(self, e):
        return FnRef(self.callee(e))

    def e_mfref(self, e):
        return FnRef(self.callee(e), self.val(e["b"]))

    def e_var(self, e):
        if e["dk"] == "global":
            if "cv" in e:
                return e["cv"]
            return self.global_var(e)
        k = e["id"]
        f = self.frames[-1]
        while f is not None:
            if k in f.d:
                v = f.d[k]
                if isinstance(v, (LRef, Ent, Lam)):
                    return v
                return LRef(f, k)
            f = f.cap
        if k in self.statics:
            return LRef(self._statent, k)
        if "cv" in e:
            return e["cv"]
        raise Abort("variable %s" % e["n"])

    def global_var(self, e):
        n = e["n"]
        if n in self.statics_map():
            return self.statics_map()[n]
        if n in ("std::cout", "std::cerr", "std::clog"):
            return Opq("stream", n, self.guard)
        if n.startswith("M_PI"):
            return 3.141592653589793
        if n == "iDynTree::DEFAULT_TOL" or (n == "DEFAULT_TOL" and "double" in str(e.get("t"))):
            return 1e-10
        if n.startswith("iDynTree::") and n.endswith("_INVALID_INDEX"):
            return -1
        v = self.default(e.get("t"), e.get("t"), "global:" + n)
        if not isinstance(v, Ent):
            h = Obj("#global", ROOT)
            h.d["v"] = v
            v = LRef(h, "v")
        self.statics_map()[n] = v
        return v

    def statics_map(self):
        return self.globals

    def deref(self, p, f):
        """apply f to what p points to"""
        p = self.rd(p)
        if isinstance(p, Ch):
            p = self.reduce(p)
        if isinstance(p, Ch):
            a = self.under(p.c, lambda: self.deref_try(p.a, f))
            b = self.under(T.lnot(p.c), lambda: self.deref_try(p.b, f))
            if a is DEAD:
                return b
            if b is DEAD:
                return a
            return self.merge(p.c, a, b)
        return self.deref1(p, f)

    def deref_try(self, p, f):
        try:
            return self.deref_alt(p, f)
        except Abort:
            if self.infeasible():
                return DEAD
            raise

    def infeasible(self):
        """the guard of the current point contradicts itself (three-valued evaluation under its own literals)"""
        c = self.path()
        if c is False:
            return True
        return T.isn(c) and T.kleene(c, {k: v for k, v in T.literals(c).items() if k.op not in ("and", "not", "bite", "beq")}) is False

    def deref_alt(self, p, f):
        if isinstance(p, Ptr) and p.t is None:
            self.event("nullderef", what="a possibly null pointer is dereferenced")
            return DEAD
        if p is MISSING:
            return DEAD
        if isinstance(p, Ch):
            return self.deref(p, f)
        return self.deref1(p, f)

    def deref1(self, p, f):
        if isinstance(p, Ptr):
            if p.t is None:
                self.wild("nullderef", "a null pointer is dereferenced", "null dereference")
            t = p.t
            return f(t)
        if isinstance(p, It):
            return f(self.mod.it_get(self, p))
        if isinstance(p, Ent):
            return f(p)
        if T.isn(p):
            raise Abort("dereference of unknown value")
        raise Abort("dereference of %r" % (p,))

    def e_mem(self, e):
        n = e["n"]
        if e.get("static"):
            if "cv" in e:
                return e["cv"]
            return self.global_var({"n": e["q"], "t": e.get("t")})
        b = self.ev(e["b"])

        def get(o):
            return self.field(o, n, e)
        if e.get("arrow"):
            return self.deref(b, get)
        b = b if isinstance(b, Ent) else self.rd(b)
        if isinstance(b, (Ch, It)):
            return self.deref(b, get)
        return get(b)

    def field(self, o, n, e):
        o = self.rd(o)
        if isinstance(o, Ch):
            return self.deref(o, lambda x: self.field(x, n, e))
        if not isinstance(o, (Obj, Opq)):
            if isinstance(o, It):
                return self.field(self.mod.it_get(self, o), n, e)
            raise Abort("field %s of %r" % (n, o))
        v = o.d.get(n, MISSING)
        if v is MISSING:
            if n in ("offset", "size") or isinstance(o, Obj):
                v = self.default(e.get("t"), e.get("t"), "%s.%s" % (getattr(o, "cls", "?").split("::")[-1], n))
                o.d[n] = v
                if isinstance(v, Ent):
                    v.fresh = False
            else:
                raise Abort("field %s of %r" % (n, o))
        if self.onread is not None:
            self.onread(o, n)
        if isinstance(v, (Ent, LRef)) and not isinstance(v, Opq):
            return v
        return LRef(o, n)

    def e_op(self, e):
        op = e["op"]
        if "f" not in e:
            a0 = self.val(e["a"][0])
            return self.call_lam(a0, [self.ev(x) for x in e["a"][1:]])
        c = self.callee(e)
        if op == "->":
            return self.rd(self.ev(e["a"][0]))
        if op == "()" and e["a"]:
            a0 = self.ev(e["a"][0])
            r0 = self.rd(a0)
            if isinstance(r0, (Lam, FnRef)):
                return self.call_lam(r0, [self.ev(x) for x in e["a"][1:]], e["f"])
        if op in ("&&", "||"):
            pass
        if c.cls is not None and not c.static:
            this = self.ev(e["a"][0])
            args = self.args(e, c, 1)
            return self.invoke_on(c, this, args, e)
        args = self.args(e, c)
        return self.invoke(c, None, args, e)

    def invoke_on(self, c, this, args, e, qual=False):
        t = this
        if isinstance(t, LRef):
            v = self.rd(t)
            if isinstance(v, (Ent,)):
                t = v
            elif isinstance(v, Ch) and not self.mod.wants_lref(c):
                return self.deref(v, lambda x: self.invoke_on(c, x, args, e, qual))
        elif isinstance(t, Ch):
            return self.deref(t, lambda x: self.invoke_on(c, x, args, e, qual))
        return self.invoke(c, t, args, e, qual)

    def e_mcall(self, e):
        if "f" not in e:
            raise Abort("call through member pointer")
        c = self.callee(e)
        o = self.ev(e["o"])
        if c.static:
            return self.invoke(c, None, self.args(e, c), e)
        ov = self.rd(o)
        # the implicit object of an arrow call is a pointer
        if isinstance(ov, Ptr) and not self.mod.is_smartptr_method(c):
            args = self.args(e, c)
            return self.deref(ov, lambda x: self.invoke_on(c, x, args, e, e.get("qual")))
        if isinstance(ov, Ch) and not self.mod.is_smartptr_method(c):
            args = self.args(e, c)
            return self.deref(ov, lambda x: self.invoke_on(c, x, args, e, e.get("qual")))
        args = self.args(e, c)
        if isinstance(ov, It) and "iterator" not in (c.cls or ""):
            o = self.mod.it_get(self, ov)
        return self.invoke_on(c, o, args, e, e.get("qual"))

    def e_call(self, e):
        if "f" not in e:
            f = self.val(e["callee"])
            return self.call_lam(f, [self.ev(x) for x in e["a"]])
        c = self.callee(e)
        if c.sqn in ("std::move", "std::forward"):
            return self.ev(e["a"][0])
        args = self.args(e, c)
        return self.invoke(c, None, args, e)

    def e_ctor(self, e):
        c = self.callee(e)
        cls = clean_type(e.get("lt") or e.get("t", ""))
        h = self.hooks.get(c.sqn)
        if h is not None:
            r = h(self, None, self.args(e, c), e, c)
            if r is not NotImplemented:
                return r
        if c.ctor in ("copy", "move"):
            fn = self.P.funcs.get(c.usr)
            if fn is None or fn.body is None or fn.defaulted:
                v = self.rd(self.ev(e["a"][0]))
                if isinstance(v, Ent):
                    v = self.copy(v) if not (v.fresh and c.ctor == "move") else v
                return self.coerce(v, cls) if isinstance(v, M) else v
        fn = self.P.funcs.get(c.usr)
        if fn is not None and fn.body is not None and not fn.defaulted:
            return self.construct(fn, fn.cls, self.args(e, c))
        m = self.mod.CTORS.get(strip_targs(cls)) or self.mod.CTORS.get(strip_targs(c.cls or ""))
        if m is not None:
            r = m(self, e, c, cls)
            if r is not NotImplemented:
                return r
        if not e["a"]:
            return self.default(cls, cls, "tmp")
        if fn is not None or (self.P.record(cls) is not None):
            # inherited or defaulted constructor of a repo class
            o = self.construct_default(self.P.record(cls)["qn"])
            return o
        if c.sqn.startswith("Eigen::") or c.sqn.startswith("iDynTree::"):
            args = [self.rd(x) for x in self.args(e, c)]
            if len(args) == 1 and isinstance(args[0], M):
                return self.coerce(self.copy_arr(args[0]), cls)
        self.unmodelled[c.sqn] = self.unmodelled.get(c.sqn, 0) + 1
        for x in e["a"]:
            self.ev(x)
        return Opq(cls, None, self.guard)

    def copy_arr(self, m):
        n = self.mnew(self.m_arr(m), "fix", m.vec)
        n.quat = m.quat
        return n

    def e_new(self, e):
        v = self.rd(self.ev(e["e"])) if e.get("e") else self.default(e.get("t", "").rstrip("*"), None, "new")
        return Ptr(v)

    def e_del(self, e):
        self.ev(e["e"])

    def e_throw(self, e):
        raise Abort("throw")

    def e_un(self, e):
        op = e["op"]
        if op == "*":
            return self.deref(self.ev(e["e"]), lambda x: x)
        if op == "&":
            x = self.ev(e["e"])
            return x if isinstance(x, FnRef) else Ptr(x)
        x = self.ev(e["e"])
        if op in ("++", "--"):
            v = self.rd(x)
            if isinstance(v, It):
                n = self.mod.it_step(self, v, 1 if op == "++" else -1)
            else:
                n = wrap(T.add(v, 1 if op == "++" else -1), e.get("t"))
            self.assign(x, n)
            return v if e.get("post") else x
        v = self.rd(x)
        if op == "!":
            return self.reduce(T.lnot(self.cond_value(v)))
        if op == "-":
            if isinstance(v, M):
                return self.mod.m_neg(self, v)
            return T.neg(v)
        if op == "+":
            return v
        if op == "~":
            return ~v if isinstance(v, int) else self.top("~")
        return self.top("unary " + op)

    def cond_value(self, v):
        v = self.rd(v)
        if isinstance(v, Ptr):
            return v.t is not None
        if isinstance(v, Ch):
            v = self.reduce(v)
            if isinstance(v, Ch):
                a, b = self.cond_value(v.a) if v.a is not MISSING else False, self.cond_value(v.b) if v.b is not MISSING else False
                return T.ite(v.c, a, b)
        if isinstance(v, (Lam, FnRef, Opq, Ent)):
            return True
        if isinstance(v, str):
            return True
        if v is None:
            return self.top("void condition")
        return T.tobool(v)

    def e_casg(self, e):
        lhs = self.ev(e["a"])
        b = self.val(e["b"])
        a = self.rd(lhs)
        v = wrap(self.arith(e["op"], a, b, e.get("t")), e.get("t"))
        self.assign(lhs, v)
        return lhs

    def e_asg(self, e):
        b = self.val(e["b"])
        lhs = self.ev(e["a"])
        if isinstance(b, Ent):
            b = self.own(b)
        b = self.coerce(b, e.get("t"))
        self.assign(lhs, b)
        return lhs

    def arith(self, op, a, b, t):
        if isinstance(a, It) and scalar(b):
            return self.mod.it_step(self, a, b if op == "+" else -b)
        if isinstance(a, Ptr) and isinstance(a.t, LRef) and isinstance(b, int) and op in "+-":
            return Ptr(LRef(a.t.e, a.t.k + (b if op == "+" else -b)))
        if not scalar(a) or not scalar(b):
            if isinstance(a, Ch) or isinstance(b, Ch):
                a, b = self.reduce(a), self.reduce(b)
            if not scalar(a) or not scalar(b):
                raise Abort("arithmetic on %r %s %r" % (a, op, b))
        if op == "+":
            return T.add(a, b)
        if op == "-":
            return T.sub(a, b)
        if op == "*":
            return T.mul(a, b)
        if op == "/":
            if clean_type(t or "") in INTT:
                return T.idiv(a, b)
            if T.num(b) and b == 0:
                self.event("div0", what="division by zero")
            r = T.div(a, b)
            if isinstance(r, int) and not isinstance(r, bool):
                r = float(r)
            if T.isn(b):
                self.event("div", den=b)
            return r
        if op == "%":
            return T.imod(a, b)
        if op == "&" and T.isbool(a) and T.isbool(b):
            return T.land(a, b)
        if op == "|" and T.isbool(a) and T.isbool(b):
            return T.lor(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << max(b, 0), ">>": a >> max(b, 0)}.get(op, self.top(op))
        return self.top("operator " + op)

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                r = a.t is b.t or (isinstance(a.t, LRef) and isinstance(b.t, LRef) and a.t.e is b.t.e and a.t.k == b.t.k)
                return r if op == "==" else not r
            x, y = (a, b) if isinstance(b, Ptr) else (b, a)
            if isinstance(y, Ptr) and y.t is None and not isinstance(x, Ch):
                r = isinstance(x, Ptr) and x.t is None
                return r if op == "==" else not r
        if isinstance(a, Ch) or isinstance(b, Ch):
            if isinstance(a, Ch):
                return T.ite(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
            return T.ite(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        if isinstance(a, It) and isinstance(b, It):
            if op not in ("==", "!="):
                if isinstance(a.cont, MapV):
                    raise Abort("order of map iterators")
                x, y = (a.pos, b.pos) if not a.rev else (b.pos, a.pos)
                return {"<": T.lt(x, y), ">": T.lt(y, x), "<=": T.le(x, y), ">=": T.le(y, x)}[op]
            r = self.mod.it_eq(self, a, b)
            return r if op == "==" else T.lnot(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"==": a == b, "!=": a != b, "<": a < b}.get(op, self.top(op))
        if a is MISSING or b is MISSING:
            return False
        if isinstance(a, str) or isinstance(b, str):
            r = T.eq(a, b) if T.isn(a) or T.isn(b) else False
            return r if op == "==" else T.lnot(r)
        if not scalar(a) or not scalar(b):
            raise Abort("comparison of %r and %r" % (a, b))
        if "stratum" in self.opt and op in ("<", ">", "<=", ">=", "==", "!="):
            # the analysis looks at one stratum of the inputs: conditions constant on its samples are decided
            r = T.tobool({"==": T.eq, "!=": lambda x, y: T.lnot(T.eq(x, y)), "<": T.lt, ">": lambda x, y: T.lt(y, x), "<=": T.le,
                          ">=": lambda x, y: T.le(y, x)}[op](a, b))
            if T.isn(r) and not T.has_top(r):
                k = self.opt["stratum"](r).astype(bool)
                return True if k.all() else False if not k.any() else r
            return r
        if "box" in self.opt:
            # the analysis looks at one box of input values: what intervals decide there is decided
            r = T.tobool({"==": T.eq, "!=": lambda x, y: T.lnot(T.eq(x, y)), "<": T.lt, ">": lambda x, y: T.lt(y, x), "<=": T.le,
                          ">=": lambda x, y: T.le(y, x)}[op](a, b))
            if T.isn(r):
                k = T.interval(r, self.opt["box"])
                return k if isinstance(k, bool) else r
            return r
        if op == "==":
            return T.eq(a, b)
        if op == "!=":
            return T.lnot(T.eq(a, b))
        if op == "<":
            return T.lt(a, b)
        if op == ">":
            return T.lt(b, a)
        if op == "<=":
            return T.le(a, b)
        if op == ">=":
            return T.le(b, a)
        return self.top(op)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.reduce(self.cond_value(self.ev(e["a"])))
            if isinstance(a, bool):
                if a == (op == "||"):
                    return a
                return self.reduce(self.cond_value(self.ev(e["b"])))
            p = self.push(a if op == "&&" else T.lnot(a))
            try:
                b = self.cond_value(self.ev(e["b"]))
            finally:
                self.pop(p)
            return T.land(a, b) if op == "&&" else T.lor(a, b)
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        a = self.val(e["a"])
        b = self.val(e["b"])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.reduce(self.compare(op, a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
            return self.top("pointer difference")
        return self.reduce(wrap(self.arith(op, a, b, e.get("t")), e.get("t")))

    def e_cond(self, e):
        c = self.reduce(self.cond_value(self.ev(e["c"])))
        if isinstance(c, bool):
            return self.ev(e["a"] if c else e["b"])
        p = self.push(c)
        try:
            a = self.ev(e["a"])
            a = self.rd(a) if isinstance(a, LRef) else a
        finally:
            self.pop(p)
        p = self.push(T.lnot(c))
        try:
            b = self.ev(e["b"])
            b = self.rd(b) if isinstance(b, LRef) else b
        finally:
            self.pop(p)
        return self.merge_ret(c, a, b)

    def e_sub(self, e):
        a = self.val(e["a"])
        i = self.val(e["i"])
        if isinstance(a, Ptr) and isinstance(a.t, LRef) and isinstance(i, int):
            return LRef(a.t.e, a.t.k + i)
        if isinstance(a, Lst) and isinstance(i, int):
            return self.mod.lst_at(self, a, i)
        raise Abort("subscript")

    def e_tobool(self, e):
        return self.reduce(self.cond_value(self.ev(e["e"])))

    def e_cast(self, e):
        t = clean_type(e.get("t", ""))
        x = self.ev(e["e"])
        if t == "void":
            return None
        if e.get("ck") in ("NoOp", "LValueBitCast", "DerivedToBase", "BaseToDerived", "Dynamic", "UncheckedDerivedToBase") and not (t in INTT | FLT):
            return x
        v = self.rd(x)
        if t in INTT and T.isn(v) and not T.isbool(v) and e.get("ck") == "FloatingToIntegral":
            return T.f1("trunc", v)
        if t in INTT or t in FLT or t == "bool":
            v = self.coerce(v, t)
            if e.get("ck") == "IntegralCast" and isinstance(v, int) and not isinstance(v, bool):
                v = wrap(v, t)
                if t == "int" and v >> 31 not in (0, -1):
                    v = (v + (1 << 31)) % (1 << 32) - (1 << 31)
                elif t == "long" and v >> 63 not in (0, -1):
                    v = (v + (1 << 63)) % (1 << 64) - (1 << 63)
            return v
        if t == "double" and isinstance(v, M):
            return self.m_arr(v).flat[0]
        return v

    def e_lambda(self, e):
        f = self.frames[-1]
        vals = {}
        for c in e["caps"]:
            if c.get("by") == "val":
                x = self.e_var({"k": "var", "n": c["n"], "id": c["id"], "dk": "local"})
                vals[c["id"]] = self.copy(self.rd(x))
        return Lam(e, f, vals)

    def e_plist(self, e):
        """parenthesised initialiser of a member of dependent type"""
        if len(e["a"]) == 1:
            return self.ev(e["a"][0])
        raise Abort("initialiser list of a template")

    def e_ilist(self, e):
        t = clean_type(e.get("lt") or e.get("t", ""))
        vals = [self.ev(x) for x in e["a"]]
        s = strip_targs(t)
        if s in ("std::initializer_list",) or s.endswith("]"):
            vals = [self.own(self.rd(v)) for v in vals]
            k = t[t.rfind("[") + 1:-1] if t.endswith("]") else ""
            if k.isdigit() and len(vals) < int(k) <= 4096:
                et = clean_type(t[:t.rfind("[")])
                vals += [self.default(et, et, "init", True) for _ in range(int(k) - len(vals))]
            return self.mod.lst_from(self, vals)
        if t in INTT or t in FLT or t == "bool":
            return self.coerce(self.rd(vals[0]), t) if vals else self.default(t, t, "init", True)
        if not vals:
            return self.default(t, t, "init", True)
        r = self.P.record(t)
        if r is not None:
            o = self.construct_default(r["qn"])
            for f, v in zip(r["fields"], vals):
                self.write(o, f["n"], self.own(self.rd(v)), init=True)
            return o
        if s in ("iDynTree::IndexRange",):
            o = self.default(t, t)
            for n, v in zip(("offset", "size"), vals):
                o.d[n] = self.rd(v)
            return o
        if len(vals) == 1:
            return vals[0]
        return self.mod.lst_from(self, [self.own(self.rd(v)) for v in vals])

    def e_vinit(self, e):
        return self.default(e.get("t"), e.get("lt") or e.get("t"), "vinit", True)

    def e_other(self, e):
        if e.get("c") == "CXXRewrittenBinaryOperator" and e.get("ch"):
            return self.ev(e["ch"][0])
        if e.get("c") in ("PredefinedExpr",):
            return "?"
        raise Abort("expression " + str(e.get("c") or e.get("k")))

    # ------------------------------------------------------------ statements
    # exec returns (ret, brk, cont): conditions, relative to entry, of leaving early
    def exec(self, s):
        if s is None:
            return NOEXIT
        self.nstat += 1
        l = s.get("l")
        if l:
            self.line = l
        return getattr(self, "s_" + s["k"], self.s_other)(s)

    def s_other(self, s):
        raise Abort("statement " + str(s.get("c") or s.get("k")))

    def s_nop(self, s):
        return NOEXIT

    def s_ex(self, s):
        self.ev(s["e"])
        return NOEXIT

    def s_blk(self, s):
        return self.seq(s["s"])

    def seq(self, ss):
        tot = NOEXIT
        prevs = []
        try:
            for x in ss:
                r = self.exec(x)
                if r is NOEXIT:
                    continue
                tot = tuple(T.lor(a, T.land(T.lnot(T.lor(T.lor(*tot[:2]), tot[2])), b)) for a, b in zip(tot, r)) if tot is not NOEXIT else r
                any_ = T.lor(T.lor(r[0], r[1]), r[2])
                any_ = self.reduce(any_)
                if any_ is True:
                    return self.norm(tot)
                if any_ is not False:
                    prevs.append(self.push(T.lnot(any_)))
        finally:
            for p in reversed(prevs):
                self.pop(p)
        return tot

    def norm(self, t):
        return t

    def s_decl(self, s):
        for v in s["d"]:
            self.vardecl(v)
        return NOEXIT

    def vardecl(self, v):
        f = self.frames[-1]
        if v.get("static"):
            key = ("static", f.fn.usr if f.fn else "?", v["id"])
            if key not in self.globals:
                h = Obj("#static", ROOT)
                h.d["v"] = self.decl_value(v)
                self.globals[key] = h
            h = self.globals[key]
            x = h.d["v"]
            f.d[v["id"]] = x if isinstance(x, (Ent,)) else LRef(h, "v")
            return
        val = self.decl_value(v)
        if val is None:
            val = self.top("void")
        self.write(f, v["id"], val, init=True)
        for b in v.get("bs", ()):
            self.vardecl(b)

    def decl_value(self, v):
        e = v.get("e")
        if v.get("m") in ("c", "m", "r"):
            x = self.ev(e)
            return x
        if e is None:
            return self.default(v["t"], v["lt"], v["n"])
        x = self.rd(self.ev(e))
        if isinstance(x, Ent):
            if not x.fresh:
                x = self.copy(x)
            x = self.coerce(x, v["t"], v["lt"])
            return x
        if isinstance(x, Ch):
            return x
        return self.coerce(x, v["t"], v["lt"])

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("cv"):
            self.vardecl(s["cv"])
        c = self.reduce(self.cond_value(self.ev(s["c"])))
        if isinstance(c, bool):
            return self.exec(s["a"] if c else s["b"])
        p = self.push(c)
        try:
            ra = self.exec(s["a"])
        finally:
            self.pop(p)
        rb = NOEXIT
        if s["b"] is not None:
            p = self.push(T.lnot(c))
            try:
                rb = self.exec(s["b"])
            finally:
                self.pop(p)
        if ra is NOEXIT and rb is NOEXIT:
            return NOEXIT
        return tuple(T.ite(c, x, y) for x, y in zip(ra, rb))

    def s_ret(self, s):
        f = self.frames[-1]
        v = None
        if s["e"] is not None:
            v = self.ev(s["e"])
            if f.rm == "v" or f.fn is None:
                v = self.rd(v)
                if isinstance(v, Ent):
                    v = self.own(v)
                if f.fn is not None and f.name != "lambda":
                    v = self.coerce(v, f.fn.ret) if f.rm == "v" else v
        f.rets.append((self.rel(f.entry), v))
        return (True, False, False)

    def s_break(self, s):
        return (False, True, False)

    def s_continue(self, s):
        return (False, False, True)

    LIMIT = 400

    def loop(self, cond, body, inc):
        """generic loop; cond() -> bool term"""
        prevs = []
        ret = False
        entered = True      # condition on which iterations with an undecided condition began
        steps = 0
        try:
            n = 0
            while True:
                c = self.reduce(self.cond_value(cond())) if cond else True
                if c is False:
                    break
                if c is not True:
                    steps += 1
                    if steps > self.opt.get("unroll", 16) or T.has_top(c):
                        return self.abstract_loop(c, body, inc, cond, ret)
                    entered = T.land(entered, c)
                    prevs.append(self.push(c))
                r = self.exec(body)
                n += 1
                if n > self.LIMIT:
                    raise (Endless if self.path() is True else Abort)("loop does not end within the layout")
                if r is not NOEXIT:
                    leave = T.lor(r[0], r[1])
                    # exits are relative to the start of this iteration
                    if r[0] is not False:
                        r0 = T.land(entered, r[0])
                        ret = T.lor(ret, T.land(T.lnot(ret), r0)) if ret is not False else r0
                    leave = self.reduce(leave)
                    if leave is True:
                        break
                    if leave is not False:
                        prevs.append(self.push(T.lnot(leave)))
                if inc:
                    inc()
        finally:
            for p in reversed(prevs):
                self.pop(p)
        return NOEXIT if ret is False else (ret, False, False)

    def abstract_loop(self, c, body, inc, cond, ret):
        """unknown bound: everything the body may write becomes unknown"""
        self.event("absloop", what="loop with unknown bound")
        for phase in (0, 1):
            log = self.wlog
            self.wlog = []
            p = self.push(c)
            try:
                r = self.exec(body)
                if inc:
                    inc()
            finally:
                self.pop(p)
                w = self.wlog
                self.wlog = log
            seen = set()
            for e, k in w:
                if (id(e), k) in seen:
                    continue
                seen.add((id(e), k))
                old = e.d.get(k, MISSING)
                if scalar(old) or isinstance(old, (str, Ch)):
                    e.d[k] = T.top(self.uniq("loop"))
                    if log is not None:
                        log.append((e, k))
            if phase == 0:
                c = self.cond_value(cond()) if cond else True
                c = T.batom(self.uniq("loopcond"))
        if r is not NOEXIT:
            rc = T.batom(self.uniq("loopret"))
            if r[0] is not False:
                return (rc, False, False)
        return NOEXIT if ret is False else (ret, False, False)

    def s_for(self, s):
        if s.get("init"):
            self.exec(s["init"])
        return self.loop((lambda: self.ev(s["c"])) if s.get("c") else None, s["body"], (lambda: self.ev(s["inc"])) if s.get("inc") else None)

    def s_while(self, s):
        return self.loop(lambda: self.ev(s["c"]), s["body"], None)

    def s_do(self, s):
        first = [True]

        def cond():
            if first[0]:
                first[0] = False
                return True
            return self.ev(s["c"])
        return self.loop(cond, s["body"], None)

    def s_rfor(self, s):
        r = self.ev(s["r"])
        cont = self.rd(r)
        if isinstance(cont, Ch):
            raise Abort("range-for over a choice")
        v = s["v"]
        f = self.frames[-1]
        items = self.mod.iterate(self, cont)
        if items is None:
            el = self.top("element")
            c = T.batom(self.uniq("loopcond"))
            self.write(f, v["id"], el, init=True)
            return self.abstract_loop(c, s["body"], None, None, False)
        i = [0]

        def cond():
            if i[0] >= len(items):
                return False
            x = items[i[0]]
            i[0] += 1
            if v.get("m") == "v":
                x = self.copy(self.rd(x))
            self.write(f, v["id"], x, init=True)
            for b in v.get("bs", ()):
                self.vardecl(b)
            return True
        return self.loop(cond, s["body"], None)

    def s_switch(self, s):
        c = self.val(s["c"])
        # flatten into labelled groups
        body = s["body"]["s"] if s["body"] and s["body"]["k"] == "blk" else [s["body"]]
        items = []  # (labels or None, stmt)
        for st in body:
            labels = []
            while st is not None and st["k"] in ("case", "default"):
                labels.append(None if st["k"] == "default" else self.val(st["v"]))
                st = st["s"]
            items.append((labels, st))
        allv = [x for ls, _ in items for x in ls if x is not None]
        default = T.lnot(self.any_eq(c, allv))
        live = False
        done = False
        rets = False
        prevs = []
        ret = False
        for labels, st in items:
            for x in labels:
                cc = default if x is None else self.reduce(self.compare("==", c, x))
                live = T.lor(live, cc)
            run = self.reduce(T.land(live, T.lnot(done)))
            if run is False:
                continue
            if run is True:
                r = self.exec(st)
            else:
                p = self.push(run)
                try:
                    r = self.exec(st)
                finally:
                    self.pop(p)
            if r is not NOEXIT:
                done = T.lor(done, T.land(run, T.lor(r[0], r[1])))
                ret = T.lor(ret, T.land(run, r[0]))
        return NOEXIT if ret is False else (ret, False, False)

    def any_eq(self, c, vals):
        r = False
        for v in vals:
            r = T.lor(r, self.reduce(self.compare("==", c, v)))
        return r

    def s_try(self, s):
        return self.exec(s["body"])


class SymRef(LRef):
    """element at an unknown index"""

    def __init__(self, m):
        super().__init__(m, None)


class _Dead:
    pass


DEAD = _Dead()
NOEXIT = (False, False, False)
