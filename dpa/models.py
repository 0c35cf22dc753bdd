"""Axiomatic models of what the repository uses from outside: the C++ library, Eigen,
iDynTree containers, geometry, and the optimal-control interfaces."""
import numpy as np

from . import terms as T
from .interp import (Abort, INTT, eig_dims, Ch, DEAD, FnRef, It, LE, LRef, LVar, Lam, Lst, M, MISSING, MapV, NULL, Obj, Opq, Ptr, Sp, SymRef, Ent, scalar)
from .program import clean_type, strip_targs, targs

MODELS = {}
CTORS = {}
BASES = {}
OPAQUE = {}
OBJCLS = {}     # class -> handler of member calls on an Obj of that class
DEFAULTS = {}   # class -> default value


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            CTORS[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def lst_from(I, vals, et=""):
    l = Lst(et, I.guard)
    for i, v in enumerate(vals):
        l.d[i] = v
        if isinstance(v, Ent):
            v.fresh = False
    l.d["#n"] = len(vals)
    return l


def lst_len(I, l):
    n = I.read(l, "#n")
    return n


def lst_at(I, l, i):
    n = lst_len(I, l)
    if isinstance(n, int) and isinstance(i, int):
        if i < 0 or i >= n:
            I.wild("oob", "element %d of a vector of %d" % (i, n), "vector index out of range")
    if not isinstance(i, int):
        if isinstance(i, T.N) and isinstance(n, int) and n > 0 and "sym" in l.d:
            pass
        k = l.d.get("#any", MISSING)
        if k is not MISSING:
            return k if isinstance(k, Ent) else LRef(l, "#any")
        # unknown element: a gate over all of them
        if isinstance(n, int) and 0 < n <= 16:
            v = None
            for j in reversed(range(n)):
                x = I.rd(LRef(l, j))
                v = x if v is None else I.merge(T.eq(i, j), x, v)
            return v
        I.event("symidx", what="unknown index")
        raise Abort("unknown vector index")
    v = l.d.get(i, MISSING)
    if v is MISSING:
        v = I.default(l.et, l.et, "elem", True)
        l.d[i] = v
    if isinstance(v, (M, Obj, Lst, MapV, Sp)):
        return v
    return LRef(l, i)


def iterate(I, cont):
    if isinstance(cont, Lst):
        n = lst_len(I, cont)
        if not isinstance(n, int):
            return None
        return [lst_at(I, cont, i) for i in range(n)]
    if isinstance(cont, MapV):
        out = []
        for k, v in list(cont.d.items()):
            if v is MISSING:
                continue
            if not cont.vt:
                out.append(k)
            else:
                out.append(pair_of(I, cont, k))
        return out
    if isinstance(cont, M):
        r, c = I.shape(cont)
        return [I.m_ref(cont, i) for i in range(r * c)]
    return None


def pair_of(I, cont, k):
    o = Obj("std::pair", I.guard)
    o.d["first"] = k
    v = cont.d[k]
    o.d["second"] = v if isinstance(v, Ent) else LRef(cont, k)
    return o


def it_get(I, it):
    c, p = it.cont, it.pos
    if isinstance(c, Lst):
        if it.rev:
            p = p - 1
        return lst_at(I, c, p)
    if isinstance(c, MapV):
        if p is None:
            I.wild("oob", "dereference of end()", "end dereferenced")
        if not c.vt:
            return p
        return pair_of(I, c, p)
    if isinstance(c, M):
        return I.m_ref(c, p)
    raise Abort("iterator")


def it_step(I, it, n):
    c, p = it.cont, it.pos
    if isinstance(c, (Lst, M)):
        return It(c, T.add(p, -n if it.rev else n), it.rev)
    if isinstance(c, MapV):
        keys = [k for k, v in c.d.items() if v is not MISSING]
        if p not in keys:
            raise Abort("iterator")
        i = keys.index(p) + n
        return It(c, keys[i] if 0 <= i < len(keys) else None)
    raise Abort("iterator step")


def it_eq(I, a, b):
    if isinstance(a.cont, MapV):
        return a.pos == b.pos
    return T.eq(a.pos, b.pos)


SMART = ("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr", "std::__weak_ptr")


def is_smartptr_method(c):
    return c.sqn.rsplit("::", 1)[0] in SMART


def wants_lref(c):
    return c.sqn.rsplit("::", 1)[0] in SMART or c.n == "operator=" or c.sqn.startswith("std::function")


# ------------------------------------------------------------------ rotations
def rot_identity(I):
    m = I.mnew(np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], dtype=object), "fix", False)
    m.quat = (1.0, 0.0, 0.0, 0.0)
    return m


def skew3(v):
    a = np.empty((3, 3), dtype=object)
    z = 0.0
    x, y, w = v
    a[0] = [z, T.neg(w), y]
    a[1] = [w, z, T.neg(x)]
    a[2] = [T.neg(y), x, z]
    return a


def amul(a, b):
    n = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = 0.0
            for k in range(a.shape[1]):
                x = a[i, k]
                if x.__class__ is float and x == 0.0:
                    continue
                y = b[k, j]
                if y.__class__ is float and y == 0.0:
                    continue
                s = T.add(s, T.mul(x, y))
            n[i, j] = s
    return n


def aew(f, *aa):
    n = np.empty(aa[0].shape, dtype=object)
    for i in np.ndindex(*n.shape):
        n[i] = f(*[a[i] for a in aa])
    return n


def aadd(a, b):
    return aew(T.add, a, b)


def asub(a, b):
    return aew(T.sub, a, b)


def ascale(a, s):
    return aew(lambda x: T.mul(x, s), a)


def eye(n):
    a = np.empty((n, n), dtype=object)
    for i in np.ndindex(n, n):
        a[i] = 1.0 if i[0] == i[1] else 0.0
    return a


def azero(r, c):
    a = np.empty((r, c), dtype=object)
    a.fill(0.0)
    return a


def qrot(q):
    """I + 2 w skew(v) + 2 skew(v)^2"""
    w, v = q[0], q[1:]
    s = skew3(v)
    return aadd(eye(3), aadd(ascale(s, T.mul(2.0, w)), ascale(amul(s, s), 2.0)))


def rot_from_quat(I, q):
    m = I.mnew(qrot(q), "fix", False)
    m.quat = tuple(q)
    return m


def qmul(a, b):
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    m, p, s = T.mul, T.add, T.sub
    return (s(s(s(m(w1, w2), m(x1, x2)), m(y1, y2)), m(z1, z2)),
            s(p(p(m(w1, x2), m(x1, w2)), m(y1, z2)), m(z1, y2)),
            p(p(s(m(w1, y2), m(x1, z2)), m(y1, w2)), m(z1, x2)),
            p(s(p(m(w1, z2), m(x1, y2)), m(y1, x2)), m(z1, w2)))


def rot_mul(I, a, b):
    n = I.mnew(amul(I.m_arr(a), I.m_arr(b)), "fix", False)
    if a.quat is not None and b.quat is not None:
        n.quat = qmul(a.quat, b.quat)
    return n


def rot_inv(I, a):
    n = I.mnew(I.m_arr(a).T.copy(), "fix", False)
    if a.quat is not None:
        n.quat = (a.quat[0],) + tuple(T.neg(x) for x in a.quat[1:])
    return n


def as_quat(I, m):
    if m.quat is not None:
        return list(m.quat)
    a = I.m_arr(m)
    return [T.fn("asQuaternion%d" % i, *a.flat) for i in range(4)]


def vec(I, vals, kind="fix"):
    a = np.empty((len(vals), 1), dtype=object)
    for i, v in enumerate(vals):
        a[i, 0] = v
    return I.mnew(a, kind, True)


def transform(I, p, R):
    o = Obj("iDynTree::Transform", I.guard)
    o.d["p"] = p
    o.d["R"] = R
    p.fresh = False
    R.fresh = False
    return o


def timerange(I, a, b):
    o = Obj("iDynTree::optimalcontrol::TimeRange", I.guard)
    o.d = {"init": a, "end": b}
    return o


# ------------------------------------------------------------------ class-based dispatch
def by_class(I, this, c):
    t = I.rd(this)
    s = c.sqn
    cls = s.rsplit("::", 1)[0] if "::" in s else ""
    if cls.startswith("levi"):
        return MODELS.get("levi." + c.n) or MODELS.get("levi::ExpressionComponent::" + c.n)
    if isinstance(t, (Lst,)) and cls.startswith("std::"):
        return VEC.get(c.n)
    if isinstance(t, MapV):
        return MAPS.get(c.n)
    if isinstance(t, M):
        if cls == "iDynTree::Span" or cls.startswith("iDynTree"):
            return IDM.get(c.n) or MAT.get(c.n)
        return MAT.get(c.n)
    if isinstance(t, Sp):
        return SPARS.get(c.n)
    if isinstance(t, It):
        return ITER.get(c.n)
    if cls in SMART:
        return SMARTM.get(c.n)
    if isinstance(t, str) or cls.startswith("std::basic_string"):
        return STR.get(c.n)
    if isinstance(t, Obj) and t.cls == "iDynTree::Transform":
        return TRANSF.get(c.n)
    if isinstance(t, Obj) and t.cls == "iDynTree::IndexRange":
        return RANGE.get(c.n)
    if isinstance(t, Obj) and t.cls == "iDynTree::optimalcontrol::TimeRange":
        return TRANGE.get(c.n)
    if isinstance(t, Obj) and t.cls in OBJCLS:
        return OBJCLS[t.cls]
    if isinstance(t, Obj):
        return OBJM.get(c.n)
    if isinstance(t, Opq) and t.kind == "stream":
        return lambda I, th, a, n, c: th
    if isinstance(t, M) or scalar(t):
        return MAT.get(c.n)
    return None


def V(I, a):
    return [I.rd(x) for x in a]


# ------------------------------------------------------------------ std::vector
def v_resize(I, th, a, n, c):
    a = V(I, a)
    new = a[0]
    old = lst_len(I, th)
    if not isinstance(new, int) or not isinstance(old, int):
        I.write(th, "#n", new if scalar(new) else I.top("resize"))
        return
    I.sized(new)
    for i in range(old, new):
        v = I.copy(a[1]) if len(a) > 1 else I.default(th.et, th.et, "elem", True)
        I.write(th, i, v, init=i not in th.d)
    I.write(th, "#n", new)


def v_push(I, th, a, n, c):
    old = lst_len(I, th)
    v = I.rd(a[0]) if a else None
    if isinstance(v, Ent):
        v = I.own(v)
    v = I.coerce(v, th.et)
    if not isinstance(old, int):
        if isinstance(old, T.N) and old.op == "ite":
            raise Abort("push_back on a vector of unknown size")
        raise Abort("push_back on a vector of unknown size")
    I.write(th, old, v, init=old not in th.d)
    I.write(th, "#n", old + 1)


SCALARS = {"double", "float", "bool", "std::size_t", "size_t"} | INTT


def v_emplace(I, th, a, n, c):
    et = th.et
    v = I.rd(a[0]) if len(a) == 1 else None
    if not (v is not None and (isinstance(v, (M, Lst, Ptr, str)) or scalar(v) and clean_type(et) in SCALARS or isinstance(v, Obj) and v.cls in (et, getattr(I.default(et, et, "elem", True), "cls", None)))):
        o = I.default(et, et, "elem", True)
        if strip_targs(clean_type(et)) == "std::pair" and len(a) == 2 and isinstance(o, Obj):
            o.d["first"], o.d["second"] = [I.own(I.rd(x)) for x in a]
        elif a and not (len(a) == 1 and isinstance(v, (Opq, Ch))):
            o = make_obj(I, clean_type(et), a, n)
        elif a:
            o = v
        a = [o]
    v_push(I, th, a, n, c)
    return lst_at(I, th, lst_len(I, th) - 1)


def v_clear(I, th, a, n, c):
    I.write(th, "#n", 0)
    if I.rel(th.g) is True:
        for k in [k for k in th.d if k != "#n"]:
            I.write(th, k, MISSING)
            del th.d[k]


def v_assign(I, th, a, n, c):
    src = I.rd(a[0])
    if not isinstance(src, Lst):
        if isinstance(src, Ch):
            return I.assign(th, src)
        return NotImplemented
    n0 = lst_len(I, src)
    for i in range(n0 if isinstance(n0, int) else 0):
        v = src.d.get(i, MISSING)
        if v is MISSING:
            v = I.default(th.et, th.et, "elem", True)
        cur = th.d.get(i, MISSING)
        if isinstance(cur, (M, Obj, Lst)) and cur.__class__ is v.__class__:
            I.assign_ent(cur, v)
        else:
            I.write(th, i, I.copy(v), init=cur is MISSING)
    I.write(th, "#n", n0)
    return th


VEC = {
    "resize": v_resize, "reserve": lambda I, th, a, n, c: None, "size": lambda I, th, a, n, c: lst_len(I, th),
    "empty": lambda I, th, a, n, c: I.compare("==", lst_len(I, th), 0), "push_back": v_push, "emplace_back": v_emplace,
    "operator[]": lambda I, th, a, n, c: lst_at(I, th, I.rd(a[0])), "at": lambda I, th, a, n, c: lst_at(I, th, I.rd(a[0])),
    "front": lambda I, th, a, n, c: lst_at(I, th, 0), "back": lambda I, th, a, n, c: lst_at(I, th, T.sub(lst_len(I, th), 1)),
    "clear": v_clear, "begin": lambda I, th, a, n, c: It(th, 0), "cbegin": lambda I, th, a, n, c: It(th, 0),
    "end": lambda I, th, a, n, c: It(th, lst_len(I, th)), "cend": lambda I, th, a, n, c: It(th, lst_len(I, th)),
    "rbegin": lambda I, th, a, n, c: It(th, lst_len(I, th), True), "rend": lambda I, th, a, n, c: It(th, 0, True),
    "operator=": v_assign, "data": lambda I, th, a, n, c: Ptr(LRef(th, 0)),
    "pop_back": lambda I, th, a, n, c: I.write(th, "#n", T.sub(lst_len(I, th), 1)), "shrink_to_fit": lambda I, th, a, n, c: None,
}


@ctor("std::vector", "std::array", "std::deque")
def c_vector(I, e, c, cls):
    args = [I.rd(x) for x in I.args(e, c)]
    args = [x for x in args if not (isinstance(x, Opq) and "allocator" in x.kind)]
    et = targs(cls)[0] if "<" in cls else (targs(c.cls)[0] if c.cls and "<" in c.cls else "")
    l = Lst(et, I.guard)
    if not args:
        return l
    if isinstance(args[0], Lst):
        r = I.copy(args[0])
        r.et = et or r.et
        return r
    if isinstance(args[0], int):
        I.sized(args[0])
        for i in range(args[0]):
            l.d[i] = I.copy(args[1]) if len(args) > 1 else I.default(et, et, "elem", True)
        l.d["#n"] = args[0]
        return l
    if isinstance(args[0], It) and len(args) > 1 and isinstance(args[1], It) and isinstance(args[0].cont, Lst):
        vals = [I.copy(I.rd(lst_at(I, args[0].cont, i))) for i in range(args[0].pos, args[1].pos)]
        return lst_from(I, vals, et)
    l.d["#n"] = args[0] if scalar(args[0]) else I.top("vector size")
    return l


# ------------------------------------------------------------------ maps and sets
def mkey(I, k):
    k = I.rd(k)
    if isinstance(k, (str, int, float, bool)):
        return k
    if T.isn(k):
        return k
    if isinstance(k, Ptr):
        return ("ptr", id(k.t))
    raise Abort("map key %r" % (k,))


def symbolic_key(k):
    return T.isn(k)


def m_find(I, th, a, n, c):
    k = mkey(I, a[0])
    v = th.d.get(k, MISSING)
    if v is MISSING:
        return It(th, None)
    v = I.reduce(v)
    if isinstance(v, Ch) and v.b is MISSING:
        return Ch(v.c, It(th, k), It(th, None))
    return It(th, k)


def m_insert(I, th, a, n, c):
    if len(a) == 2 and isinstance(I.rd(a[0]), It) and isinstance(I.rd(a[1]), It):
        f, l = I.rd(a[0]), I.rd(a[1])
        if f.cont is l.cont and isinstance(f.cont, MapV) and l.pos is None:
            ks = [k for k, v in f.cont.d.items() if v is not MISSING]
            for k in ks[ks.index(f.pos):] if f.pos is not None else ():
                m_insert(I, th, [k if not f.cont.vt else pair_of(I, f.cont, k)], n, c)
            return None
        if f.cont is not l.cont or not isinstance(f.cont, Lst) or not isinstance(f.pos, int) or not isinstance(l.pos, int):
            raise Abort("insertion of a range")
        for i in range(f.pos, l.pos):
            m_insert(I, th, [lst_at(I, f.cont, i)], n, c)
        return None
    if len(a) > 1 and isinstance(I.rd(a[0]), It):
        a = a[1:]
    p = I.rd(a[0])
    if not th.vt:
        k = mkey(I, p)
        v = True
    elif isinstance(p, Obj):
        k = mkey(I, p.d["first"])
        v = p.d["second"]
    elif len(a) == 2:
        k = mkey(I, p)
        v = I.rd(a[1])
    elif isinstance(p, Lst):
        k, v = mkey(I, p.d[0]), p.d[1]
    else:
        raise Abort("map insert")
    old = th.d.get(k, MISSING)
    r = Obj("std::pair", I.guard)
    r.d["first"] = It(th, k)
    if old is MISSING:
        v = I.rd(v)
        I.write(th, k, I.own(v) if isinstance(v, Ent) else v)
        r.d["second"] = True
    else:
        r.d["second"] = False
        if isinstance(old, Ch) and old.b is MISSING:
            I.write(th, k, Ch(old.c, old.a, I.own(I.rd(v))))
            r.d["second"] = T.lnot(old.c)
    I.event("insert", map=th, key=k, fresh=r.d["second"])
    return r


def m_index(I, th, a, n, c):
    k = mkey(I, a[0])
    v = th.d.get(k, MISSING)
    if v is MISSING:
        v = I.default(th.vt, th.vt, "mapped", True)
        I.write(th, k, v)
        v = th.d[k]
    return v if isinstance(v, (M, Obj, Lst, MapV)) else LRef(th, k)


def m_clear(I, th, a, n, c):
    for k in list(th.d):
        if I.rel(th.g) is True:
            del th.d[k]
        else:
            I.write(th, k, MISSING)


def m_count(I, th, a, n, c):
    return 1 if th.d.get(mkey(I, a[0]), MISSING) is not MISSING else 0


def m_size(I, th, a, n, c):
    return len([1 for v in th.d.values() if v is not MISSING])


MAPS = {
    "find": m_find, "insert": m_insert, "emplace": m_insert, "operator[]": m_index, "at": m_index, "clear": m_clear, "count": m_count,
    "size": m_size, "end": lambda I, th, a, n, c: It(th, None), "cend": lambda I, th, a, n, c: It(th, None),
    "begin": lambda I, th, a, n, c: It(th, next((k for k, v in th.d.items() if v is not MISSING), None)),
    "cbegin": lambda I, th, a, n, c: It(th, next((k for k, v in th.d.items() if v is not MISSING), None)),
    "empty": lambda I, th, a, n, c: m_size(I, th, a, n, c) == 0, "erase": lambda I, th, a, n, c: I.write(th, mkey(I, a[0]), MISSING),
    "insert_or_assign": lambda I, th, a, n, c: I.write(th, mkey(I, a[0]), I.own(I.rd(a[1]))), "reserve": lambda I, th, a, n, c: None,
    "operator=": lambda I, th, a, n, c: I.assign(th, I.rd(a[0])) or th, "contains": lambda I, th, a, n, c: m_count(I, th, a, n, c) == 1,
}

ITER = {
    "operator*": lambda I, th, a, n, c: I.deref(I.rd(th), lambda x: x), "operator->": lambda I, th, a, n, c: I.rd(th),
    "operator++": lambda I, th, a, n, c: it_inc(I, th, a, 1), "operator--": lambda I, th, a, n, c: it_inc(I, th, a, -1),
    "operator-=": lambda I, th, a, n, c: I.assign(th, it_cases(I, lambda v: it_step(I, v[0], T.neg(v[1])), th, a[0])) or th,
    "operator+": lambda I, th, a, n, c: it_cases(I, lambda v: it_step(I, v[0], v[1]), th, a[0]),
    "operator-": lambda I, th, a, n, c: it_cases(I, lambda v: it_diff(I, v[0], v[1]), th, a[0]),
    "operator=": lambda I, th, a, n, c: I.assign(th, I.rd(a[0])) or th,
    "operator+=": lambda I, th, a, n, c: I.assign(th, it_cases(I, lambda v: it_step(I, v[0], v[1]), th, a[0])) or th,
    "base": lambda I, th, a, n, c: It(I.rd(th).cont, I.rd(th).pos),
    "operator[]": lambda I, th, a, n, c: I.deref(it_cases(I, lambda v: it_step(I, v[0], v[1]), th, a[0]), lambda x: x),
}


def it_cases(I, f, *a):
    return by_case(I, [I.rd(x) for x in a], f)


def it_inc(I, th, a, k):
    old = I.rd(th)
    I.assign(th, it_cases(I, lambda v: it_step(I, v[0], k), old))
    return old if a else th          # the dummy argument marks the postfix form


def it_diff(I, a, b):
    if isinstance(b, It):
        return T.sub(a.pos, b.pos) if not a.rev else T.sub(b.pos, a.pos)
    return it_step(I, a, -b)


@ctor("__gnu_cxx::__normal_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator", "std::reverse_iterator")
def c_iter(I, e, c, cls):
    args = [I.rd(x) for x in I.args(e, c)]
    if not args:
        return It(None, None)
    return args[0]


@model("std::operator!=", "std::operator==", "std::__detail::operator!=", "std::__detail::operator==", "__gnu_cxx::operator!=",
       "__gnu_cxx::operator==", "std::operator<", "__gnu_cxx::operator<", "__gnu_cxx::operator>", "__gnu_cxx::operator<=",
       "__gnu_cxx::operator>=", "std::operator>", "std::operator<=", "std::operator>=")
def std_eq(I, th, a, n, c):
    op = c.n[len("operator"):]
    return I.reduce(I.compare(op, I.rd(a[0]), I.rd(a[1])))


def by_pred(I, a, pick):
    pass


@model("std::_Bit_reference::operator bool", "std::_Bit_reference::operator=", "std::_Bit_reference::flip")
def bit_ref(I, th, a, n, c):
    """an element of a vector<bool> is the slot itself"""
    if c.n.startswith("operator="):
        I.assign(th, I.rd(a[0]))
        return th
    if c.n == "flip":
        I.assign(th, T.lnot(I.rd(th)))
        return None
    return I.rd(th)


def span_of(I, b, e):
    """iterators of a range with known ends, or None"""
    if isinstance(b, Ptr) and isinstance(b.t, LRef) and isinstance(e, Ptr) and isinstance(e.t, LRef) and b.t.e is e.t.e and isinstance(b.t.k, int) and isinstance(e.t.k, int):
        return [Ptr(LRef(b.t.e, k)) for k in range(b.t.k, e.t.k)]
    if not isinstance(b, It) or not isinstance(e, It):
        return None
    if isinstance(b.cont, MapV):
        out = []
        it = b
        while it.pos != e.pos:
            out.append(it)
            it = it_step(I, it, 1)
        return out
    if isinstance(b.pos, int) and isinstance(e.pos, int):
        return [It(b.cont, p, b.rev) for p in (range(b.pos, e.pos, -1) if b.rev else range(b.pos, e.pos))]
    return None


def elem_of(I, it):
    return it_get(I, it) if isinstance(it, It) else it.t


def by_case(I, v, go):
    """apply go to the alternatives of values that depend on a condition"""
    v = [I.reduce(x) if isinstance(x, Ch) else x for x in v]
    k = next((x for x in v if isinstance(x, Ch)), None)
    if k is None:
        return go(v)

    def side(val):
        return [(x.a if val else x.b) if isinstance(x, Ch) and (x.c is k.c) else x for x in v]
    p = I.under(k.c, lambda: by_case(I, side(True), go))
    q = I.under(T.lnot(k.c), lambda: by_case(I, side(False), go))
    if p is NotImplemented or q is NotImplemented:
        return NotImplemented
    if p is None and q is None:
        return None
    return I.merge(k.c, p, q)


def alg(*names):
    def wrap(f):
        @model(*["std::" + n for n in names])
        def g(I, th, a, n, c):
            def go(v):
                r = span_of(I, v[0], v[1]) if len(v) > 1 else None
                if r is None:
                    return NotImplemented
                return f(I, c.n, r, v, a)
            return by_case(I, V(I, a), go)
        return f
    return wrap


@alg("any_of", "all_of", "none_of")
def alg_any(I, name, r, v, a):
    out = False if name != "all_of" else True
    for it in reversed(r):
        x = I.cond_value(I.call_lam(v[2], [elem_of(I, it)]))
        out = T.land(x, out) if name == "all_of" else T.lnot(T.land(T.lnot(x), T.lnot(out)))
    return I.reduce(T.lnot(out) if name == "none_of" else out)


@alg("count_if", "count")
def alg_count(I, name, r, v, a):
    n = 0
    for it in r:
        x = elem_of(I, it)
        k = I.cond_value(I.call_lam(v[2], [x])) if name == "count_if" else I.compare("==", I.rd(x), v[2])
        n = T.add(n, T.ite(k, 1, 0))
    return n


@alg("find", "find_if_not")
def alg_find(I, name, r, v, a):
    out = v[1]
    for it in reversed(r):
        x = elem_of(I, it)
        k = I.compare("==", I.rd(x), v[2]) if name == "find" else T.lnot(I.cond_value(I.call_lam(v[2], [x])))
        out = I.merge(I.reduce(k), it, out)
    return out


@alg("min_element", "max_element")
def alg_min(I, name, r, v, a):
    if not r:
        return v[1]
    best = r[0]
    for it in r[1:]:
        x, y = elem_of(I, it), I.deref(best, lambda q: q)
        if name == "max_element":
            x, y = y, x
        k = I.cond_value(I.call_lam(v[2], [x, y])) if len(v) > 2 else I.compare("<", I.rd(x), I.rd(y))
        best = I.merge(I.reduce(k), it, best)
    return best


@alg("is_sorted", "adjacent_find")
def alg_adjacent(I, name, r, v, a):
    out = True if name == "is_sorted" else v[1]
    for p, q in reversed(list(zip(r, r[1:]))):
        x, y = elem_of(I, p), elem_of(I, q)
        if name == "is_sorted":
            k = I.cond_value(I.call_lam(v[2], [y, x])) if len(v) > 2 else I.compare("<", I.rd(y), I.rd(x))
            out = T.land(T.lnot(k), out)
        else:
            k = I.cond_value(I.call_lam(v[2], [x, y])) if len(v) > 2 else I.compare("==", I.rd(x), I.rd(y))
            out = I.merge(I.reduce(k), p, out)
    return I.reduce(out) if name == "is_sorted" else out


@alg("lower_bound", "upper_bound")
def alg_bound(I, name, r, v, a):
    """first element for which the ordering predicate fails (the range is partitioned by it)"""
    out = v[1]
    for it in reversed(r):
        x = elem_of(I, it)
        if name == "lower_bound":
            k = I.cond_value(I.call_lam(v[3], [x, v[2]])) if len(v) > 3 else I.compare("<", I.rd(x), v[2])
            stop = T.lnot(k)
        else:
            stop = I.cond_value(I.call_lam(v[3], [v[2], x])) if len(v) > 3 else I.compare("<", v[2], I.rd(x))
        out = I.merge(I.reduce(stop), it, out)
    return out


@alg("fill")
def alg_fill(I, name, r, v, a):
    for it in r:
        x = elem_of(I, it)
        I.assign(x, I.own(v[2]) if isinstance(v[2], Ent) else v[2])


@alg("copy", "transform")
def alg_copy(I, name, r, v, a):
    two = name == "transform" and len(v) == 5
    out = v[3 if two else 2]
    back = isinstance(out, Opq) and out.kind == "back_inserter"
    if not back and (not isinstance(out, It) or not isinstance(out.pos, int)):
        return NotImplemented
    for k, it in enumerate(r):
        x = elem_of(I, it)
        if name == "transform":
            x = I.call_lam(v[-1], [x] + ([elem_of(I, it_step(I, v[2], k))] if two else []))
        x = I.rd(x)
        if back:
            v_push(I, out.info, [x], None, None)
            continue
        I.assign(elem_of(I, it_step(I, out, k)), I.own(x) if isinstance(x, Ent) else x)
    return out if back else it_step(I, out, len(r))


@model("std::back_inserter")
def back_inserter(I, th, a, n, c):
    l = I.rd(a[0])
    if not isinstance(l, Lst):
        raise Abort("back_inserter")
    return Opq("back_inserter", l, I.guard)


@model("std::fill_n", "std::copy_n", "std::generate_n", "std::for_each_n")
def counted(I, th, a, n, c):
    def go(v):
        if not isinstance(v[0], It) or not isinstance(v[1], int) or not isinstance(v[0].pos, int):
            raise Abort(c.sqn)
        for k in range(v[1]):
            x = elem_of(I, it_step(I, v[0], k))
            if c.n == "for_each_n":
                I.call_lam(v[2], [x])
                continue
            if c.n == "copy_n":
                dst, val = elem_of(I, it_step(I, v[2], k)), I.rd(x)
            else:
                dst, val = x, v[2] if c.n == "fill_n" else I.rd(I.call_lam(v[2], []))
            I.assign(dst, I.own(val) if isinstance(val, Ent) else val)
        return it_step(I, v[2] if c.n == "copy_n" else v[0], v[1])
    return by_case(I, V(I, a), go)


@alg("generate")
def alg_generate(I, name, r, v, a):
    for it in r:
        x = I.rd(I.call_lam(v[2], []))
        I.assign(elem_of(I, it), I.own(x) if isinstance(x, Ent) else x)


@alg("reverse")
def alg_reverse(I, name, r, v, a):
    vals = [I.copy(I.rd(elem_of(I, it))) for it in r]
    for it, x in zip(r, reversed(vals)):
        I.assign(elem_of(I, it), x)


@alg("equal")
def alg_equal(I, name, r, v, a):
    out = True
    k = 0
    rest = list(v[2:])
    lam = rest.pop() if isinstance(rest[-1], (Lam, FnRef)) else None
    if len(rest) > 1:
        q = span_of(I, rest[0], rest[1])
        if q is None:
            return NotImplemented
        if len(q) != len(r):
            return False
    for k, it in enumerate(r):
        x, y = elem_of(I, it), elem_of(I, it_step(I, rest[0], k))
        out = T.land(out, I.cond_value(I.call_lam(lam, [x, y])) if lam else I.compare("==", I.rd(x), I.rd(y)))
    return I.reduce(out)


@alg("iota")
def alg_iota(I, name, r, v, a):
    for k, it in enumerate(r):
        I.assign(elem_of(I, it), T.add(v[2], k))


@alg("inner_product")
def alg_inner(I, name, r, v, a):
    if len(v) > 4:
        return NotImplemented
    s = v[3]
    for k, it in enumerate(r):
        s = T.add(s, T.mul(I.rd(elem_of(I, it)), I.rd(elem_of(I, it_step(I, v[2], k)))))
    return s


@model("std::distance", "__gnu_cxx::operator-")
def std_distance(I, th, a, n, c):
    def go(v):
        if not isinstance(v[0], It):
            return NotImplemented
        return it_diff(I, v[1], v[0]) if c.n == "distance" else it_diff(I, v[0], v[1])
    return by_case(I, V(I, a), go)


@model("std::next", "std::prev")
def std_next(I, th, a, n, c):
    def go(v):
        k = v[1] if len(v) > 1 else 1
        if isinstance(v[0], It):
            return it_step(I, v[0], k if c.n == "next" else T.neg(k))
        return NotImplemented
    return by_case(I, V(I, a), go)


@model("std::advance")
def std_advance(I, th, a, n, c):
    r = by_case(I, V(I, a), lambda v: it_step(I, v[0], v[1]) if isinstance(v[0], It) else NotImplemented)
    if r is NotImplemented:
        return r
    I.assign(a[0], r)


@model("std::as_const", "std::forward", "std::ref", "std::cref")
def std_same(I, th, a, n, c):
    return a[0]


@model("std::copysign", "copysign")
def std_copysign(I, th, a, n, c):
    x, y = V(I, a)
    m = T.ite(I.reduce(T.lt(x, 0)), T.neg(x), x)
    return T.ite(I.reduce(T.lt(y, 0)), T.neg(m), m)


@model("std::signbit", "signbit")
def std_signbit(I, th, a, n, c):
    return I.reduce(T.lt(I.rd(a[0]), 0))


@model("std::clamp")
def std_clamp(I, th, a, n, c):
    x, lo, hi = V(I, a[:3])
    return T.ite(I.reduce(T.lt(x, lo)), lo, T.ite(I.reduce(T.lt(hi, x)), hi, x))


@model("std::hypot", "hypot")
def std_hypot(I, th, a, n, c):
    s = 0
    for x in V(I, a):
        s = T.add(s, T.mul(x, x))
    return T.f1("sqrt", s)


@model("std::fma", "fma")
def std_fma(I, th, a, n, c):
    x, y, z = V(I, a)
    return T.add(T.mul(x, y), z)


@model("std::exchange")
def std_exchange(I, th, a, n, c):
    old = I.rd(a[0])
    old = I.copy(old) if isinstance(old, Ent) else old
    v = I.rd(a[1])
    I.assign(a[0], I.own(v) if isinstance(v, Ent) else v)
    return old


@alg("find_if")
def find_if(I, name, r, v, a):
    out = v[1]
    conds = [(I.cond_value(I.call_lam(v[2], [elem_of(I, it)])), it) for it in r]
    for cnd, it in reversed(conds):
        out = I.merge(I.reduce(cnd), it, out)
    return out


@model("std::make_pair")
def make_pair(I, th, a, n, c):
    o = Obj("std::pair", I.guard)
    o.d["first"], o.d["second"] = [I.own(I.rd(x)) for x in a]
    return o


@model("std::get")
def std_get(I, th, a, n, c):
    o = I.rd(a[0])
    k = next((x for x in c.ta if x is not None), None)
    if k is None:
        raise Abort("std::get by type")
    k = int(k)
    if isinstance(o, Obj) and o.cls == "std::pair":
        return I.field(o, ("first", "second")[k], {})
    if isinstance(o, Obj) and o.cls == "std::tuple":
        return I.field(o, k, {})
    if isinstance(o, Lst):
        return lst_at(I, o, k)
    raise Abort("std::get")


@model("std::make_tuple", "std::tie", "std::forward_as_tuple")
def make_tuple(I, th, a, n, c):
    o = Obj("std::tuple", I.guard)
    o.d["#n"] = len(a)
    for k, x in enumerate(a):
        o.d[k] = x if n != "make_tuple" else I.own(I.rd(x))
    return o


@ctor("std::tuple")
def c_tuple(I, e, c, cls):
    args = I.args(e, c)
    if c.ctor in ("copy", "move") and args:
        return I.copy(I.rd(args[0]))
    o = Obj("std::tuple", I.guard)
    o.d["#n"] = len(args)
    for k, x in enumerate(args):
        o.d[k] = I.own(I.rd(x))
    return o


@ctor("std::pair")
def c_pair(I, e, c, cls):
    args = I.args(e, c)
    if len(args) == 2:
        o = Obj("std::pair", I.guard)
        o.d["first"], o.d["second"] = [I.own(I.rd(x)) for x in args]
        return o
    if len(args) == 1:
        return I.copy(I.rd(args[0]))
    return NotImplemented


# ------------------------------------------------------------------ strings, streams, numbers
STR = {
    "operator=": lambda I, th, a, n, c: I.assign(th, I.rd(a[0])) or th,
    "size": lambda I, th, a, n, c: len(I.rd(th)) if isinstance(I.rd(th), str) else I.top("size"),
    "empty": lambda I, th, a, n, c: I.rd(th) == "" if isinstance(I.rd(th), str) else T.batom(I.uniq("empty")),
    "c_str": lambda I, th, a, n, c: I.rd(th), "operator+=": lambda I, th, a, n, c: I.assign(th, cat(I, I.rd(th), chars(I, a))) or th,
    "push_back": lambda I, th, a, n, c: I.assign(th, cat(I, I.rd(th), chars(I, a))),
    "find": lambda I, th, a, n, c: (lambda r: r if r >= 0 else 18446744073709551615)(I.rd(th).find(*[x for x in V(I, a)][:2])) if isinstance(I.rd(th), str) and isinstance(I.rd(a[0]), str) else I.top("find"),
    "append": lambda I, th, a, n, c: I.assign(th, cat(I, I.rd(th), chars(I, a))) or th,
    "insert": lambda I, th, a, n, c: I.assign(th, splice(I, I.rd(th), I.rd(a[0]), chars(I, a[1:]))) or th,
    "operator[]": lambda I, th, a, n, c: str_at(I, I.rd(th), I.rd(a[0])), "at": lambda I, th, a, n, c: str_at(I, I.rd(th), I.rd(a[0])),
    "back": lambda I, th, a, n, c: str_at(I, I.rd(th), -1), "front": lambda I, th, a, n, c: str_at(I, I.rd(th), 0),
    "clear": lambda I, th, a, n, c: I.assign(th, ""), "length": lambda I, th, a, n, c: len(I.rd(th)),
    "compare": lambda I, th, a, n, c: 0 if I.rd(th) == I.rd(a[0]) else 1,
    "substr": lambda I, th, a, n, c: (lambda s, p: s[p[0]:] if len(p) < 2 or p[1] > 10 ** 9 else s[p[0]:p[0] + p[1]])(I.rd(th), V(I, a)),
}


def chars(I, a):
    """text of the arguments of a string operation: a string, a character, or a count and a character"""
    x = V(I, a)
    if len(x) == 2 and all(isinstance(y, int) for y in x):
        return chr(x[1]) * x[0]
    if len(x) == 1:
        return chr(x[0]) if isinstance(x[0], int) else x[0]
    return None


def splice(I, s, k, t):
    return s[:k] + t + s[k:] if isinstance(s, str) and isinstance(k, int) and isinstance(t, str) and 0 <= k <= len(s) else I.top("text")


def str_at(I, s, k):
    return ord(s[k]) if isinstance(s, str) and isinstance(k, int) and k < len(s) else I.top("character")


@ctor("std::basic_string", "std::string")
def c_string(I, e, c, cls):
    args = [I.rd(x) for x in I.args(e, c)]
    if not args:
        return ""
    if len(args) >= 2 and isinstance(args[0], int) and isinstance(args[1], int) and not isinstance(args[1], bool):
        k = args[0] - (1 << 64) if args[0] >= 1 << 63 else args[0]
        if not 0 <= k < 10 ** 6:
            I.wild("oob", "std::string of %d characters" % k, "string length")
        return chr(args[1]) * k
    return args[0] if isinstance(args[0], str) else NotImplemented


@model("std::operator+")
def str_add(I, th, a, n, c):
    x, y = V(I, a)
    if isinstance(x, int) and isinstance(y, str):
        x = chr(x)
    if isinstance(y, int) and isinstance(x, str):
        y = chr(y)
    if isinstance(x, str) and isinstance(y, str):
        return x + y
    return I.top("string")


@model("std::to_string")
def to_string(I, th, a, n, c):
    v = I.rd(a[0])
    if T.isn(v):
        v = I.reduce(v)
    if T.isn(v) and "tokens" in I.opt:          # text of a number that is not known: a placeholder that names it
        k = "\u27e8%d\u27e9" % len(I.opt["tokens"])
        I.opt["tokens"][k] = v
        return k
    return str(v) if isinstance(v, int) else I.top("to_string")


@model("std::operator<<", "std::endl", "std::basic_ostream::operator<<")
def stream(I, th, a, n, c):
    free = th is None
    if free:
        if not a:
            return None
        th, a = I.rd(a[0]), a[1:]
    th = I.rd(th)
    if isinstance(th, Obj) and th.cls == "#stream" and a:
        put(I, th, I.rd(a[0]), free)
    return th


def put(I, o, v, free=False):
    """appends a value to a string stream; free operators take characters and strings, members take numbers and manipulators"""
    if isinstance(v, Opq) and v.kind == "manip":
        I.write(o, v.info[0], v.info[1])
        return
    if isinstance(v, FnRef):
        q = v.c.qn if hasattr(v.c, "qn") else str(v.c)
        if q.endswith("endl"):
            I.write(o, "text", cat(I, I.read(o, "text"), "\n"))
        elif q.endswith("fixed"):
            I.write(o, "fixed", True)
        elif not q.endswith("flush"):
            raise Abort("stream manipulator %s" % q)
        return
    if isinstance(v, bool):
        t = str(int(v))
    elif isinstance(v, int):
        t = chr(v) if free else str(v)
    elif isinstance(v, float):
        p = I.read(o, "precision")
        t = ("%.*f" if I.read(o, "fixed") is True else "%.*g") % (p, v)
    elif isinstance(v, str):
        t = v
    elif T.isn(v):
        t = to_string(I, None, [v], None, None)
    else:
        t = None
    w = I.read(o, "width")
    if t is None or not isinstance(w, int) or not isinstance(I.read(o, "fill"), str):
        I.write(o, "text", I.top("text"))
    else:
        if isinstance(t, str):
            t = t.rjust(w, I.read(o, "fill")) if w else t
        I.write(o, "text", cat(I, I.read(o, "text"), t))
    if w != 0:
        I.write(o, "width", 0)


def cat(I, x, y):
    return x + y if isinstance(x, str) and isinstance(y, str) else I.top("text")


for _n, _k in (("setw", "width"), ("setprecision", "precision")):
    MODELS["std::" + _n] = lambda I, th, a, n, c, _k=_k: Opq("manip", (_k, I.rd(a[0])), I.guard)
MODELS["std::setfill"] = lambda I, th, a, n, c: Opq("manip", ("fill", (lambda x: chr(x) if isinstance(x, int) else x)(I.rd(a[0]))), I.guard)


def string_stream(I, t, a):
    o = Obj("#stream", I.guard)
    x = I.rd(a[0]) if a else ""
    o.d = {"text": x if isinstance(x, str) else "", "width": 0, "fill": " ", "precision": 6, "fixed": False}
    return o


def stream_call(I, o, a, n, c):
    if c.n == "str":
        if a:
            I.write(o, "text", I.rd(a[0]))
            return None
        return I.read(o, "text")
    if c.n in ("width", "precision", "fill") and a:
        x = I.rd(a[0])
        I.write(o, c.n, chr(x) if c.n == "fill" and isinstance(x, int) else x)
        return None
    if c.n in ("clear", "flush"):
        return None
    if c.n == "put":
        put(I, o, chr(I.rd(a[0])))
        return o
    return NotImplemented


OBJCLS["#stream"] = stream_call
for _n in ("sqrt", "sin", "cos", "tan", "tanh", "cosh", "sinh", "exp", "log", "acosh", "atanh", "acos", "asin", "atan", "floor", "ceil", "asinh", "log10", "round"):
    def _f(I, th, a, n, c, _n=_n):
        return T.f1(_n, I.rd(a[0]))
    MODELS[_n] = _f
    MODELS["std::" + _n] = _f


@model("fabs", "std::abs", "std::fabs", "abs")
def m_abs(I, th, a, n, c):
    return T.f1("abs", I.rd(a[0]))


@model("pow", "std::pow")
def m_pow(I, th, a, n, c):
    return T.pw(*V(I, a))


@model("atan2", "std::atan2")
def m_atan2(I, th, a, n, c):
    return T.atan2(*V(I, a))


def minmax(I, a):
    v = V(I, a[:2])
    if len(v) == 1 or isinstance(v[0], Lst):
        return v[0], None
    return v


def fold_minmax(I, l, big):
    n = lst_len(I, l)
    out = I.rd(lst_at(I, l, 0))
    for i in range(1, n):
        x = I.rd(lst_at(I, l, i))
        out = T.ite(I.reduce(T.lt(out, x) if big else T.lt(x, out)), x, out)
    return out


@model("std::max", "std::fmax", "fmax")
def m_max(I, th, a, n, c):
    x, y = minmax(I, a)
    return T.ite(I.reduce(T.lt(x, y)), y, x) if y is not None else fold_minmax(I, x, True)


@model("std::min", "std::fmin", "fmin")
def m_min(I, th, a, n, c):
    x, y = minmax(I, a)
    return T.ite(I.reduce(T.lt(y, x)), y, x) if y is not None else fold_minmax(I, x, False)


@model("std::isnan", "isnan", "__builtin_isnan")
def m_isnan(I, th, a, n, c):
    v = I.rd(a[0])
    return T.lnot(T.le(v, v)) if False else T.batom("isnan:%s" % (v.id if T.isn(v) else v))


@model("std::isfinite", "std::isinf")
def m_isfin(I, th, a, n, c):
    v = I.rd(a[0])
    return T.batom("%s:%s" % (c.n, v.id if T.isn(v) else v))


@model("std::swap")
def m_swap(I, th, a, n, c):
    x, y = I.rd(a[0]), I.rd(a[1])
    if scalar(x) and scalar(y):
        I.assign(a[0], y)
        I.assign(a[1], x)
        return
    if isinstance(x, Ptr):
        I.assign(a[0], y)
        I.assign(a[1], x)
        return
    t = I.copy(x)
    I.assign(x, y)
    I.assign(y, t)


@model("std::numeric_limits::max")
def nl_max(I, th, a, n, c):
    return 1.7976931348623157e308 if clean_type(n.get("t", "")) == "double" else 2147483647


@model("std::numeric_limits::lowest")
def nl_low(I, th, a, n, c):
    return -1.7976931348623157e308


@model("std::numeric_limits::infinity")
def nl_inf(I, th, a, n, c):
    return T.atom("infinity")


@model("std::numeric_limits::quiet_NaN")
def nl_nan(I, th, a, n, c):
    return T.atom("NaN")


@model("std::numeric_limits::epsilon")
def nl_eps(I, th, a, n, c):
    return 2.220446049250313e-16


@alg("for_each")
def for_each(I, name, r, v, a):
    for it in r:
        I.call_lam(v[2], [elem_of(I, it)])
    return v[2]


@alg("accumulate")
def accumulate(I, name, r, v, a):
    s = v[2]
    for it in r:
        x = I.rd(elem_of(I, it))
        s = I.rd(I.call_lam(v[3], [s, x])) if len(v) > 3 else T.add(s, x)
    return s


# ------------------------------------------------------------------ smart pointers
def sp_assign(I, th, a, n, c):
    v = I.rd(a[0])
    if isinstance(th, LRef):
        I.assign(th, v)
    return th


SMARTM = {
    "operator=": sp_assign, "operator->": lambda I, th, a, n, c: I.rd(th), "operator*": lambda I, th, a, n, c: I.deref(th, lambda x: x),
    "get": lambda I, th, a, n, c: I.rd(th), "operator bool": lambda I, th, a, n, c: I.cond_value(th),
    "reset": lambda I, th, a, n, c: I.assign(th, I.rd(a[0]) if a and isinstance(I.rd(a[0]), Ptr) else NULL),
    "use_count": lambda I, th, a, n, c: I.top("use_count"), "lock": lambda I, th, a, n, c: I.rd(th),
    "expired": lambda I, th, a, n, c: T.lnot(I.cond_value(th)), "release": lambda I, th, a, n, c: I.rd(th),
    "swap": lambda I, th, a, n, c: m_swap(I, None, [th] + a, n, c),
}


@ctor("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")
def c_smart(I, e, c, cls):
    args = [I.rd(x) for x in I.args(e, c)]
    if not args:
        return NULL
    if isinstance(args[0], (Ptr, Ch)):
        return args[0]
    if T.isn(args[0]):
        return args[0]
    return NotImplemented


@model("std::make_unique", "std::make_shared")
def make_smart(I, th, a, n, c):
    t = targs(clean_type(c.ret if "<" in c.ret else n.get("t", "")))
    if not t:
        raise Abort("make_shared type")
    return Ptr(make_obj(I, clean_type(t[0]), a, n))


class Direct:
    """stands for the constructor of a library type called with values at hand (make_shared, emplace_back)"""
    pm, pt, ta, usr, repo, static, virt, const, ctor, ret, rm, rlt = "", [], [], "", False, False, False, False, "other", "", "v", ""

    def __init__(self, t, s):
        self.cls, self.qn, self.sqn, self.n = t, s + "::" + s.split("::")[-1], s + "::" + s.split("::")[-1], s.split("::")[-1]


def make_obj(I, t, a, n):
    r = I.P.record(t)
    s = strip_targs(t)
    if r is not None and not r["qn"].startswith("iDynTree::"):
        cls = r["qn"]
        h = I.hooks.get("new " + cls)
        if h is not None:
            x = h(I, None, a, n, None)
            if x is not NotImplemented:
                return x
        if not a:
            return I.construct_default(cls)
        fs = [f for f in I.P.methods(cls) if f.ctor and len(f.params) == len(a)]
        if len(fs) > 1:
            fs2 = [f for f in fs if all(compat(I, p, x) for p, x in zip(f.params, a))]
            fs = fs2 or fs
        if len(a) == 1 and isinstance(I.rd(a[0]), Obj) and I.rd(a[0]).cls == cls and not [f for f in fs if f.ctor != "copy" or (f.body is not None and not f.defaulted)]:
            return I.copy(I.rd(a[0]))
        if fs and fs[0].body is not None:
            args = [I.own(I.rd(x)) if p["m"] == "v" and isinstance(I.rd(x), Ent) else x for x, p in zip(a, fs[0].params)]
            return I.construct(fs[0], cls, args)
        if not fs:
            # constructor with default arguments
            fs = [f for f in I.P.methods(cls) if f.ctor == "other" and len(f.params) > len(a)]
        o = I.construct_default(cls)
        return o
    if s in CT_EXT:
        return CT_EXT[s](I, t, a)
    if s.startswith("iDynTree::optimalcontrol::TimeInvariant"):
        o = Opq("tio", t, I.guard)
        if a:
            v = I.rd(a[0])
            o.d["v"] = I.own(v) if isinstance(v, Ent) else v
        else:
            ta = targs(t)
            o.d["v"] = I.default(ta[0], ta[0], "tio", False) if ta else I.uninit("tio")
        return o
    if s in ("std::basic_string",):
        return "" if not a else I.rd(a[0])
    if a and s in CTORS:
        v = CTORS[s](I, {"k": "ctor", "t": t, "lt": t, "a": [{"k": "val", "v": x} for x in a]}, Direct(t, s), t)
        if v is not NotImplemented:
            return v
    v = I.default(t, t, "new", True)
    if a and isinstance(v, M):
        x = I.rd(a[0])
        if isinstance(x, M):
            return I.own(x)
    if isinstance(v, Opq):
        v = Opq(strip_targs(t), [I.rd(x) for x in a], I.guard)
    return v


CT_EXT = {}
for _n in ("std::basic_ostringstream", "std::basic_stringstream"):
    CT_EXT[_n] = string_stream


def compat(I, p, x):
    v = I.rd(x)
    t = clean_type(p["t"])
    if isinstance(v, str):
        return "basic_string" in t or t.endswith("char*")
    if isinstance(v, Obj):
        return t == v.cls or v.cls.endswith(t) or t.endswith(v.cls)
    if isinstance(v, Ptr):
        return "ptr" in t or t.endswith("*")
    if scalar(v):
        return t in ("double", "int", "unsigned int", "long", "unsigned long", "bool")
    return True


def tio_call(I, th, c, a, n):
    if c.n == "get":
        if c.cls and "TimeInvariant" in strip_targs(c.qn) and len(a) == 0:
            pass
        if len(a) >= 2:
            I.assign(a[1], True)
        v = th.d.get("v")
        return v if isinstance(v, Ent) else LRef(th, "v")
    return NotImplemented


OPAQUE["tio"] = tio_call


# time-varying object supplied from outside: values are functions of time alone
def tvo(I, name, elt, dims=None, g=None):
    o = Opq("tvo", (name, elt, dims), g or I.guard)
    return o


def tvo_call(I, th, c, a, n):
    name, elt, dims = th.info
    if c.n == "get":
        t = I.rd(a[0])
        if len(a) >= 2:
            ok = T.lt(0, T.fn("valid:" + name, t)) if I.opt.get("valid_time") else T.batom("valid(%s)" % name)
            I.assign(a[1], ok)
            I.event("validget", atom=ok, name=name)
        I.event("tvget", name=name, time=t)
        if elt == "double":
            return T.fn(name, t)
        if elt == "rot":
            q = [T.fn("%s.q%d" % (name, i), t) for i in range(4)]
            nrm = T.f1("sqrt", T.add(T.add(T.mul(q[0], q[0]), T.mul(q[1], q[1])), T.add(T.mul(q[2], q[2]), T.mul(q[3], q[3]))))
            return rot_from_quat(I, [T.div(x, nrm) for x in q])
        if callable(elt):
            return elt(I, t)
        m = vec(I, [T.fn("%s[%d]" % (name, i), t) for i in range(dims)], "fix" if elt == "fix" else "dyn")
        return m
    return NotImplemented


OPAQUE["tvo"] = tvo_call
OPAQUE["stream"] = lambda I, th, c, a, n: th


@model('std::operator""')
def m_literal(I, th, a, n, c):
    return Opq("duration")


# ------------------------------------------------------------------ functions and threads
@model("std::async")
def m_async(I, th, a, n, c):
    args = V(I, a)
    i = 0
    while i < len(args) and not isinstance(args[i], (Lam, FnRef)):
        i += 1
    o = Opq("future", None, I.guard)
    f = args[i]
    if isinstance(f, FnRef) and f.c.cls and not f.c.static:
        this = args[i + 1]
        r = I.deref(this, lambda x: I.invoke_on(f.c, x, a[i + 2:], n)) if isinstance(this, (Ptr, Ch)) else I.invoke_on(f.c, this, a[i + 2:], n)
    else:
        r = I.call_lam(f, a[i + 1:])
    o.d["v"] = r
    I.event("async", future=o)
    return o


def future_call(I, th, c, a, n):
    if c.n == "get":
        I.event("future_get", future=th)
        return th.d.get("v")
    if c.n in ("valid",):
        return True
    if c.n == "wait":
        return None
    if c.n in ("wait_for", "wait_until"):
        return 0
    return NotImplemented


OPAQUE["future"] = future_call


@model("std::future::get")
def fut_get(I, th, a, n, c):
    return future_call(I, I.rd(th), c, a, n)


@model("std::this_thread::sleep_for", "std::operator\"\"us", "std::chrono::operator\"\"us", "std::__basic_future::wait_for", "std::operator\"\"ms")
def m_sleep(I, th, a, n, c):
    return 0


@ctor("std::function")
def c_function(I, e, c, cls):
    args = [I.rd(x) for x in I.args(e, c)]
    return args[0] if args else NULL


@model("std::function::operator()")
def fn_call(I, th, a, n, c):
    return I.call_lam(I.rd(th), a)


@ctor("std::lock_guard", "std::unique_lock", "std::scoped_lock")
def c_lock(I, e, c, cls):
    args = I.args(e, c)
    I.event("lock", mutex=args[0] if args else None)
    return Opq("lock", args[0] if args else None, I.guard)


@ctor("std::allocator")
def c_alloc(I, e, c, cls):
    return Opq("std::allocator", None, I.guard)


@ctor("std::basic_ostringstream", "std::basic_stringstream")
def c_stream(I, e, c, cls):
    return string_stream(I, cls, [x for x in V(I, I.args(e, c)) if isinstance(x, str)])


# ------------------------------------------------------------------ matrices
def mm(I, x):
    x = I.rd(x) if isinstance(x, LRef) else x
    if isinstance(x, Ch):
        x = I.mnew(I.m_arr(x), "fix")
    return x


def res(I, arr, like=None):
    return I.mnew(arr, "fix" if True else "dyn", arr.shape[1] == 1)


def m_neg(I, m):
    return res(I, aew(T.neg, I.m_arr(m)))


def binop(op):
    def f(I, th, a, n, c):
        args = ([th] if th is not None else []) + list(a)
        args = [mm(I, x) for x in args]
        if len(args) == 1 and op == "-":
            if scalar(args[0]):
                return T.neg(args[0])
            if isinstance(args[0], LE):
                return le_neg(I, args[0])
            return m_neg(I, args[0])
        x, y = args[:2]
        if isinstance(x, (LE, LVar)) or isinstance(y, (LE, LVar)):
            return le_bin(I, op, x, y)
        if scalar(x) and scalar(y):
            return I.arith(op, x, y, "double")
        if op == "*":
            return matmul(I, x, y, n, c)
        if op == "/":
            if not scalar(y):
                y = I.m_arr(y).flat[0]
            if T.isn(y):
                I.event("div", den=y)
            return res(I, aew(lambda v: T.div(v, y), I.m_arr(x)))
        if isinstance(x, Obj) or isinstance(y, Obj):
            raise Abort("operator%s on %r %r" % (op, x, y))
        A, B = I.m_arr(x), I.m_arr(y)
        if A.shape != B.shape:
            if A.size == B.size and 1 in A.shape and 1 in B.shape:
                B = B.reshape(A.shape)
            else:
                I.event("shape", what="%s on %dx%d and %dx%d" % ((op,) + A.shape + B.shape))
                raise Abort("shape mismatch")
        return res(I, aadd(A, B) if op == "+" else asub(A, B))
    return f


def matmul(I, x, y, n=None, c=None):
    if isinstance(x, Obj) and x.cls == "iDynTree::Transform":
        return tr_mul(I, x, [y], n, c)
    if scalar(x):
        return res(I, aew(lambda v: T.mul(x, v), I.m_arr(y)))
    if scalar(y):
        return res(I, aew(lambda v: T.mul(v, y), I.m_arr(x)))
    if isinstance(x, M) and isinstance(y, M) and I.shape(x) == (3, 3) and I.shape(y) == (3, 3):
        return rot_mul(I, x, y)
    A, B = I.m_arr(x), I.m_arr(y)
    if A.shape[1] != B.shape[0]:
        I.event("shape", what="product of %dx%d and %dx%d" % (A.shape + B.shape))
        raise Abort("shape mismatch in product")
    return res(I, amul(A, B))


def inplace(op):
    def f(I, th, a, n, c):
        t = mm(I, th)
        v = mm(I, a[0])
        if scalar(t):
            I.assign(th, I.arith(op, t, v if scalar(v) else I.m_arr(v).flat[0], "double"))
            return th
        A = I.m_arr(t)
        if op in "*/" and scalar(v):
            I.m_store(t, aew((lambda x: T.mul(x, v)) if op == "*" else (lambda x: T.div(x, v)), A))
        elif op == "*":
            I.m_store(t, amul(A, I.m_arr(v)))
        else:
            B = I.m_arr(v)
            if A.shape != B.shape:
                if A.size == B.size and 1 in A.shape and 1 in B.shape:
                    B = B.reshape(A.shape)
                else:
                    I.event("shape", what="%s= on %dx%d and %dx%d" % ((op,) + A.shape + B.shape))
                    raise Abort("shape mismatch")
            I.m_store(t, aadd(A, B) if op == "+" else asub(A, B))
        return th
    return f


def conc(I, *vals):
    out = []
    for v in vals:
        v = I.rd(v)
        if isinstance(v, float) and v == int(v):
            v = int(v)
        if not isinstance(v, int) or isinstance(v, bool):
            I.unset(v, "a block position")
            raise Abort("block position is not constant: %r" % (v,))
        out.append(v)
    return out


def blk(I, m, r0, c0, nr, nc, vecf=None):
    b, r, c, idx = I.mview(m)
    if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > r or c0 + nc > c:
        I.wild("oob", "block(%d,%d,%d,%d) of a %dx%d matrix" % (r0, c0, nr, nc, r, c), "block out of range")
    return I.view(b, idx[r0:r0 + nr, c0:c0 + nc], vecf)


def tdims(c):
    return [x for x in c.ta if x is not None]


def m_block(I, th, a, n, c):
    m = mm(I, th)
    if isinstance(m, (LE, LVar)):
        return NotImplemented
    p = conc(I, *a)
    if len(p) == 2:
        t = tdims(c)
        p = p + t[:2]
    return blk(I, m, *p)


def m_segment(kind):
    def f(I, th, a, n, c):
        m = mm(I, th)
        r, cc = I.shape(m)
        N = r * cc
        p = conc(I, *a)
        t = tdims(c)
        if kind == "segment":
            o, k = (p[0], p[1]) if len(p) > 1 else (p[0], t[0])
        elif kind == "head":
            o, k = 0, (p[0] if p else t[0])
        else:
            k = p[0] if p else t[0]
            o = N - k
        if cc == 1 or r != 1:
            return blk(I, m, o, 0, k, 1)
        return blk(I, m, 0, o, 1, k)
    return f


def m_rows(kind):
    def f(I, th, a, n, c):
        m = mm(I, th)
        r, cc = I.shape(m)
        p = conc(I, *a)
        t = tdims(c)
        if kind == "middleRows":
            o, k = p[0], (p[1] if len(p) > 1 else t[0])
            return blk(I, m, o, 0, k, cc)
        if kind == "middleCols":
            o, k = p[0], (p[1] if len(p) > 1 else t[0])
            return blk(I, m, 0, o, r, k)
        k = p[0] if p else t[0]
        if kind == "topRows":
            return blk(I, m, 0, 0, k, cc)
        if kind == "bottomRows":
            return blk(I, m, r - k, 0, k, cc)
        if kind == "leftCols":
            return blk(I, m, 0, 0, r, k)
        return blk(I, m, 0, cc - k, r, k)
    return f


def m_corner(kind):
    def f(I, th, a, n, c):
        m = mm(I, th)
        r, cc = I.shape(m)
        p = conc(I, *a)
        if len(p) < 2:
            p = tdims(c)[:2]
        r0 = 0 if "top" in kind else r - p[0]
        c0 = 0 if "Left" in kind else cc - p[1]
        return blk(I, m, r0, c0, p[0], p[1])
    return f


def m_row(I, th, a, n, c):
    m = mm(I, th)
    i, = conc(I, a[0])
    r, cc = I.shape(m)
    return blk(I, m, i, 0, 1, cc)


def m_col(I, th, a, n, c):
    m = mm(I, th)
    i, = conc(I, a[0])
    r, cc = I.shape(m)
    return blk(I, m, 0, i, r, 1)


def m_transpose(I, th, a, n, c):
    m = mm(I, th)
    b, r, cc, idx = I.mview(m)
    return I.view(b, idx.T, r == 1)


def m_call(I, th, a, n, c):
    m = mm(I, th)
    if isinstance(m, (LE, LVar)):
        return NotImplemented
    p = V(I, a)
    return I.m_ref(m, *p)


def m_fill(val):
    def f(I, th, a, n, c):
        m = mm(I, th)
        p = V(I, a)
        v = val
        if val is None:
            v = p[-1]
            p = p[:-1]
        if len(p) >= 1 and m.kind == "dyn":
            dims = conc(I, *p)
            if len(dims) == 1:
                dims = [dims[0], 1]
            arr = np.empty(tuple(dims), dtype=object)
            arr.fill(v)
            I.m_store(m, arr)
            return th
        r, cc = I.shape(m)
        arr = np.empty((r, cc), dtype=object)
        arr.fill(v)
        I.m_store(m, arr)
        return th
    return f


def m_identity(I, th, a, n, c):
    m = mm(I, th)
    r, cc = I.shape(m)
    arr = azero(r, cc)
    for i in range(min(r, cc)):
        arr[i, i] = 1.0
    I.m_store(m, arr)
    if (r, cc) == (3, 3):
        m.quat = None
    return th


def m_resize(I, th, a, n, c):
    m = mm(I, th)
    p = conc(I, *a)
    if len(p) == 1:
        r, cc = I.shape(m)
        p = [p[0], 1] if m.vec or cc == 1 else [1, p[0]]
    I.sized(*p)
    r, cc = I.shape(m)
    if (r, cc) == tuple(p):
        return th
    if m.kind != "dyn":
        if m.kind == "view":
            raise Abort("resize of a view")
    old = I.m_arr(m) if m.vec else None
    arr = np.empty(tuple(p), dtype=object)
    for i in np.ndindex(*arr.shape):
        if old is not None and i[0] < old.shape[0] and c is not None and c.sqn.startswith("iDynTree"):
            arr[i] = old[i]     # iDynTree keeps the leading elements
        else:
            arr[i] = I.uninit("resized[%d,%d]" % i)
    from .interp import Buf
    nb = Buf(I.guard)
    for i, v in enumerate(arr.flat):
        nb.d[i] = v
    I.write(m, "b", nb)
    I.write(m, "r", p[0])
    I.write(m, "c", p[1])
    m.quat = None
    return th


def m_size(I, th, a, n, c):
    r, cc = I.shape(mm(I, th))
    return r * cc


def reduce_(I, m, f, start):
    s = start
    for v in I.m_arr(m).flat:
        s = f(s, v)
    return s


def m_sqn(I, th, a, n, c):
    return reduce_(I, mm(I, th), lambda s, v: T.add(s, T.mul(v, v)), 0.0)


def m_norm(I, th, a, n, c):
    return T.f1("sqrt", m_sqn(I, th, a, n, c))


def m_normalized(I, th, a, n, c):
    nn = m_norm(I, th, a, n, c)
    return res(I, aew(lambda v: T.div(v, nn), I.m_arr(mm(I, th))))


def m_normalize(I, th, a, n, c):
    I.m_store(mm(I, th), I.m_arr(m_normalized(I, th, a, n, c)))


def m_dot(I, th, a, n, c):
    A, B = I.m_arr(mm(I, th)).ravel(), I.m_arr(mm(I, a[0])).ravel()
    if len(A) != len(B):
        raise Abort("dot of different sizes")
    s = 0.0
    for x, y in zip(A, B):
        s = T.add(s, T.mul(x, y))
    return s


def cross3(a, b):
    m, s = T.mul, T.sub
    return [s(m(a[1], b[2]), m(a[2], b[1])), s(m(a[2], b[0]), m(a[0], b[2])), s(m(a[0], b[1]), m(a[1], b[0]))]


def m_cross(I, th, a, n, c):
    A, B = I.m_arr(mm(I, th)).ravel(), I.m_arr(mm(I, a[0])).ravel()
    return vec(I, cross3(A, B))


def m_minmax(mx):
    def f(I, th, a, n, c):
        s = None
        for v in I.m_arr(mm(I, th)).flat:
            s = v if s is None else T.ite(T.lt(s, v) if mx else T.lt(v, s), v, s)
        return s
    return f


def m_assign(I, th, a, n, c):
    v = mm(I, a[0])
    t = mm(I, th)
    if isinstance(v, Lst):
        v = vec(I, [I.rd(lst_at(I, v, i)) for i in range(lst_len(I, v))], "dyn")
    if isinstance(t, M) and scalar(v):
        v = I.mfill(1, 1, v)
    if not isinstance(t, Ent):
        I.assign(th, v)
        return th
    if isinstance(v, Ch):
        I.assign(t, v)
        return th
    I.assign_ent(t, v)
    return th


def ew2(f):
    def g(I, th, a, n, c):
        A, B = I.m_arr(mm(I, th)), mm(I, a[0])
        if scalar(B):
            return res(I, aew(lambda v: f(v, B), A))
        return res(I, aew(f, A, I.m_arr(B)))
    return g


def ew1(f):
    return lambda I, th, a, n, c: res(I, aew(f, I.m_arr(mm(I, th))))


def m_diag(I, th, a, n, c):
    v = I.m_arr(mm(I, th)).ravel()
    arr = azero(len(v), len(v))
    for i, x in enumerate(v):
        arr[i, i] = x
    return res(I, arr)


def m_diagonal(I, th, a, n, c):
    m = mm(I, th)
    b, r, cc, idx = I.mview(m)
    k = min(r, cc)
    return I.view(b, np.array([[idx[i, i]] for i in range(k)]))


def comma(I, th, a, n, c):
    m = mm(I, th)
    o = Opq("comma", m, I.guard)
    o.d["pos"] = 0
    o.d["row"] = 0
    o.d["rh"] = 0
    comma_put(I, o, a[0])
    return o


def comma_put(I, o, v):
    v = mm(I, v)
    b, r, cc, idx = I.mview(o.info)
    A = I.m_arr(v) if not scalar(v) else np.array([[v]], dtype=object)
    if o.d["pos"] >= cc:
        o.d["row"] += o.d["rh"]
        o.d["pos"] = 0
    if o.d["row"] + A.shape[0] > r or o.d["pos"] + A.shape[1] > cc:
        I.wild("oob", "comma initialiser overflow", "comma initialiser")
    o.d["rh"] = A.shape[0]
    for i in np.ndindex(*A.shape):
        I.m_set(o.info, o.d["row"] + i[0], o.d["pos"] + i[1], A[i])
    o.d["pos"] += A.shape[1]


def comma_call(I, th, c, a, n):
    if c.n == "operator,":
        comma_put(I, th, a[0])
        return th
    if c.n == "finished":
        return th.info
    return NotImplemented


OPAQUE["comma"] = comma_call

MAT = {
    "block": m_block, "segment": m_segment("segment"), "head": m_segment("head"), "tail": m_segment("tail"),
    "topRows": m_rows("topRows"), "bottomRows": m_rows("bottomRows"), "leftCols": m_rows("leftCols"), "rightCols": m_rows("rightCols"),
    "middleRows": m_rows("middleRows"), "middleCols": m_rows("middleCols"),
    "topLeftCorner": m_corner("topLeft"), "topRightCorner": m_corner("topRight"), "bottomLeftCorner": m_corner("bottomLeft"),
    "bottomRightCorner": m_corner("bottomRight"), "row": m_row, "col": m_col, "transpose": m_transpose, "adjoint": m_transpose,
    "operator()": m_call, "operator[]": m_call, "coeff": m_call, "coeffRef": m_call,
    "setZero": m_fill(0.0), "zero": m_fill(0.0), "setOnes": m_fill(1.0), "setConstant": m_fill(None), "fill": m_fill(None), "setIdentity": m_identity,
    "resize": m_resize, "size": m_size, "rows": lambda I, th, a, n, c: I.shape(mm(I, th))[0], "cols": lambda I, th, a, n, c: I.shape(mm(I, th))[1],
    "conservativeResize": m_resize,
    "squaredNorm": m_sqn, "norm": m_norm, "normalized": m_normalized, "normalize": m_normalize, "dot": m_dot, "cross": m_cross,
    "minCoeff": m_minmax(False), "maxCoeff": m_minmax(True), "sum": lambda I, th, a, n, c: reduce_(I, mm(I, th), T.add, 0.0),
    "prod": lambda I, th, a, n, c: reduce_(I, mm(I, th), T.mul, 1.0), "mean": lambda I, th, a, n, c: T.div(reduce_(I, mm(I, th), T.add, 0.0), m_size(I, th, a, n, c)),
    "trace": lambda I, th, a, n, c: (lambda A: __import__("functools").reduce(T.add, [A[i, i] for i in range(min(A.shape))], 0.0))(I.m_arr(mm(I, th))),
    "operator=": m_assign, "lazyAssign": m_assign, "operator+": binop("+"), "operator-": binop("-"), "operator*": binop("*"), "operator/": binop("/"),
    "operator+=": inplace("+"), "operator-=": inplace("-"), "operator*=": inplace("*"), "operator/=": inplace("/"),
    "cwiseProduct": ew2(T.mul), "cwiseQuotient": ew2(T.div), "cwiseAbs": ew1(lambda v: T.f1("abs", v)), "abs": ew1(lambda v: T.f1("abs", v)),
    "square": ew1(lambda v: T.mul(v, v)), "sqrt": ew1(lambda v: T.f1("sqrt", v)), "cwiseSqrt": ew1(lambda v: T.f1("sqrt", v)),
    "array": lambda I, th, a, n, c: th, "matrix": lambda I, th, a, n, c: th, "noalias": lambda I, th, a, n, c: th, "eval": lambda I, th, a, n, c: I.copy_arr(mm(I, th)),
    "derived": lambda I, th, a, n, c: th, "asDiagonal": m_diag, "diagonal": m_diagonal, "operator<<": comma,
    "operator const double": lambda I, th, a, n, c: I.m_arr(mm(I, th)).flat[0], "value": lambda I, th, a, n, c: I.m_arr(mm(I, th)).flat[0],
    "data": lambda I, th, a, n, c: Ptr(I.m_ref(mm(I, th), 0)), "x": lambda I, th, a, n, c: I.m_ref(mm(I, th), 0), "y": lambda I, th, a, n, c: I.m_ref(mm(I, th), 1),
    "z": lambda I, th, a, n, c: I.m_ref(mm(I, th), 2), "begin": lambda I, th, a, n, c: It(mm(I, th), 0), "end": lambda I, th, a, n, c: It(mm(I, th), m_size(I, th, a, n, c)),
    "operator==": lambda I, th, a, n, c: m_eq(I, th, a),
    "empty": lambda I, th, a, n, c: m_size(I, th, a, n, c) == 0,
    "colPivHouseholderQr": lambda I, th, a, n, c: Opq("solver", mm(I, th), I.guard), "inverse": lambda I, th, a, n, c: res(I, aew_fn(I, "inv", mm(I, th))),
}


def m_eq(I, th, a):
    A, B = I.m_arr(mm(I, th)), I.m_arr(mm(I, a[0]))
    if A.shape != B.shape:
        return False
    r = True
    for x, y in zip(A.flat, B.flat):
        r = T.land(r, T.eq(x, y))
    return r


def aew_fn(I, name, m):
    A = I.m_arr(m)
    if A.shape == (3, 3) and m.quat is not None:
        return A.T.copy()
    n = np.empty(A.shape, dtype=object)
    for i in np.ndindex(*A.shape):
        n[i] = T.fn("%s[%d,%d]" % (name, i[0], i[1]), *A.flat)
    return n


def det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    tot = 0
    for j in range(n):
        mn = np.delete(np.delete(A, 0, 0), j, 1)
        t = T.mul(A[0, j], det(mn))
        tot = T.add(tot, t) if j % 2 == 0 else T.sub(tot, t)
    return tot


def solver_call(I, th, c, a, n):
    """any solution of a linear system with full row rank: w + A' (A A')^-1 (b - A w) for a free w"""
    if c.n == "solve":
        A = I.m_arr(th.info)
        B = I.m_arr(mm(I, a[0]))
        m, k = A.shape
        if m > 4 or m > k:
            raise Abort("linear system %dx%d" % (m, k))
        W = np.empty((k, B.shape[1]), dtype=object)
        if m == k:
            W.fill(0)
        else:
            stem = I.uniq("solution")
            for i in np.ndindex(*W.shape):
                W[i] = T.atom("%s[%d,%d]" % (stem, i[0], i[1]))
        G = amul(A, A.T.copy())
        d = det(G)
        inv = np.empty((m, m), dtype=object)
        for i in range(m):
            for j in range(m):
                x = det(np.delete(np.delete(G, j, 0), i, 1)) if m > 1 else 1
                inv[i, j] = T.div(x if (i + j) % 2 == 0 else T.neg(x), d)
        return res(I, aadd(W, amul(A.T.copy(), amul(inv, asub(B, amul(A, W))))))
    return NotImplemented


OPAQUE["solver"] = solver_call


# static factories
def factory(kind):
    def f(I, th, a, n, c):
        if th is not None:
            return MAT[{"Zero": "setZero", "Ones": "setOnes", "Identity": "setIdentity", "Constant": "setConstant"}[kind]](I, th, a, n, c)
        p = V(I, a)
        v = {"Zero": 0.0, "Ones": 1.0, "Identity": 0.0}.get(kind)
        if kind == "Constant":
            v = p[-1]
            p = p[:-1]
        cls = targs(c.cls or "")
        dims = conc(I, *p)
        if not dims:
            cl = c.cls or n.get("t", "")
            i = cl.find("Eigen::Matrix<")
            if i < 0:
                cl = c.rlt
                i = cl.find("Eigen::Matrix<")
            ta = targs(cl[i:]) if i >= 0 else []
            if len(ta) < 3:
                raise Abort("matrix factory %s %s" % (c.cls, n.get("t")))
            dims = [int(ta[1]), int(ta[2])]
        if len(dims) == 1:
            dims = [dims[0], 1]
        arr = np.empty(tuple(dims), dtype=object)
        arr.fill(v)
        if kind == "Identity":
            for i in range(min(dims)):
                arr[i, i] = 1.0
        return res(I, arr)
    return f


for _k in ("Zero", "Ones", "Identity", "Constant"):
    for _b in ("Eigen::DenseBase", "Eigen::MatrixBase", "Eigen::PlainObjectBase"):
        MODELS[_b + "::" + _k] = factory(_k)


@model("operator*", "Eigen::operator*")
def op_mul(I, th, a, n, c):
    return binop("*")(I, None, a, n, c)


@model("Eigen::operator+", "operator+")
def op_add(I, th, a, n, c):
    return binop("+")(I, None, a, n, c)


@model("Eigen::operator-", "operator-")
def op_sub(I, th, a, n, c):
    return binop("-")(I, None, a, n, c)


@model("operator/")
def op_div(I, th, a, n, c):
    return binop("/")(I, None, a, n, c)


@model("operator<<")
def op_shl(I, th, a, n, c):
    x = mm(I, a[0])
    if isinstance(x, M):
        return comma(I, x, a[1:], n, c)
    return x


@ctor("Eigen::Matrix", "Eigen::Array")
def c_eigen(I, e, c, cls):
    args = [mm(I, x) for x in I.args(e, c)]
    if not args:
        return I.default(cls, cls, "mat")
    if len(args) == 1 and isinstance(args[0], M):
        m = I.mnew(I.m_arr(args[0]), "fix", None)
        m.quat = args[0].quat
        a = targs(cls)
        if a and (a[1].startswith("-") or a[2].startswith("-")):
            m.kind = "dyn"
        if len(a) > 2 and a[2] == "1" and I.shape(m)[0] == 1 and I.shape(m)[1] > 1:
            m = I.mnew(I.m_arr(m).T.copy(), m.kind, True)
        return m
    a = targs(cls)
    if a and len(a) > 2:
        r, cc = int(a[1]), int(a[2])
        if r > 0 and cc > 0 and len(args) == r * cc:
            arr = np.empty((r, cc), dtype=object)
            for i, v in enumerate(args):
                arr.flat[i] = v
            return I.mnew(arr, "fix")
        if len(args) <= 2:
            d = conc(I, *args)
            if len(d) == 1:
                d = [d[0], 1]
            return I.muninit(d[0], d[1], "dyn", "mat")
    if len(args) == 1 and isinstance(args[0], Lst):
        return NotImplemented
    return NotImplemented


@ctor("Eigen::Map", "Eigen::Ref", "Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose")
def c_map(I, e, c, cls):
    raw = e.get("a", [])
    args = [I.rd(x) for x in I.args(e, c)]
    if len(raw) == len(args) > 1 and "Stride<0" in str(raw[-1].get("t")):       # the default stride
        args.pop()
    if isinstance(args[0], M):
        return args[0] if args[0].kind == "view" else I.asview(args[0])
    if isinstance(args[0], Ptr) and isinstance(args[0].t, LRef):
        b, o = args[0].t.e, args[0].t.k
        dims = conc(I, *args[1:]) if len(args) > 1 else []
        i = cls.find("Eigen::Matrix<")
        ta = targs(cls[i:]) if i >= 0 else []
        if len(dims) < 2 and len(ta) >= 3:
            r, cc = int(ta[1]), int(ta[2])
            if not dims:
                dims = [r, cc]
            elif cc == 1:
                dims = [dims[0], 1]
            else:
                dims = [1, dims[0]]
        rowmajor = len(ta) > 3 and int(ta[3]) & 1
        idx = np.arange(dims[0] * dims[1]).reshape(dims[0], dims[1]) if rowmajor or 1 in dims else np.arange(dims[0] * dims[1]).reshape(dims[1], dims[0]).T
        return I.view(b, idx + o)
    return NotImplemented


# ------------------------------------------------------------------ iDynTree containers
@model("iDynTree::toEigen")
def to_eigen(I, th, a, n, c):
    x = mm(I, a[0])
    if isinstance(x, M):
        if c.rm == "v" and c.pt and "Map" not in c.ret and "Block" not in c.ret:
            pass
        return x if x.kind == "view" else I.asview(x)
    if isinstance(x, Obj) and x.cls == "iDynTree::Transform":
        raise Abort("toEigen(Transform)")
    if isinstance(x, Lst):
        raise Abort("toEigen(vector)")
    raise Abort("toEigen of %r" % (x,))


@model("iDynTree::make_span")
def make_span(I, th, a, n, c):
    x = mm(I, a[0])
    if isinstance(x, M):
        return I.asview(x)
    if isinstance(x, Lst):
        k = lst_len(I, x)
        if isinstance(k, int):
            idx = np.arange(k).reshape(k, 1)
            return I.view(x, idx)
    if isinstance(x, Ptr) and isinstance(x.t, LRef):
        k, = conc(I, a[1])
        return I.view(x.t.e, (np.arange(k) + x.t.k).reshape(k, 1))
    raise Abort("make_span")


@ctor("iDynTree::Span")
def c_span(I, e, c, cls):
    args = [mm(I, x) for x in I.args(e, c)]
    if args and isinstance(args[0], M):
        return I.asview(args[0]) if args[0].kind != "view" else args[0]
    if args:
        return make_span(I, None, args, e, c)
    return NotImplemented


def sp_subspan(I, th, a, n, c):
    p = conc(I, *a)
    m = mm(I, th)
    r, cc = I.shape(m)
    k = p[1] if len(p) > 1 and p[1] >= 0 else r - p[0]
    if p[0] < 0 or k < 0 or p[0] + k > r:
        I.wild("oob", "subspan(%d,%d) of %d elements" % (p[0], k, r), "subspan out of range")
    return blk(I, m, p[0], 0, k, 1)


def id_setval(I, th, a, n, c):
    i, v = V(I, a)
    I.assign(I.m_ref(mm(I, th), i), v)
    return True


def sv_lin(off):
    def f(I, th, a, n, c):
        m = mm(I, th)
        if I.shape(m) == (6, 1):
            return blk(I, m, off, 0, 3, 1)
        return NotImplemented
    return f


def sv_set(off):
    def f(I, th, a, n, c):
        m = mm(I, th)
        I.m_store(blk(I, m, off, 0, 3, 1), I.m_arr(mm(I, a[0])))
    return f


def rot_op_mul(I, th, a, n, c):
    x, y = mm(I, th), mm(I, a[0])
    if isinstance(y, Obj) and y.cls == "iDynTree::Transform":
        raise Abort("rotation*transform")
    if isinstance(x, M) and isinstance(y, M) and I.shape(x) == (3, 3) and I.shape(y) == (6, 1):
        A = I.m_arr(x)
        B = I.m_arr(y)
        return vec(I, list(amul(A, B[:3]).ravel()) + list(amul(A, B[3:]).ravel()))
    return binop("*")(I, th, a, n, c)


def crm(v):
    """6x6 motion cross product matrix, linear first"""
    a = azero(6, 6)
    w = skew3(v[3:])
    l = skew3(v[:3])
    a[:3, :3] = w
    a[:3, 3:] = l
    a[3:, 3:] = w
    return a


def crf(v):
    a = azero(6, 6)
    w = skew3(v[3:])
    l = skew3(v[:3])
    a[:3, :3] = w
    a[3:, :3] = l
    a[3:, 3:] = w
    return a


def id_cross(I, th, a, n, c):
    x, y = mm(I, th), mm(I, a[0])
    if I.shape(x) == (3, 1):
        return m_cross(I, th, a, n, c)
    A, B = list(I.m_arr(x).ravel()), I.m_arr(y)
    force = "Force" in (c.pt[0] if c.pt else "") or "Momentum" in (c.pt[0] if c.pt else "") or "Wrench" in (c.pt[0] if c.pt else "")
    return res(I, amul(crf(A) if force else crm(A), B))


IDM = {
    "subspan": sp_subspan, "setVal": id_setval, "getVal": lambda I, th, a, n, c: I.m_ref(mm(I, th), I.rd(a[0])),
    "getLinearVec3": sv_lin(0), "getAngularVec3": sv_lin(3), "setLinearVec3": sv_set(0), "setAngularVec3": sv_set(3),
    "operator*": rot_op_mul, "inverse": lambda I, th, a, n, c: rot_inv(I, mm(I, th)) if I.shape(mm(I, th)) == (3, 3) else NotImplemented,
    "asQuaternion": lambda I, th, a, n, c: vec(I, as_quat(I, mm(I, th))),
    "getQuaternion": lambda I, th, a, n, c: I.m_assign(mm(I, a[0]), vec(I, as_quat(I, mm(I, th)))) or True,
    "fromQuaternion": lambda I, th, a, n, c: I.assign_ent(mm(I, th), rot_from_quat(I, list(I.m_arr(mm(I, a[0])).ravel()))),
    "toString": lambda I, th, a, n, c: "?", "asVector": lambda I, th, a, n, c: I.copy_arr(mm(I, th)),
    "asCrossProductMatrix": lambda I, th, a, n, c: res(I, crm(list(I.m_arr(mm(I, th)).ravel()))),
    "asCrossProductMatrixWrench": lambda I, th, a, n, c: res(I, crf(list(I.m_arr(mm(I, th)).ravel()))),
    "cross": id_cross, "first": lambda I, th, a, n, c: blk(I, mm(I, th), 0, 0, conc(I, *a)[0], 1),
    "last": lambda I, th, a, n, c: (lambda m, k: blk(I, m, I.shape(m)[0] - k, 0, k, 1))(mm(I, th), conc(I, *a)[0]),
    "fillBuffer": lambda I, th, a, n, c: None, "capacity": lambda I, th, a, n, c: m_size(I, th, a, n, c),
}


@ctor("iDynTree::VectorDynSize", "iDynTree::MatrixDynSize", "iDynTree::VectorFixSize", "iDynTree::MatrixFixSize", "iDynTree::Position",
      "iDynTree::GeomVector3", "iDynTree::Twist", "iDynTree::Wrench", "iDynTree::SpatialMomentum", "iDynTree::SpatialForceVector",
      "iDynTree::SpatialMotionVector", "iDynTree::SpatialAcc", "iDynTree::Direction", "iDynTree::PositionRaw", "iDynTree::LinearForceVector3", "iDynTree::AngularForceVector3")
def c_idvec(I, e, c, cls):
    args = [mm(I, x) for x in I.args(e, c)]
    s = strip_targs(cls)
    dyn = s.endswith("DynSize")
    if not args:
        return I.default(cls, cls, "vec")
    if dyn and all(isinstance(x, int) for x in args):
        # iDynTree fills freshly sized containers with zeros
        r, cc = (args[0], 1) if len(args) == 1 else args[:2]
        I.sized(r, cc)
        return I.mzero(r, cc, "dyn", s.endswith("VectorDynSize"))
    if isinstance(args[0], M):
        arrs = [I.m_arr(x) for x in args if isinstance(x, M)]
        if len(arrs) == 2 and arrs[0].shape == (3, 1):
            return I.mnew(np.vstack(arrs), "fix", True)
        m = I.mnew(arrs[0], "dyn" if dyn else "fix", args[0].vec)
        m.quat = args[0].quat
        return m
    if isinstance(args[0], Lst):
        return vec(I, [I.rd(lst_at(I, args[0], i)) for i in range(lst_len(I, args[0]))], "dyn")
    if all(scalar(x) for x in args):
        return vec(I, args)
    if isinstance(args[0], Ptr):
        if isinstance(args[0].t, LRef) and len(args) > 1 and isinstance(args[1], int):
            b, o = args[0].t.e, args[0].t.k
            return vec(I, [I.rd(LRef(b, o + i)) for i in range(args[1])], "dyn" if dyn else "fix")
    return NotImplemented


@ctor("iDynTree::Rotation", "iDynTree::RotationRaw")
def c_rot(I, e, c, cls):
    args = [mm(I, x) for x in I.args(e, c)]
    if not args:
        return rot_identity(I)
    if len(args) == 9 and all(scalar(x) for x in args):
        a = np.empty((3, 3), dtype=object)
        for i, v in enumerate(args):
            a.flat[i] = v
        return I.mnew(a, "fix", False)
    if len(args) == 1 and isinstance(args[0], M):
        m = I.mnew(I.m_arr(args[0]), "fix", False)
        m.quat = args[0].quat
        return m
    return NotImplemented


@model("iDynTree::Rotation::Identity")
def rot_id(I, th, a, n, c):
    return rot_identity(I)


@model("iDynTree::Rotation::RotationFromQuaternion")
def rot_fq(I, th, a, n, c):
    return rot_from_quat(I, list(I.m_arr(mm(I, a[0])).ravel()))


@model("iDynTree::Rotation::QuaternionRightTrivializedDerivativeInverse")
def qrtdi(I, th, a, n, c):
    """2 G(q) with G(q) = [-v, w I - skew... ]: omega = 2 G(q) qdot (right trivialised)"""
    q = list(I.m_arr(mm(I, a[0])).ravel())
    return res(I, ascale(G_right(q), 2.0))


def G_right(q):
    w, v = q[0], q[1:]
    out = azero(3, 4)
    s = skew3(v)
    for i in range(3):
        out[i, 0] = T.neg(v[i])
        for j in range(3):
            out[i, 1 + j] = T.add(w if i == j else 0.0, s[i, j])
    return out


@model("iDynTree::Rotation::QuaternionRightTrivializedDerivative")
def qrtd(I, th, a, n, c):
    q = list(I.m_arr(mm(I, a[0])).ravel())
    return res(I, ascale(G_right(q).T.copy(), 0.5))


@model("iDynTree::Rotation::RPY")
def rot_rpy(I, th, a, n, c):
    r, p, y = V(I, a)

    def ax(k, t):
        s, co = T.f1("sin", t), T.f1("cos", t)
        m = eye(3)
        i, j = [(1, 2), (2, 0), (0, 1)][k]
        m[i, i] = co
        m[j, j] = co
        m[i, j] = T.neg(s)
        m[j, i] = s
        return m
    return res(I, amul(ax(2, y), amul(ax(1, p), ax(0, r))))


@model("iDynTree::skew")
def m_skew(I, th, a, n, c):
    return res(I, skew3(list(I.m_arr(mm(I, a[0])).ravel())))


@model("iDynTree::unskew")
def m_unskew(I, th, a, n, c):
    A = I.m_arr(mm(I, a[0]))
    return vec(I, [T.mul(0.5, T.sub(A[2, 1], A[1, 2])), T.mul(0.5, T.sub(A[0, 2], A[2, 0])), T.mul(0.5, T.sub(A[1, 0], A[0, 1]))])


@model("iDynTree::Position::Zero")
def pos_zero(I, th, a, n, c):
    return I.mzero(3, 1, "fix", True)


@model("iDynTree::SpatialVector::Zero", "iDynTree::Twist::Zero", "iDynTree::Wrench::Zero")
def sv_zero(I, th, a, n, c):
    return I.mzero(6, 1, "fix", True)


# transforms
def tr_parts(I, t):
    t = I.rd(t)
    return I.m_arr(t.d["p"]), t.d["R"]


def tr_mul(I, th, a, n, c):
    x = I.rd(th)
    y = mm(I, a[0])
    p, R = tr_parts(I, x)
    RA = I.m_arr(R)
    if isinstance(y, Obj) and y.cls == "iDynTree::Transform":
        p2, R2 = tr_parts(I, y)
        return transform(I, res(I, aadd(p, amul(RA, p2))), rot_mul(I, R, R2))
    B = I.m_arr(y)
    if B.shape == (3, 1):
        if c is not None and c.pt and "Position" not in c.pt[0]:
            return res(I, amul(RA, B))
        return res(I, aadd(p, amul(RA, B)))
    if B.shape == (6, 1):
        force = c is not None and c.pt and ("Force" in c.pt[0] or "Momentum" in c.pt[0] or "Wrench" in c.pt[0])
        return res(I, amul(tr_adj(p, RA, force), B))
    if B.shape == (3, 3):
        return rot_mul(I, R, y)
    raise Abort("transform product")


def tr_adj(p, R, wrench=False):
    a = azero(6, 6)
    sp = amul(skew3(list(p.ravel())), R)
    a[:3, :3] = R
    a[3:, 3:] = R
    if wrench:
        a[3:, :3] = sp
    else:
        a[:3, 3:] = sp
    return a


def tr_inv(I, th, a, n, c):
    p, R = tr_parts(I, th)
    Ri = rot_inv(I, R)
    return transform(I, res(I, aew(T.neg, amul(I.m_arr(Ri), p))), Ri)


TRANSF = {
    "operator*": tr_mul, "inverse": tr_inv, "getPosition": lambda I, th, a, n, c: I.rd(th).d["p"], "getRotation": lambda I, th, a, n, c: I.rd(th).d["R"],
    "setPosition": lambda I, th, a, n, c: I.assign_ent(I.rd(th).d["p"], mm(I, a[0])), "setRotation": lambda I, th, a, n, c: I.assign_ent(I.rd(th).d["R"], mm(I, a[0])),
    "operator=": lambda I, th, a, n, c: I.assign_ent(I.rd(th), I.rd(a[0])) or th,
    "asAdjointTransform": lambda I, th, a, n, c: res(I, tr_adj(tr_parts(I, th)[0], I.m_arr(tr_parts(I, th)[1]))),
    "asAdjointTransformWrench": lambda I, th, a, n, c: res(I, tr_adj(tr_parts(I, th)[0], I.m_arr(tr_parts(I, th)[1]), True)),
    "toString": lambda I, th, a, n, c: "?",
}


@ctor("iDynTree::Transform")
def c_transform(I, e, c, cls):
    args = [mm(I, x) for x in I.args(e, c)]
    if not args:
        return I.default(cls, cls, "transform")
    if len(args) == 2:
        a, b = args
        if I.shape(a) == (3, 3):
            a, b = b, a
        return transform(I, I.copy_arr(a), I.copy_arr(b))
    if len(args) == 1 and isinstance(args[0], Obj):
        return I.copy(args[0])
    return NotImplemented


@model("iDynTree::Transform::Identity")
def tr_id(I, th, a, n, c):
    return transform(I, I.mzero(3, 1, "fix", True), rot_identity(I))


# index ranges
RANGE = {
    "isValid": lambda I, th, a, n, c: T.land(I.compare(">=", I.read(I.rd(th), "offset"), 0), I.compare(">=", I.read(I.rd(th), "size"), 0)),
    "operator=": lambda I, th, a, n, c: I.assign_ent(I.rd(th), I.rd(a[0])) or th,
}


@model("iDynTree::IndexRange::InvalidRange")
def invalid_range(I, th, a, n, c):
    o = Obj("iDynTree::IndexRange", I.guard)
    o.d = {"offset": -1, "size": -1}
    return o


# time ranges
TRANGE = {
    "initTime": lambda I, th, a, n, c: LRef(I.rd(th), "init"), "endTime": lambda I, th, a, n, c: LRef(I.rd(th), "end"),
    "length": lambda I, th, a, n, c: T.sub(I.read(I.rd(th), "end"), I.read(I.rd(th), "init")),
    "isInRange": lambda I, th, a, n, c: (lambda t, x: T.land(I.compare(">=", x, I.read(t, "init")), I.compare("<=", x, I.read(t, "end"))))(I.rd(th), I.rd(a[0])),
    "isValid": lambda I, th, a, n, c: I.compare("<=", I.read(I.rd(th), "init"), I.read(I.rd(th), "end")),
    "operator=": lambda I, th, a, n, c: I.assign_ent(I.rd(th), I.rd(a[0])) or th,
    "setTimeInterval": lambda I, th, a, n, c: tr_set(I, th, a),
    "isInstant": lambda I, th, a, n, c: T.eq(I.read(I.rd(th), "init"), I.read(I.rd(th), "end")),
    "operator==": lambda I, th, a, n, c: T.land(T.eq(I.read(I.rd(th), "init"), I.read(I.rd(a[0]), "init")), T.eq(I.read(I.rd(th), "end"), I.read(I.rd(a[0]), "end"))),
}


def tr_set(I, th, a):
    t = I.rd(th)
    x, y = V(I, a)
    ok = T.land(I.compare("<=", x, y), True)

    def put():
        I.write(t, "init", x)
        I.write(t, "end", y)
    ok = I.reduce(ok)
    if ok is True:
        put()
    elif ok is not False:
        I.under(ok, put)
    return ok


@ctor("iDynTree::optimalcontrol::TimeRange")
def c_timerange(I, e, c, cls):
    args = [I.rd(x) for x in I.args(e, c)]
    if len(args) == 2:
        return timerange(I, args[0], args[1])
    if not args:
        return timerange(I, 0.0, 0.0)
    return NotImplemented


@model("iDynTree::optimalcontrol::TimeRange::AnyTime")
def any_time(I, th, a, n, c):
    return timerange(I, -1.7976931348623157e308, 1.7976931348623157e308)


@model("iDynTree::optimalcontrol::TimeRange::Instant")
def tr_instant(I, th, a, n, c):
    t = I.rd(a[0])
    return timerange(I, t, t)


# sparsity
def spa_add(I, th, a, n, c):
    a = V(I, a)
    if isinstance(a[0], Sp):
        for k, v in a[0].d.items():
            if v is not False:
                I.write(th, k, v)
        return True
    if isinstance(a[0], Obj):
        a = [a[0].d.get("row"), a[0].d.get("col")]
    r, cc = conc(I, *a)
    I.write(th, (r, cc), True)
    I.event("spadd", sp=th, entries=[(r, cc)])


def spa_dense(I, th, a, n, c):
    a = V(I, a)
    if isinstance(a[0], Obj):
        r0, nr = conc(I, a[0].d["offset"], a[0].d["size"])
        c0, nc = conc(I, a[1].d["offset"], a[1].d["size"])
    else:
        r0, c0, nr, nc = conc(I, *a)
    for i in range(nr):
        for j in range(nc):
            I.write(th, (r0 + i, c0 + j), True)


def spa_ident(I, th, a, n, c):
    r0, c0, k = conc(I, *V(I, a))
    for i in range(k):
        I.write(th, (r0 + i, c0 + i), True)


def spa_has(I, th, a, n, c):
    r, cc = conc(I, *V(I, a))
    return th.d.get((r, cc), False)


def spa_assign(I, th, a, n, c):
    v = I.rd(a[0])
    if isinstance(v, Ch):
        I.assign(th, v)
    else:
        I.assign_ent(th, v)
    return th


def spa_clear(I, th, a, n, c):
    for k in list(th.d):
        I.write(th, k, False)
        if th.d[k] is False:
            del th.d[k]


SPARS = {"add": spa_add, "addDenseBlock": spa_dense, "addIdentityBlock": spa_ident, "clear": spa_clear, "operator=": spa_assign, "merge": spa_add,
         "isValuePresent": spa_has, "size": lambda I, th, a, n, c: len(th.d), "reserve": lambda I, th, a, n, c: None, "resize": lambda I, th, a, n, c: None,
         "addDenseBlockAt": spa_dense}


# ------------------------------------------------------------------ optimal-control interfaces
def b_constraint(I, o, args):
    n = args[0] if args else 0
    if isinstance(n, int):
        o.d["m_lowerBound"] = I.muninit(n, 1, "dyn", "lowerBound", True)
        o.d["m_upperBound"] = I.muninit(n, 1, "dyn", "upperBound", True)
    o.d["m_isLowerBounded"] = False
    o.d["m_isUpperBounded"] = False
    o.d["#size"] = n
    o.d["#name"] = args[1] if len(args) > 1 else "?"


BASES["iDynTree::optimalcontrol::Constraint"] = b_constraint


def b_cost(I, o, args):
    o.d["#name"] = args[0] if args else "?"


BASES["iDynTree::optimalcontrol::Cost"] = b_cost


def b_dyn(I, o, args):
    ns, nc = args[:2]
    o.d["#ns"], o.d["#nc"] = ns, nc
    if isinstance(nc, int):
        o.d["#control"] = vec(I, [T.atom("control[%d]" % i) for i in range(nc)], "dyn")


BASES["iDynTree::optimalcontrol::DynamicalSystem"] = b_dyn

OBJM = {
    "constraintSize": lambda I, th, a, n, c: I.rd(th).d.get("#size", 0), "name": lambda I, th, a, n, c: I.rd(th).d.get("#name", "?"),
    "controlInput": lambda I, th, a, n, c: I.rd(th).d["#control"], "stateSpaceSize": lambda I, th, a, n, c: I.rd(th).d["#ns"],
    "controlSpaceSize": lambda I, th, a, n, c: I.rd(th).d["#nc"],
    "isLowerBounded": lambda I, th, a, n, c: I.rd(th).d.get("m_isLowerBounded"), "isUpperBounded": lambda I, th, a, n, c: I.rd(th).d.get("m_isUpperBounded"),
    "setLowerBound": lambda I, th, a, n, c: set_bound(I, th, a, "m_lowerBound", "m_isLowerBounded"),
    "setUpperBound": lambda I, th, a, n, c: set_bound(I, th, a, "m_upperBound", "m_isUpperBounded"),
    "getLowerBound": lambda I, th, a, n, c: I.assign(I.rd(a[0]), I.rd(th).d["m_lowerBound"]) or I.rd(th).d["m_isLowerBounded"],
    "getUpperBound": lambda I, th, a, n, c: I.assign(I.rd(a[0]), I.rd(th).d["m_upperBound"]) or I.rd(th).d["m_isUpperBounded"],
}


def set_bound(I, th, a, f, g):
    o = I.rd(th)
    I.assign_ent(o.d[f], mm(I, a[0]))
    I.write(o, g, True)
    return True


@model("iDynTree::optimalcontrol::DynamicalSystem::controlInput")
def ctrl_input(I, th, a, n, c):
    return I.rd(th).d["#control"]


@model("iDynTree::checkDoublesAreEqual")
def chk_eq(I, th, a, n, c):
    x, y = V(I, a[:2])
    tol = I.rd(a[2]) if len(a) > 2 else 1e-6
    return I.compare("<=", T.f1("abs", T.sub(x, y)), tol)


# ------------------------------------------------------------------ levi
def le(I, x):
    if isinstance(x, LE):
        return x
    if isinstance(x, LVar):
        a = np.empty((x.dim, 1), dtype=object)
        for i in range(x.dim):
            a[i, 0] = x.atoms[i]
        return LE(a, [x], x.name)
    if isinstance(x, M):
        return LE(I.m_arr(x))
    if scalar(x):
        a = np.empty((1, 1), dtype=object)
        a[0, 0] = x
        return LE(a)
    if isinstance(x, Obj) and x.cls == "#levimut":
        v, (r, c) = x.d["v"], x.d["shape"]
        a = np.empty((r, c), dtype=object)
        for i in range(r):
            for j in range(c):
                a[i, j] = v.atoms[i * c + j]
        return LE(a, [v], v.name)
    raise Abort("levi operand %r" % (x,))


class LEO(LE):
    """expression backed by an object of one of the repository's evaluable classes;
    its value is what the object's evaluate() returns"""
    __slots__ = ("I", "obj", "_a")

    def __init__(self, I, obj):
        self.I, self.obj, self._a = I, obj, None
        self.name = obj.d.get("#name", "")

    @property
    def vars(self):
        return frozenset(self.obj.d.get("#deps", ()))

    @property
    def shape(self):
        return self.obj.d["#rows"], self.obj.d["#cols"]

    @property
    def a(self):
        if self._a is None:
            v = self.I.rd(lev_call(self.I, self.obj, "evaluate", []))
            a = np.array(self.I.m_arr(v), dtype=object, copy=True)
            r, c = self.shape
            if a.shape != (r, c):
                self.I.event("shape", what="%s is declared %dx%d and evaluates to %dx%d" % ((self.name, r, c) + a.shape))
                raise Abort("shape of " + self.name)
            self._a = a
        return self._a

    def has(self, name):
        return bool(self.I.P.method(self.obj.cls, name))


def lev_call(I, obj, name, args):
    fs = I.P.method(obj.cls, name)
    if not fs:
        raise Abort("%s::%s" % (obj.cls, name))
    fs = [f for f in fs if len(f.params) == len(args)] or fs
    I.called["levi:" + obj.cls + "::" + name] = 1
    return I.call_fn(fs[0], obj, list(args))


def lev_derivative(I, x, col, v):
    """what levi's Evaluable returns for the derivative of a column"""
    r, c = x.shape
    if x.has("getColumnDerivative"):
        d = lev_call(I, x.obj, "getColumnDerivative", [col, v])
    elif v in all_vars(x):
        d = lev_call(I, x.obj, "getNewColumnDerivative", [col, v]) if x.has("getNewColumnDerivative") else LE(np.empty((0, 0), dtype=object))
    else:
        return LE(azero(r, v.dim))
    d = lv_val(I, d)
    return d if isinstance(d, LE) else le(I, d)


def b_evaluable(I, o, args):
    mt = (targs(I.base_type or "") or [""])[0]
    sc = mt == "double"
    name = args[-1] if args and isinstance(args[-1], str) else "?"
    if len(args) == 3 and isinstance(args[0], int) and isinstance(args[1], int):
        r, c = (1, 1) if sc else args[:2]
    elif len(args) == 2 and (isinstance(args[0], M) or sc):
        init = I.m_arr(args[0]) if isinstance(args[0], M) else np.array([[args[0]]], dtype=object)
        r, c = init.shape
    elif len(args) == 1 and not isinstance(args[0], M) and (sc or "Matrix<" in mt):
        r, c = (1, 1) if sc else [max(0, x) for x in eig_dims(mt)]
    else:
        raise Abort("levi::Evaluable constructor %r %r" % (I.base_type, args))
    o.d["#rows"], o.d["#cols"] = r, c
    o.d["#name"] = name
    if sc:
        o.d["m_evaluationBuffer"] = args[0] if len(args) == 2 else 0.0
    else:
        m = I.mnew(azero(r, c) if len(args) != 2 else init, "dyn", False)
        m.fresh = False
        o.d["m_evaluationBuffer"] = m
    o.d["m_derivativeBuffer"] = MapV("", I.guard)
    info = Obj("#leviinfo", I.guard)
    info.d["block"] = Obj("#leviblock", I.guard)
    o.d["m_info"] = Ptr(info)
    o.d["#deps"] = set()


BASES["levi::Evaluable"] = b_evaluable


def lv_deps(I, th, a, n, c):
    o = I.rd(th)
    for x in a:
        v = lv_val(I, x)
        o.d["#deps"] |= {v} if isinstance(v, LVar) else set(le(I, v).vars)


def this_obj(I, th):
    o = I.rd(th)
    return o if isinstance(o, Obj) and "#deps" in o.d else None


def le_bin(I, op, x, y):
    x, y = le(I, x), le(I, y)
    vs = x.vars | y.vars
    A, B = x.a, y.a
    if op == "*":
        if A.shape == (1, 1) and B.shape[0] != 1:
            return LE(ascale(B, A[0, 0]), vs)
        if B.shape == (1, 1) and A.shape[1] != 1:
            return LE(ascale(A, B[0, 0]), vs)
        if A.shape == (1, 1) and B.shape[0] == 1:
            return LE(ascale(B, A[0, 0]), vs)
        if A.shape[1] != B.shape[0]:
            I.event("shape", what="expression product of %dx%d and %dx%d" % (A.shape + B.shape))
            raise Abort("shape mismatch")
        return LE(amul(A, B), vs)
    if op == "/":
        return LE(aew(lambda v: T.div(v, B[0, 0]), A), vs)
    if A.shape != B.shape:
        I.event("shape", what="expression %s on %dx%d and %dx%d" % ((op,) + A.shape + B.shape))
        raise Abort("shape mismatch")
    return LE(aadd(A, B) if op == "+" else asub(A, B), vs)


def le_neg(I, x):
    return LE(aew(T.neg, x.a), x.vars)


def lv_of(I, x):
    x = I.rd(x)
    if isinstance(x, Ptr):
        x = x.t
    return x


def le_eval(I, x, names=None):
    """value of an expression with the variables' current values"""
    x = le(I, x)
    if I.opt.get("levi_atoms"):
        return x.a
    m = {}
    for v in x.vars:
        vals = le_eval(I, v.deff).ravel() if v.deff is not None else [I.read(v, i) for i in range(v.dim)]
        for at, val in zip(v.atoms, vals):
            m[at] = val
    memo = {}
    return aew(lambda t: T.subst(t, m, memo) if T.isn(t) else t, x.a)


def le_expand(x, keep=None, indep=False):
    """replace variables standing for expressions (except `keep` and, unless asked for,
    the ones declared independent) by those expressions"""
    while True:
        vs = [v for v in x.vars if v.deff is not None and v is not keep and (indep or not v.indep)]
        if not vs:
            return x
        m, new = {}, set(v for v in x.vars if v not in vs)
        for v in vs:
            new |= v.deff.vars
            for at, val in zip(v.atoms, v.deff.a.ravel()):
                m[at] = val
        memo = {}
        x = LE(aew(lambda t: T.subst(t, m, memo) if T.isn(t) else t, x.a), new, x.name)


def all_vars(e):
    out, stack = set(), list(e.vars)
    while stack:
        v = stack.pop()
        if v not in out:
            out.add(v)
            if v.deff is not None and not v.indep:
                stack.extend(v.deff.vars)
    return out


def lv_binop(op):
    def f(I, th, a, n, c):
        args = ([th] if th is not None else []) + list(a)
        args = [lv_val(I, x) for x in args]
        if len(args) == 1:
            return le_neg(I, le(I, args[0]))
        return le_bin(I, op, args[0], args[1])
    return f


def lv_val(I, x):
    x = I.rd(x)
    if isinstance(x, Ch):
        a, b = le(I, lv_val(I, x.a)), le(I, lv_val(I, x.b))
        return I.merge(x.c, a, b)
    return x


def lv_evaluate(I, th, a, n, c):
    x = lv_val(I, th)
    arr = le_eval(I, x)
    I.event("levi_eval", expr=x)
    if c is not None and clean_type(c.ret or "") == "double" and arr.shape == (1, 1):
        return arr[0, 0]
    return I.mnew(arr, "dyn", arr.shape[1] == 1)


def lv_coldiff(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    col = I.rd(a[0])
    if not isinstance(col, int):
        raise Abort("unknown column")
    v = lv_of(I, a[1])
    if isinstance(v, Ch):
        v = lv_val(I, v)
    if not isinstance(v, LVar):
        raise Abort("derivative with respect to %r" % (v,))
    if isinstance(x, LEO):
        return lev_derivative(I, x, col, v)
    if col < 0 or col >= x.a.shape[1]:
        I.wild("oob", "derivative of column %d of %d" % (col, x.a.shape[1]), "column")
    if v.deff is not None:
        x = le_expand(x, v) if any(w.deff is not None and not w.indep and v in all_vars(w.deff) for w in x.vars if w is not v) else x
    else:
        x = le_expand(x)
    out = azero(x.a.shape[0], v.dim)
    for i in range(x.a.shape[0]):
        t = x.a[i, col]
        for j, at in enumerate(v.atoms):
            d = T.diff(t, at)
            out[i, j] = float(d) if T.num(d) else d
    return LE(out, x.vars | {v})


def lv_col(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    i = conc(I, a[0])[0]
    if isinstance(x, LEO) and x.has("col"):
        return lv_val(I, lev_call(I, x.obj, "col", [i]))
    if i < 0 or i >= x.a.shape[1]:
        I.wild("oob", "column %d of an expression with %d" % (i, x.a.shape[1]), "column")
    return LE(x.a[:, i:i + 1], x.vars)


def lv_block(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    r0, c0, nr, nc = conc(I, *a)
    if r0 + nr > x.a.shape[0] or c0 + nc > x.a.shape[1]:
        I.wild("oob", "expression block", "block out of range")
    return LE(x.a[r0:r0 + nr, c0:c0 + nc], x.vars)


def lv_cat(axis):
    def f(I, th, a, n, c):
        items = I.rd(a[0])
        if isinstance(items, Lst):
            xs = [le(I, lv_val(I, lst_at(I, items, i))) for i in range(lst_len(I, items))]
        else:
            xs = [le(I, lv_val(I, x)) for x in a if not isinstance(I.rd(x), str)]
        vs = frozenset()
        for x in xs:
            vs |= x.vars
        nm = [I.rd(x) for x in a if isinstance(I.rd(x), str)]
        try:
            return LE(np.concatenate([x.a for x in xs], axis=axis), vs, nm[0] if nm else "")
        except ValueError:
            I.event("shape", what="concatenation of expressions with different shapes")
            raise Abort("shape mismatch")
    return f


def lv_pow(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    e = I.rd(a[0])
    return LE(aew(lambda v: T.pw(v, e), x.a), x.vars)


def lv_skew(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    return LE(skew3(list(x.a.ravel())), x.vars)


def lv_vee(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    A = x.a
    out = np.empty((3, 1), dtype=object)
    out[0, 0], out[1, 0], out[2, 0] = A[2, 1], A[0, 2], A[1, 0]
    return LE(out, x.vars)


def lv_asvar(I, th, a, n, c):
    """variable standing for the expression's value"""
    x = lv_val(I, th)
    indep = c.n == "asIndependentVariable"
    if isinstance(x, LVar) and (not indep or x.deff is None or x.indep):
        return x
    x = le(I, x)
    cache = I.asvars
    if (id(x), indep) not in cache:
        v = LVar(x.name or "asVar%d" % len(cache), x.a.shape[0], I.guard)
        v.deff = x
        v.indep = indep
        cache[id(x), indep] = (x, v)
    return cache[id(x), indep][1]


def lv_assign(I, th, a, n, c):
    t = I.rd(th)
    v = I.rd(a[0])
    if isinstance(t, Obj) and t.cls == "#levimut":
        arr = I.m_arr(v) if isinstance(v, M) else np.array([[v]], dtype=object) if scalar(v) else None
        if arr is None or arr.shape != t.d["shape"]:
            raise Abort("assignment of %r to a levi mutable" % (v,))
        for i, x in enumerate(arr.ravel()):
            I.write(t.d["v"], i, x)
        return th
    if isinstance(t, LVar):
        if isinstance(v, LVar):
            if isinstance(th, LRef):
                I.assign(th, v)
                return th
            raise Abort("assignment between variables")
        if isinstance(v, M):
            I.lv_assign(t, v)
        elif isinstance(v, LE):
            if isinstance(th, LRef):
                I.assign(th, v)
                return th
            raise Abort("variable redefined")
        elif scalar(v):
            for i in range(t.dim):
                I.write(t, i, v)
        else:
            raise Abort("assignment of %r to a variable" % (v,))
        return th
    if isinstance(v, M):
        v = LE(I.m_arr(v))
    if isinstance(v, Obj) and v.cls == "#levimut":
        I.assign(th, v)
        return th
    I.assign(th, v)
    return th


def lv_elem(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    p = conc(I, *a)
    r, cc = (p + [0])[:2]
    if isinstance(x, LEO) and x.has("element"):
        return lv_val(I, lev_call(I, x.obj, "element", [r, cc]))
    return LE(x.a[r:r + 1, cc:cc + 1], x.vars)


def lv_dep(I, th, a, n, c):
    x = le(I, lv_val(I, th))
    v = lv_of(I, a[0])
    if isinstance(x, LEO):
        return v in all_vars(x)
    if v.deff is None:
        x = le_expand(x)
    s = set(v.atoms)
    return any(T.isn(t) and (T.atoms_of(t) & s) for t in x.a.flat)


def lv_shape(I, th):
    o = this_obj(I, th)
    if o is not None:
        b = I.rd(o.d["m_evaluationBuffer"])
        return I.shape(b) if isinstance(b, M) else (1, 1)
    x = lv_val(I, th)
    if isinstance(x, LVar):
        return x.dim, 1
    return x.shape if isinstance(x, LEO) else le(I, x).a.shape


_L = "levi::ExpressionComponent::"
for _n, _fx in {
    "operator+": lv_binop("+"), "operator-": lv_binop("-"), "operator*": lv_binop("*"), "operator/": lv_binop("/"),
    "evaluate": lv_evaluate, "evaluateID": lv_evaluate, "getColumnDerivative": lv_coldiff, "block": lv_block, "Vertcat": lv_cat(0), "Horzcat": lv_cat(1),
    "pow": lv_pow, "skew": lv_skew, "vee": lv_vee, "asVariable": lv_asvar, "asIndependentVariable": lv_asvar, "operator=": lv_assign,
    "col": lv_col, "addDependencies": lv_deps,
    "row": lambda I, th, a, n, c: (lambda x, i: LE(x.a[i:i + 1, :], x.vars))(le(I, lv_val(I, th)), conc(I, a[0])[0]),
    "transpose": lambda I, th, a, n, c: (lambda x: LE(x.a.T, x.vars))(le(I, lv_val(I, th))), "operator()": lv_elem,
    "rows": lambda I, th, a, n, c: lv_shape(I, th)[0], "cols": lambda I, th, a, n, c: lv_shape(I, th)[1],
    "isDependentFrom": lv_dep, "isValidExpression": lambda I, th, a, n, c: isinstance(I.rd(th), (LVar, LEO)) or (isinstance(I.rd(th), LE) and I.rd(th).a.size > 0),
    "name": lambda I, th, a, n, c: getattr(I.rd(th), "name", "levi"), "clearDerivativesCache": lambda I, th, a, n, c: None,
    "variableName": lambda I, th, a, n, c: I.rd(th).name, "dimension": lambda I, th, a, n, c: I.rd(th).dim,
}.items():
    MODELS[_L + _n] = _fx


MODELS["levi::ComposeByRows"] = lambda I, th, a, n, c: lv_cat(0)(I, th, a, n, c)
MODELS["levi::ComposeByCols"] = lambda I, th, a, n, c: lv_cat(1)(I, th, a, n, c)


@model("levi::MatrixProductDerivativeExpression")
def lv_matprod(I, th, a, n, c):
    """derivative of a matrix with respect to a variable, times a vector"""
    l, r, v = le(I, lv_val(I, a[0])), le(I, lv_val(I, a[1])), lv_of(I, a[2])
    if not isinstance(v, LVar):
        raise Abort("derivative with respect to %r" % (v,))
    L, R = l.a, r.a
    if L.shape[1] != R.shape[0]:
        I.event("shape", what="derivative of a product of %dx%d and %dx%d" % (L.shape + R.shape))
        raise Abort("shape mismatch")
    out = azero(L.shape[0], v.dim)
    for q in range(L.shape[1]):
        d = lv_coldiff(I, LE(L, l.vars), [q, v], n, c).a
        out = aadd(out, ascale(d, R[q, 0]))
    return LE(out, l.vars | r.vars | {v})


@model("levi::VariableBase::variableName")
def lvb_name(I, th, a, n, c):
    return lv_of(I, th).name


@model("levi::VariableBase::dimension")
def lvb_dim(I, th, a, n, c):
    return lv_of(I, th).dim


@model("levi::unused")
def lv_unused(I, th, a, n, c):
    return None


@ctor("levi::ExpressionComponent")
def c_levi(I, e, c, cls):
    ar = I.args(e, c)
    args = [I.rd(x) for x in ar]
    inner = targs(cls or c.cls or "")[0] if "<" in (cls or c.cls or "") else ""
    si = strip_targs(inner)
    if not args:
        if si in ("levi::IdentityEvaluable", "levi::NullEvaluable") and inner.endswith("<double>"):
            return LE(eye(1) if si == "levi::IdentityEvaluable" else azero(1, 1))
        return LE(np.empty((0, 0), dtype=object))
    if len(args) == 1 and isinstance(args[0], (LE, LVar)):
        return args[0]
    if len(args) == 1 and isinstance(args[0], Ch):
        return args[0]
    if len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == "#levimut":
        return args[0]
    if si == "levi::EvaluableVariable":
        if isinstance(args[0], int) and len(args) > 1:
            return LVar(args[1], args[0], I.guard)
        if isinstance(args[0], str):
            return LVar(args[0], 1, I.guard)
    if si == "levi::NullEvaluable":
        r, cc = conc(I, *args[:2])
        return LE(azero(r, cc))
    if si in ("levi::TwoElementsMatrix", "levi::SingleElementMatrix"):
        r, cc = conc(I, *args[:2])
        out, vs = azero(r, cc), frozenset()
        for t in args[2:]:
            if isinstance(t, Obj):
                i, j = conc(I, I.read(t, "row"), I.read(t, "col"))
                x = le(I, lv_val(I, I.read(t, "value")))
                out[i, j] = x.a[0, 0]
                vs |= x.vars
            elif isinstance(t, Lst) and lst_len(I, t) == 3:
                i, j = conc(I, lst_at(I, t, 0), lst_at(I, t, 1))
                x = le(I, lv_val(I, lst_at(I, t, 2)))
                out[i, j] = x.a[0, 0]
                vs |= x.vars
            elif not isinstance(t, (str, T.N)):
                raise Abort("element %r" % (t,))
        return LE(out, vs)
    if si == "levi::IdentityEvaluable":
        r, cc = conc(I, *args[:2])
        return LE(eye(max(r, cc))[:r, :cc])
    if si == "levi::ConstantEvaluable":
        if isinstance(args[0], M):
            return LE(I.m_arr(args[0]))
        if scalar(args[0]):
            return LE(np.array([[args[0]]], dtype=object))
    if si in ("levi::RowEvaluable", "levi::ColEvaluable", "levi::ElementEvaluable", "levi::BlockEvaluable", "levi::CastEvaluable") and isinstance(args[0], (LE, LVar)):
        x = le(I, args[0])
        ix = conc(I, *[t for t in args[1:] if not isinstance(t, str)])
        nm = si.split("::")[1][:-len("Evaluable")]
        lo, n = {"Row": lambda: ((ix[0], 0), (1, x.a.shape[1])), "Col": lambda: ((0, ix[0]), (x.a.shape[0], 1)), "Element": lambda: (ix[:2], (1, 1)),
                 "Block": lambda: (ix[:2], ix[2:4]), "Cast": lambda: ((0, 0), x.a.shape)}[nm]()
        if any(b < 0 or k < 0 or b + k > m for b, k, m in zip(lo, n, x.a.shape)):
            I.event("index", what="%s (%d, %d) of size %dx%d of an expression of size %dx%d" % ((nm.lower(),) + tuple(lo) + tuple(n) + tuple(x.a.shape)))
            raise Abort("part out of the expression")
        return LE(x.a[lo[0]:lo[0] + n[0], lo[1]:lo[1] + n[1]], x.vars)
    if si == "levi::MutableEvaluable":
        o = Obj("#levimut", I.guard)
        name = ([x for x in args if isinstance(x, str)] or ["mutable"])[0]
        if isinstance(args[0], M):
            init = I.m_arr(args[0])
        elif len([x for x in args if isinstance(x, int)]) >= 1 and isinstance(args[0], int) and not inner.endswith("double>"):
            d = conc(I, *[x for x in args if isinstance(x, int)])
            init = azero(*(d + [1])[:2])
        else:
            init = np.array([[args[0]]], dtype=object)
        o.d["shape"] = init.shape
        o.d["v"] = LVar(name, init.size, I.guard)
        for i, x in enumerate(init.ravel()):
            o.d["v"].d[i] = x
        return o
    h = I.hooks.get("levi:" + si)
    if h:
        return h(I, None, ar, e, c)
    if inner in I.P.records and "levi::Evaluable" in I.P.record(inner)["bases"]:
        fs = [f for f in I.P.methods(inner) if f.ctor == "other" and len(f.params) >= len(ar)]
        if not fs:
            raise Abort("constructor of " + inner)
        fs.sort(key=lambda f: len(f.params))
        o = I.construct(fs[0], inner, ar)
        o.fresh = False
        return LEO(I, o)
    if scalar(args[0]):
        return LE(np.array([[args[0]]], dtype=object))
    if isinstance(args[0], M):
        return LE(I.m_arr(args[0]))
    raise Abort("levi constructor of " + inner)
