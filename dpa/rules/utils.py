"""C20 references, C21 labeller, C22 state and control containers, C23 rectangular foot, C24 quaternion functions,
C25 activation functions, C26 walking state machine, C27 choice of the nearest kinematics.

Each public method is interpreted once over symbolic inputs; the value graph of its results is compared with a formula.
"""
import numpy as np

from .. import terms as T
from .. import kin
from ..interp import Abort, Ch, Endless, Ent, Lst, M, Obj, Opq, Ptr, LRef
from ..models import eye, amul, aadd, asub, aew, ascale, skew3, lst_from, qmul, timerange, transform, tvo, vec, rot_from_quat
from ..program import Program
from ..report import Res
from ..solverlib import tv_get
from ..world import PNS, Broken, World

NS = "DynamicalPlanner::"
A = T.atom
add, sub, mul, div, neg, ite, land, lnot = T.add, T.sub, T.mul, T.div, T.neg, T.ite, T.land, T.lnot


def tot(xs):
    t = 0
    for x in xs:
        t = add(t, x)
    return t


def dot(a, b):
    return tot(mul(x, y) for x, y in zip(a, b))


def nrm(a):
    return T.f1("sqrt", dot(a, a))


def ats(name, n):
    return [A("%s[%d]" % (name, i)) for i in range(n)]


class U:
    """one analysis: an interpreter, a result and comparison helpers"""

    def __init__(self, P, res=None):
        self.P, self.res = P, res or Res()
        self.w = World(P)
        self.I = self.w.I
        self.val = None

    def free(self, qn, args):
        f = [x for x in self.P.find(qn, len(args)) if not any("Expression" in p.get("t", "") or "Evaluable" in p.get("t", "") for p in x.params)]
        if not f:
            raise Broken(qn)
        self.where = "%s:%s" % (f[0].file, f[0].line)
        self.res.site(qn)
        return self.I.rd(self.I.call_fn(f[0], None, args))

    def call(self, o, name, args, cls=None):
        fs = [f for f in self.P.method(o.cls, name) if len(f.params) == len(args)]
        if not fs:
            raise Broken("%s::%s" % (o.cls, name))
        self.where = "%s:%s" % (fs[0].file, fs[0].line)
        self.res.site("%s::%s" % (o.cls.replace(NS, ""), name))
        return self.I.rd(self.I.call_fn(fs[0], o, args))

    def overload(self, o, name, args, pick):
        fs = [f for f in self.P.method(o.cls, name) if len(f.params) == len(args) and pick(f)]
        if not fs:
            raise Broken("%s::%s" % (o.cls, name))
        self.where = "%s:%s" % (fs[0].file, fs[0].line)
        self.res.site("%s::%s" % (o.cls.replace(NS, ""), name))
        return self.I.rd(self.I.call_fn(fs[0], o, args))

    def ctor(self, cls, args):
        return self.w.ctor(cls if "::" in cls else NS + cls, args)

    def arr(self, v):
        return self.I.m_arr(self.I.rd(v))

    def flat(self, v):
        v = self.I.rd(v)
        return list(self.I.m_arr(v).ravel()) if isinstance(v, M) else [v]

    def eq(self, key, got, want, text=None, cond=True):
        """componentwise equality"""
        got = self.flat(got) if isinstance(got, M) else list(np.array(got, dtype=object).ravel()) if isinstance(got, (list, np.ndarray)) else [got]
        want = list(np.array(want, dtype=object).ravel()) if isinstance(want, (list, np.ndarray)) else [want]
        if len(got) != len(want):
            self.res.bad(key, self.where, "%d values instead of %d" % (len(got), len(want)))
            return
        bad = None
        for i, (g, w) in enumerate(zip(got, want)):
            g = self.I.rd(g)
            if isinstance(g, (Ch, Ent)):
                self.res.undecided(key)
                return
            if self.val is not None and cond is True:
                r = T.equal(g, w, self.val)
            else:
                r = T.equal_if(cond, g, w)
            if r is None:
                self.res.undecided(key)
                return
            if r is False and bad is None:
                bad = "%scomponent %d is %s instead of %s" % (text + ": " if text else "", i, show(g), show(w))
            elif r:
                self.res.good()
        if bad:
            self.res.bad(key, self.where, bad)

    def vec(self, name, n, kind="fix"):
        return vec(self.I, ats(name, n), kind)

    def get(self, p, t):
        """value and validity of a time varying object"""
        return tv_get(self.I, p, t)


def show(x):
    return T.show(x, 4)[:140] if T.isn(x) else repr(x)


def fill(I, v, name, d, k):
    """replace every number held by an entity with an atom"""
    if isinstance(v, M):
        r, c = I.shape(v)
        a = np.empty((r, c), dtype=object)
        for i in np.ndindex(r, c):
            a[i] = A("%s[%d]" % (name, i[0] * c + i[1]))
        if v.quat is not None or (r, c) == (3, 3):
            q = ats(name + ".q", 4)
            n = nrm(q)
            I.m_assign(v, rot_from_quat(I, [div(x, n) for x in q]))
        else:
            I.m_store(v, a)
        return
    if isinstance(v, Ptr):
        v = v.t
    if isinstance(v, Lst):
        for i in range(v.d["#n"]):
            x = v.d[i]
            if isinstance(x, Ent):
                fill(I, x, "%s%d" % (name, i), v.d, i)
            else:
                v.d[i] = A("%s%d" % (name, i))
        return
    if isinstance(v, Obj):
        for f in list(v.d):
            x = v.d[f]
            if isinstance(x, (M, Lst, Obj)):
                fill(I, x, "%s.%s" % (name, f), v.d, f)
            elif isinstance(x, (int, float)) or T.isn(x):
                v.d[f] = A("%s.%s" % (name, f))


# ---------------------------------------------------------------------------------------------- C25
def activation(P, tier, cls):
    u = U(P)
    x, k = A("x"), A("k")
    name = cls[-6:] == "Secant" and "secant" or "tangent"

    def base(s, y):
        return div(1, T.f1("cosh", mul(s, y))) if name == "secant" else T.f1("tanh", mul(s, y))

    def three(o, s, tag):
        want = base(s, x)
        u.eq("%s value %s" % (cls, tag), u.call(o, "eval", [x]), want)
        u.eq("%s first derivative %s" % (cls, tag), u.call(o, "evalDerivative", [x]), T.diff(want, x))
        u.eq("%s second derivative %s" % (cls, tag), u.call(o, "evalDoubleDerivative", [x]), T.diff(T.diff(want, x), x))
    o = u.I.construct_default(PNS + cls)
    three(o, 1, "with the default scaling")
    u.call(o, "setScaling", [k])
    three(o, k, "with a scaling")
    u.call(o, "setScaling", [A("k2")])
    three(o, A("k2"), "after a second scaling")
    for tag, args, v in (("disabled", [], 1), ("disabled at a value", [A("c")], A("c"))):
        o = u.I.construct_default(PNS + cls)
        u.call(o, "setScaling", [k])
        f = [g for g in P.method(o.cls, "disable")]
        if not f:
            raise Broken(cls + "::disable")
        # the default argument is the declared one: it is an int or double literal in the class
        u.I.call_fn(f[0], o, args if args else [1.0])
        for again in (False, True):
            if again:
                u.call(o, "setScaling", [A("k2")])
            u.eq("%s %s" % (cls, tag), u.call(o, "eval", [x]), v)
            u.eq("%s %s, derivative" % (cls, tag), u.call(o, "evalDerivative", [x]), 0)
            u.eq("%s %s, second derivative" % (cls, tag), u.call(o, "evalDoubleDerivative", [x]), 0)
        for v2 in (A("c2"), 1.0, A("c3")):
            u.I.call_fn(f[0], o, [v2])
            u.eq("%s disabled again" % cls, u.call(o, "eval", [x]), v2)
            u.eq("%s disabled again, derivative" % cls, u.call(o, "evalDerivative", [x]), 0)
            u.eq("%s disabled again, second derivative" % cls, u.call(o, "evalDoubleDerivative", [x]), 0)
    return u.res


# ---------------------------------------------------------------------------------------------- C24
def Rq(q):
    """I + 2 w [r]x + 2 [r]x [r]x"""
    s = skew3(q[1:])
    return aadd(eye(3), aadd(ascale(s, mul(2, q[0])), ascale(amul(s, s), 2)))


def jac(vals, xs):
    out = np.empty((len(vals), len(xs)), dtype=object)
    for i, v in enumerate(vals):
        for j, x in enumerate(xs):
            out[i, j] = T.diff(v, x)
    return out


def quaternions(P, tier, only):
    """one of the quaternion functions"""
    u = U(P)
    u.I.opt["all_inputs"] = True
    q, w, d = ats("q", 4), ats("w", 3), ats("d", 4)
    qv = lambda: vec(u.I, q)
    conj = [q[0]] + [neg(x) for x in q[1:]]
    E = lambda *args: u.free(PNS + only, list(args))
    rate = [mul(0.5, x) for x in qmul(q, [0] + w)]
    om = [mul(2, x) for x in qmul(conj, d)[1:]]
    nq = nrm(q)
    if only == "QuaternionLeftTrivializedDerivative":
        G = u.arr(E(qv()))
        u.eq(only, list(amul(G, np.array(w, dtype=object).reshape(3, 1)).ravel()), rate, "applied to an angular velocity it is not the quaternion rate")
    elif only == "QuaternionLeftTrivializedDerivativeInverse":
        GI = u.arr(E(qv()))
        u.eq(only, list(amul(GI, np.array(d, dtype=object).reshape(4, 1)).ravel()), om, "applied to a quaternion rate it is not the angular velocity")
    elif only == "NormalizedQuaternion":
        u.eq(only, E(qv()), [div(x, nq) for x in q])
    elif only == "QuaternionNorm":
        u.eq(only, E(qv()), nq)
    elif only == "QuaternionSquaredNorm":
        u.eq(only, E(qv()), dot(q, q))
    elif only == "NormalizedQuaternionDerivative":
        u.eq(only, E(qv()), jac([div(x, nq) for x in q], q))
    elif only == "QuaternionLeftTrivializedDerivativeTimesOmegaJacobian":
        u.eq(only, E(vec(u.I, w)), jac(rate, q))
    elif only == "RotatedVectorQuaternionJacobian":
        x = ats("x", 3)
        rx = list(amul(Rq(q), np.array(x, dtype=object).reshape(3, 1)).ravel())
        for sc, tag in ((1, ""), (0.1, " of a short vector"), (10, " of a long vector")):
            xs = [mul(sc, y) for y in x]
            u.eq(only + tag, E(vec(u.I, xs), qv()), jac([mul(sc, y) for y in rx], q))
    elif only == "ErrorQuaternion":
        qa, qb = [div(y, nrm(ats("qa", 4))) for y in ats("qa", 4)], [div(y, nrm(ats("qb", 4))) for y in ats("qb", 4)]
        got = u.flat(E(rot_from_quat(u.I, qa), rot_from_quat(u.I, qb)))
        want = qmul([qb[0]] + [neg(y) for y in qb[1:]], qa)
        # a rotation has two quaternions: compare what they rotate
        if any("asQuaternion" in T.show(g, 3) for g in got if T.isn(g)):
            u.res.undecided(only)
        else:
            u.eq(only, Rq(got), Rq(want), "it is not the rotation from the desired to the actual frame")
    elif only == "InverseQuaternion":
        u.eq(only, E(qv()), conj)
    elif only == "InverseQuaternionDerivative":
        u.eq(only, E(), jac(conj, q))
    elif only == "QuaternionLeftTrivializedDerivativeInverseTimesQuaternionDerivativeJacobian":
        u.eq(only, E(vec(u.I, d)), jac(om, q))
    elif only == "QuaternionBoundsRespected":
        r = E(qv())
        names = ["q[%d]" % i for i in range(4)]

        def box(key, env, want, text):
            k = T.interval(r, env) if T.isn(r) else r
            u.res.decide(True if k is want else (False if k is (not want) else None), "QuaternionBoundsRespected " + key, u.where, text)
        box("within", {m: (-1.0, 1.0) for m in names}, True, "components within [-1, 1] are refused")
        for m in names:                           # unit quaternions, one by one
            for s in (-1.0, 1.0):
                box("unit", {k: (s, s) if k == m else (0.0, 0.0) for k in names}, True, "a unit quaternion is refused")
        box("halves", {m: (0.5, 0.5) for m in names}, True, "a unit quaternion is refused")
        box("minus halves", {m: (-0.5, -0.5) for m in names}, True, "a unit quaternion is refused")
        for m in names:
            rest = {k: (-1.0, 1.0) for k in names if k != m}
            box("above " + m, dict(rest, **{m: (1.0 + 2e-6, 1e9)}), False, "%s above one is accepted" % m)
            box("below " + m, dict(rest, **{m: (-1e9, -1.0 - 2e-6)}), False, "%s below minus one is accepted" % m)
    return u.res


QUATS = ["QuaternionLeftTrivializedDerivative", "QuaternionLeftTrivializedDerivativeInverse", "NormalizedQuaternion", "QuaternionNorm",
         "QuaternionSquaredNorm", "NormalizedQuaternionDerivative", "QuaternionLeftTrivializedDerivativeTimesOmegaJacobian",
         "RotatedVectorQuaternionJacobian", "ErrorQuaternion", "InverseQuaternion", "InverseQuaternionDerivative",
         "QuaternionLeftTrivializedDerivativeInverseTimesQuaternionDerivativeJacobian", "QuaternionBoundsRespected"]


# ---------------------------------------------------------------------------------------------- C21
LAYOUTS = [[], [("a", 3)], [("a", 3), ("b", 1), ("c", 4)], [("a", 2), ("z", 0), ("b", 2)], [("z", 0), ("a", 1)],
           [("longer name", 6), ("longer", 3), ("", 2), ("name", 5), ("b", 1), ("a", 7)],
           [("p%d" % i, 1 + (i * 5) % 4) for i in range(9)]]


def labeller(P, tier, ln, how):
    u = U(P)
    I = u.I
    rng = lambda r: (I.rd(r.d["offset"]), I.rd(r.d["size"]))
    INV = u.I.mod.MODELS["iDynTree::IndexRange::InvalidRange"](I, None, [], None, None)

    def state(o, known, tag):
        """everything observable about a labeller holding the given labels"""
        tot_ = sum(d for _, d, _ in known)
        u.eq(tag + ": size", u.call(o, "size", []), tot_)
        u.eq(tag + ": number of labels", u.call(o, "numberOfLabels", []), len(known))
        ll = u.call(o, "listOfLabels", [])
        got = [I.rd(ll.d[k]) for k in range(ll.d["#n"])]
        u.res.decide(got == [n for n, _, _ in known], tag + ": list of labels", u.where, "the labels are listed as %r" % (got,))
        off = 0
        for n, d, vals in known:
            r = u.overload(o, "getIndexRange", [n], lambda f: True)
            u.res.decide(rng(r) == (off, d), "%s: range of '%s'" % (tag, n), u.where, "the range is %r instead of (%d, %d)" % (rng(r), off, d))
            if vals is not None and d:
                for const in (False, True):
                    u.eq("%s: values of '%s'" % (tag, n), u.overload(o, "operator()", [n], lambda f: "string" in f.params[0]["t"] and f.const == const), vals)
                    u.eq("%s: values in the range of '%s'" % (tag, n), u.overload(o, "operator()", [r], lambda f: "IndexRange" in f.params[0]["t"] and f.const == const), vals)
            off += d
        r = u.call(o, "getIndexRange", ["not there"])
        u.res.decide(rng(r) == rng(INV), tag + ": range of an unknown label", u.where, "an unknown label has the range %r" % (rng(r),))
        for const in (False, True):
            v = u.overload(o, "operator()", ["not there"], lambda f: "string" in f.params[0]["t"] and f.const == const)
            u.eq(tag + ": values of an unknown label", u.flat(v), [])
        allv = []
        for n, d, vals in known:
            allv += vals if vals is not None else [None] * d
        if None not in allv:
            for const in (False, True):
                u.eq(tag + ": values", u.overload(o, "values", [], lambda f: f.const == const), allv)
                for i, v in enumerate(allv):
                    u.eq("%s: element %d" % (tag, i), u.overload(o, "operator()", [i], lambda f: "int" in f.params[0]["t"] and f.const == const), v)

    ll = LAYOUTS[ln]
    o = I.construct_default(PNS + "VariablesLabeller")
    known = []
    for i, (n, d) in enumerate(ll):
        tag = "labels %s" % ", ".join("%s:%d" % x for x in ll[:i + 1])
        r = u.call(o, how, [n, d])
        off = sum(x for _, x, _ in known)
        if how == "addLabel":
            u.res.decide(r is True, tag + ": new label accepted", u.where, "a new label is refused")
        else:
            u.res.decide(rng(r) == (off, d), tag + ": range of the new label", u.where, "the returned range is %r instead of (%d, %d)" % (rng(r), off, d))
        # the others keep their values, the new one is zero
        known.append((n, d, [0] * d))
        state(o, known, tag)
        # write through a span, then refuse a duplicate
        vals = ats("v%d:%s" % (i, n), d)
        if d:
            sp = u.overload(o, "operator()", [n], lambda f: "string" in f.params[0]["t"] and not f.const)
            I.m_store(sp, np.array(vals, dtype=object).reshape(I.shape(sp)))
        known[-1] = (n, d, vals)
        r = u.call(o, how, [ll[0][0], d + 1])
        u.res.decide(r is False if how == "addLabel" else rng(r) == rng(INV), tag + ": duplicate refused", u.where, "a label that exists is added again")
        state(o, known, tag + ", after a refused duplicate")
    n = sum(d for _, d in ll)
    if n:
        new = ats("w", n)
        u.overload(o, "operator=", [vec(I, new, "dyn")], lambda f: "VectorDynSize" in f.params[0]["t"])
        k2, off = [], 0
        for nm, d in ll:
            k2.append((nm, d, new[off:off + d]))
            off += d
        state(o, k2, "labels %s, assigned" % ", ".join("%s:%d" % x for x in ll))
        for i in range(n):
            fs = [f for f in P.method(o.cls, "operator()") if "int" in f.params[0]["t"] and not f.const]
            if not fs:
                raise Broken("VariablesLabeller::operator()(unsigned)")
            I.assign(I.call_fn(fs[0], o, [i]), A("e%d" % i))
        k2, off = [], 0
        for nm, d in ll:
            k2.append((nm, d, [A("e%d" % (off + j)) for j in range(d)]))
            off += d
        state(o, k2, "labels %s, assigned one by one" % ", ".join("%s:%d" % x for x in ll))
        u.call(o, "zero", [])
        state(o, [(nm, d, [0] * d) for nm, d in ll], "labels %s, zeroed" % ", ".join("%s:%d" % x for x in ll))
    u.call(o, "clear", [])
    state(o, [], "cleared")
    if ll:
        u.call(o, how, [ll[-1][0], 2])
        state(o, [(ll[-1][0], 2, [0, 0])], "reused after clearing")
    return u.res


# ---------------------------------------------------------------------------------------------- C22
SHAPE = {
    "State": (("leftContactPointsState", "rightContactPointsState", "jointsConfiguration"), ("pointForce", "pointPosition"),
              ("momentumInCoM", "comPosition")),
    "Control": (("leftContactPointsControl", "rightContactPointsControl", "jointsVelocity"), ("pointForceControl", "pointVelocityControl"),
                ("baseLinearVelocity", "baseQuaternionDerivative")),
}


def containers(P, tier, cls):
    u = U(P)
    I = u.I
    I.opt["all_inputs"] = True
    (L, R, J), pts, vs = SHAPE[cls]
    q = NS + cls

    def sizes(o):
        a, b, c = I.rd(o.d[L]), I.rd(o.d[R]), I.rd(o.d[J])
        return (I.mod.lst_len(I, a), I.mod.lst_len(I, b), len(u.flat(c)))

    def leaves(o):
        out = []
        for k in (L, R):
            l = I.rd(o.d[k])
            for i in range(l.d["#n"]):
                for f in pts:
                    out.append(("%s[%d].%s" % (k, i, f), u.flat(I.rd(l.d[i]).d[f])))
        for f in vs + (J, "time"):
            out.append((f, u.flat(o.d[f])))
        return out

    def zeroed(o, tag):
        for n, v in leaves(o):
            u.eq("%s %s: %s" % (cls, tag, n), v, [0] * len(v))
        if cls == "State":
            t = I.rd(o.d["worldToBaseTransform"])
            u.eq("State %s: base position" % tag, t.d["p"], [0, 0, 0])
            u.eq("State %s: base rotation" % tag, t.d["R"], eye(3))
    DIMS = [(0, 0), (1, 1), (4, 2), (2, 4), (3, 3)]
    for n, p in DIMS:
        o = u.ctor(q, [n, p])
        u.where = q
        u.res.decide(sizes(o) == (p, p, n), "%s(%d, %d) sizes" % (cls, n, p), u.where, "the sizes are %r" % (sizes(o),))
        zeroed(o, "constructed with sizes")
        fill(I, o, "s", None, None)
        u.call(o, "zero", [])
        zeroed(o, "after zero()")
    o = I.construct_default(q)
    for n, p in DIMS + DIMS[::-1]:
        u.call(o, "resize", [n, p])
        u.res.decide(sizes(o) == (p, p, n), "%s::resize(%d, %d)" % (cls, n, p), u.where, "the sizes are %r" % (sizes(o),))
    # sizes are compared one by one

    def made(l, r, j):
        o = u.ctor(q, [j, l])
        x = I.rd(o.d[R])
        if r != l:
            o2 = u.ctor(q, [j, r])
            I.assign(LRef(o, R), I.rd(o2.d[R]))
        fill(I, o, "s", None, None)
        return o
    trip = [(l, r, j) for l in (0, 2, 3) for r in (0, 2, 3) for j in (0, 2, 3)]
    for l, r, j in trip:
        o = made(l, r, j)
        for n, p in ((2, 2), (2, 3), (3, 2), (0, 0), (3, 3)):
            got = u.call(o, "checkSize", [n, p])
            want = l == p and r == p and j == n
            u.res.decide(got is want, "%s::checkSize" % cls, u.where, "left %d, right %d, joints %d: checkSize(%d, %d) is %r" % (l, r, j, n, p, got))
        for l2, r2, j2 in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)):
            o2 = made(l2, r2, j2)
            got = u.call(o, "sameSize", [o2])
            want = (l, r, j) == (l2, r2, j2)
            u.res.decide(got is want, "%s::sameSize" % cls, u.where, "sizes %r and %r: sameSize is %r" % ((l, r, j), (l2, r2, j2), got))
    if cls == "State":
        for l, r in ((1, 1), (2, 2), (3, 3), (2, 3), (4, 4), (3, 1), (1, 4), (0, 2), (3, 0), (0, 1), (1, 0)):
            o = made(l, r, 2)
            pos = {k: [ats("s.%s%d.pointPosition" % (k, i), 3) for i in range(n)] for k, n in ((L, l), (R, r))}
            frc = {k: [ats("s.%s%d.pointForce" % (k, i), 3) for i in range(n)] for k, n in ((L, l), (R, r))}
            tag = " with %d and %d points" % (l, r)
            u.eq("State::computeFeetCentroid" + tag, u.call(o, "computeFeetCentroid", []),
                 [div(tot(p[i] for k in (L, R) for p in pos[k]), l + r) for i in range(3)])
            if not (l and r):
                continue
            f = ats("f", 3)
            side = lambda k: div(tot(dot(p, f) for p in pos[k]), len(pos[k]))
            fw = T.lt(side(R), side(L))
            u.eq("State::leftIsForward" + tag, u.call(o, "leftIsForward", [vec(I, f)]), fw)

            def mn(k):
                v = nrm(frc[k][0])
                for x in frc[k][1:]:
                    v = ite(T.lt(nrm(x), v), nrm(x), v)
                return v
            u.eq("State::minimumPointForceOnForwardFoot" + tag, u.call(o, "minimumPointForceOnForwardFoot", [vec(I, f)]), ite(fw, mn(L), mn(R)))
    return u.res


def constant(P, tier, cls):
    """the time invariant state and control of the unit that defines them"""
    u = U(Program([cls, "VariablesLabeller"]))
    I = u.I
    q = "iDynTree::optimalcontrol::TimeInvariantObject"
    val = u.ctor(cls, [3, 2])
    fill(I, val, "s", None, None)
    t = A("time")

    def same(key, got, want):
        if not isinstance(got, Obj):
            raise Abort("the object given is not followed")
        for f in sorted(want.d):
            a, b = flatten(I, got.d.get(f)), flatten(I, want.d[f])
            u.eq("%s: %s.%s" % (q.split("::")[-1], key, f), a, b)

    def at(o, tag, want):
        fs = [f for f in u.P.methods(q) if f.n == "get"]
        for f in fs:
            h = Obj("#h")
            h.d["v"] = T.batom("validity before")
            u.where = "%s:%s" % (f.file, f.line)
            u.res.site("TimeInvariant%s::get" % cls)
            r = I.rd(I.call_fn(f, o, [t, LRef(h, "v")] if len(f.params) == 2 else []))
            same("value " + tag, r, want)
            if len(f.params) == 2:
                u.eq("validity " + tag, I.rd(h.d["v"]), True)
        if len(fs) != 2:
            raise Broken(q + "::get")
    o = u.ctor(q, [val])
    at(o, "after construction from it", val)
    other = u.ctor(cls, [2, 4])
    fill(I, other, "z", None, None)
    g = [f for f in u.P.methods(q) if f.n == "get" and not f.params][0]
    I.assign(I.call_fn(g, o, []), other)
    at(o, "after it has been replaced", other)
    return u.res


def flatten(I, v):
    """the numbers of a value with the names of their places"""
    v = I.rd(v)
    if isinstance(v, M):
        return list(I.m_arr(v).ravel())
    if isinstance(v, Lst):
        n = v.d["#n"]
        return [n] + [x for i in range(n) for x in flatten(I, v.d[i])]
    if isinstance(v, Obj):
        return [x for k in sorted(v.d) if not k.startswith("#") for x in flatten(I, v.d[k])]
    return [v]


# ---------------------------------------------------------------------------------------------- C23
def foot(P, tier):
    u = U(P)
    I = u.I
    sq = lambda n: mul(A(n), A(n))
    lx, ly = sq("lx"), sq("ly")
    top = ats("top", 3)
    over = {}
    K = T.K
    for n, sc, sh in (("lx", 0.3, 1.0), ("ly", 0.3, 1.0), ("ux", 0.5, 0.0), ("uy", 0.5, 0.0), ("ex", 0.3, 0.6), ("ey", 0.3, 0.6), ("fz", 20.0, 60.0)):
        over[n] = [sh + sc * T.rnd("stratum", n, i) for i in range(K)]
    val = T.Valuation(5, over)
    light = T.Valuation(6, dict(over, fz=[1e-5 * (2 + T.rnd("light", i)) for i in range(K)]))
    I.opt["stratum"] = val
    o = I.construct_default(NS + "RectangularFoot")
    pts = lst_from(I, [], "iDynTree::Position")
    u.res.decide(u.call(o, "getPoints", [tr(I, "T"), pts]) is False, "getPoints before setFoot", u.where, "points of a foot that is not set are given")
    u.res.decide(u.call(o, "getForces", [wrench(I), lst_from(I, [], "iDynTree::LinearForceVector3")]) is False, "getForces before setFoot", u.where, "forces of a foot that is not set are given")

    def refused(o, key):
        for env, args in (({"bx": (-1e9, 0.0)}, [A("bx"), A("gy")]), ({"by": (-1e9, 0.0)}, [A("gx"), A("by")]),
                          ({"bx": (-1e9, 0.0), "by": (-1e9, 0.0)}, [A("bx"), A("by")])):
            del I.opt["stratum"]
            I.opt["box"] = dict(env, gx=(0.1, 1e3), gy=(0.1, 1e3))
            r = u.call(o, "setFoot", args + [vec(I, ats("other", 3))])
            r = T.interval(r, I.opt["box"]) if T.isn(r) else r
            del I.opt["box"]
            I.opt["stratum"] = val
            u.res.decide(r is False, "setFoot of a size that is not positive" + key, u.where, "it is accepted")
    refused(o, "")
    u.res.decide(u.call(o, "getPoints", [tr(I, "T"), pts]) is False, "getPoints after a refused setFoot", u.where, "points of a foot that is not set are given")
    r = u.call(o, "setFoot", [add(0.1, sq("l0")), add(0.2, sq("l1")), vec(I, ats("top0", 3))])
    u.res.decide(r is True, "setFoot", u.where, "positive sizes are refused")
    r = u.call(o, "setFoot", [lx, ly, vec(I, top)])
    u.res.decide(r is True, "setFoot", u.where, "positive sizes are refused")
    corner = [[add(top[0], neg(lx) if b else 0), add(top[1], neg(ly) if s else 0), top[2]] for b, s in ((0, 0), (0, 1), (1, 0), (1, 1))]
    centre = [sub(top[0], div(lx, 2)), sub(top[1], div(ly, 2)), top[2]]

    def points(key):
        t = tr(I, "T")
        pts = lst_from(I, [], "iDynTree::Position")
        ok = u.call(o, "getPoints", [t, pts])
        u.res.decide(ok is True, "getPoints" + key, u.where, "it fails")
        u.res.decide(pts.d["#n"] == 4, "getPoints gives four points" + key, u.where, "there are %r" % (pts.d["#n"],))
        R, p = I.m_arr(t.d["R"]), I.m_arr(t.d["p"])
        for i in range(4):
            want = aadd(p, amul(R, np.array(corner[i], dtype=object).reshape(3, 1)))
            u.eq("getPoints point %d%s" % (i, key), pts.d[i], want)
    points("")
    refused(o, " on a foot that was set")
    points(" after a refused setFoot")
    # forces: strata of the centre of pressure (inside, on each edge, on each corner)
    off = [[div(lx, 2), div(ly, 2)], [div(lx, 2), neg(div(ly, 2))], [neg(div(lx, 2)), div(ly, 2)], [neg(div(lx, 2)), neg(div(ly, 2))]]
    strata = [("inside the foot", A("ux"), A("uy"), 4), ("inside a lightly loaded foot", A("ux"), A("uy"), 4)]
    for s in (-1, 1):
        strata += [("on the edge x = %+d/2 length" % s, s, A("uy"), 2), ("on the edge y = %+d/2 length" % s, A("ux"), s, 2)]
        strata += [("on the corner (%+d, %+d)" % (s, s2), s, s2, 1) for s2 in (-1, 1)]
        # inside, but close to an edge or a corner
        strata += [("next to the edge x = %+d/2 length" % s, mul(s, sub(1, mul(1e-4, A("ex")))), A("uy"), 4),
                   ("next to the edge y = %+d/2 length" % s, A("ux"), mul(s, sub(1, mul(1e-4, A("ey")))), 4)]
        strata += [("next to the corner (%+d, %+d)" % (s, s2), mul(s, sub(1, mul(1e-4, A("ex")))), mul(s2, sub(1, mul(1e-4, A("ey")))), 4) for s2 in (-1, 1)]
    names = [s[0] for s in strata]
    for name, ux, uy, act in strata:
        # ratios of the normal forces
        cx, cy = mul(ux, div(lx, 2)), mul(uy, div(ly, 2))
        I.opt["stratum"] = u.val = light if "lightly" in name else val
        try:
            rat = lst_from(I, [], "double")
            u.call(o, "getNormalRatiosFromCoP", [cx, cy, rat])
            a = [I.rd(rat.d[i]) for i in range(4)]
            u.eq("normal ratios with the centre of pressure %s: sum" % name, tot(a), 1)
            for k, c in enumerate((cx, cy)):
                u.eq("normal ratios with the centre of pressure %s: centre of pressure along %s" % (name, "xy"[k]), tot(mul(x, p[k]) for x, p in zip(a, off)), c)
            for i, x in enumerate(a):
                lo = val(x).min() if T.isn(x) else x
                u.res.decide(bool(lo >= -1e-9), "normal ratios with the centre of pressure %s: sign" % name, u.where, "the ratio of point %d is negative" % i)
            before = o if name == names[0] else None
            # the wrench at the foot frame: linear part f, moment about the frame origin; pressure centre at (cx, cy) from the foot centre
            f = [A("fx"), A("fy"), A("fz")]
            tz = A("tz")
            if act == 1:
                i = [k for k in range(4) if T.equal(off[k][0], cx, val) and T.equal(off[k][1], cy, val)][0]
                tz = sub(mul(off[i][0], f[1]), mul(off[i][1], f[0]))     # the only moment one point can give
            tc = [mul(cy, f[2]), neg(mul(cx, f[2])), tz]
            c3 = np.array(centre, dtype=object).reshape(3, 1)
            mom = aadd(np.array(tc, dtype=object).reshape(3, 1), amul(skew3(list(c3.ravel())), np.array(f, dtype=object).reshape(3, 1)))
            for again in (False, True):
                w_ = vec(I, f + list(mom.ravel()))
                out = lst_from(I, [vec(I, ats("old%d" % i, 3)) for i in range(4)] if again else [], "iDynTree::LinearForceVector3")
                ok = u.call(o, "getForces", [w_, out])
                key = "forces with the centre of pressure %s" % name
                u.res.decide(ok is True, key, u.where, "getForces fails")
                u.res.decide(out.d["#n"] == 4, key + ": one per point", u.where, "%r forces" % (out.d["#n"],))
                F = [u.flat(out.d[i]) for i in range(4)]
                u.eq(key + ": resultant", [tot(x[k] for x in F) for k in range(3)], f, "the forces do not add up to the wrench")
                pts_ = [[add(c, o_) for c, o_ in zip(centre, list(p) + [0])] for p in off]
                M_ = [tot(sub(mul(p[(k + 1) % 3], x[(k + 2) % 3]), mul(p[(k + 2) % 3], x[(k + 1) % 3])) for p, x in zip(pts_, F)) for k in range(3)]
                u.eq(key + ": moment", M_, list(mom.ravel()), "the forces do not have the moment of the wrench")
                for i in range(4):
                    u.eq(key + ": normal force of point %d" % i, F[i][2], mul(a[i], f[2]))
        except Abort as e:
            u.res.stopped("forces with the centre of pressure " + name, u.where, e)
        finally:
            I.opt.pop("stratum", None)
            u.val = None
    # unloaded foot
    for n in (0, 4, 2, 6):
        I.opt["box"] = {"fz": (-1e9, 1e-9)}
        out = lst_from(I, [vec(I, ats("old%d" % i, 3)) for i in range(n)], "iDynTree::LinearForceVector3")
        ok = u.call(o, "getForces", [vec(I, [A("fx"), A("fy"), A("fz")] + ats("m", 3)), out])
        I.opt.pop("box")
        u.res.decide(ok is True, "getForces of an unloaded foot", u.where, "it fails")
        u.res.decide(out.d["#n"] == 4, "forces of an unloaded foot: one per point", u.where, "%r forces" % (out.d["#n"],))
        for i in range(out.d["#n"]):
            u.eq("forces of an unloaded foot", out.d[i], [0, 0, 0])
    return u.res


def tr(I, name):
    q = ats(name + ".q", 4)
    n = nrm(q)
    return transform(I, vec(I, ats(name + ".p", 3)), rot_from_quat(I, [div(x, n) for x in q]))


def wrench(I):
    return vec(I, ats("wr", 6))


# ---------------------------------------------------------------------------------------------- C20
def element(u, g, i, name="at"):
    fs = [f for f in u.P.method(g.cls, name) if not f.const]
    if not fs:
        raise Broken("PositionReferenceGenerator::" + name)
    return u.I.rd(u.I.call_fn(fs[0], g, [i]))


def references(P, tier, n):
    """the generator created with n positions"""
    u = U(P)
    u.I.opt["all_inputs"] = True
    I = u.I
    t = A("time")
    ks = [A("kx"), A("ky"), A("kz")]

    def setup(g, n, stem):
        els = []
        for i in range(n):
            e = element(u, g, i, "at" if i % 2 == 0 else "operator[]")
            ini = A("%s%d.init" % (stem, i))
            end = add(ini, mul(A("%s%d.len" % (stem, i)), A("%s%d.len" % (stem, i))))
            I.assign(LRef(e, "activeRange"), timerange(I, ini, end))
            pos = ats("%s%d.pos" % (stem, i), 3)
            I.assign(e.d["desiredPosition"], vec(I, pos))
            els.append((ini, end, pos))
        return els

    def check(g, els, tag):
        for i, (ini, end, pos) in enumerate(els):
            for name in ("at", "operator[]"):
                for const in (False, True):
                    fs = [f for f in u.P.method(g.cls, name) if f.const == const]
                    if not fs:
                        raise Broken("PositionReferenceGenerator::" + name)
                    e = I.rd(I.call_fn(fs[0], g, [i]))
                    u.where = "%s:%s" % (fs[0].file, fs[0].line)
                    u.eq("position %d read back%s" % (i, tag), e.d["desiredPosition"], pos)
                    u.eq("range %d read back%s" % (i, tag), [I.rd(I.rd(e.d["activeRange"]).d[k]) for k in ("init", "end")], [ini, end])
        wp, rp = u.call(g, "timeVaryingWeight", []), u.call(g, "timeVaryingReference", [])
        w, okw = u.get(wp, t)
        r, okr = u.get(rp, t)
        u.where = "src/PositionReferenceGenerator.cpp"
        for k, ok in (("weight", okw), ("reference", okr)):
            u.eq("%s is valid%s" % (k, tag), ok, True)
        ww, wr = [0] * 3, [0] * 3
        for ini, end, pos in els:          # the last range containing the time wins
            on = land(T.le(ini, t), T.le(t, end))
            al = div(sub(t, ini), sub(end, ini))
            v = [T.pw(add(mul(k, al), 1), 2) for k in ks]
            ww = [ite(on, x, y) for x, y in zip(v, ww)]
            wr = [ite(on, x, y) for x, y in zip(pos, wr)]
        u.eq("mean position weight" + tag, w, ww)
        u.eq("mean position reference" + tag, r, wr)
        # where no range is active the reference must not be left over memory
    g = u.ctor("PositionReferenceGenerator", [n] + ks)
    u.where = NS + "PositionReferenceGenerator"
    els = setup(g, n, "a")
    check(g, els, " with %d positions" % n)
    for m in (n + 1, max(0, n - 1)):
        u.call(g, "resize", [m])
        have = els[:m]
        for i in range(n, m):
            u.eq("new position after resize", element(u, g, i).d["desiredPosition"], [0, 0, 0])
        els2 = have + [None] * (m - len(have))
        for i in range(len(have)):
            e = element(u, g, i)
            u.eq("position kept by resize", e.d["desiredPosition"], have[i][2])
            u.eq("range kept by resize", [I.rd(I.rd(e.d["activeRange"]).d[k]) for k in ("init", "end")], list(have[i][:2]))
        els = setup(g, m, "b%d_" % m)
        check(g, els, " after resizing %d positions to %d" % (n, m))
        n = m
    u.call(g, "init", [2] + ks)
    els = setup(g, 2, "c")
    check(g, els, " after a second init")
    return u.res


def exponential(P, tier):
    u = U(P)
    t = A("time")
    # exponential weight
    a, b, c, d = A("a"), A("b"), A("c"), A("d")
    o = u.ctor(NS + "Utilities::ExponentialWeight", [a, b, c, d])
    v, ok = u.get(Ptr(o), t)
    u.where = "src/Utilities.cpp"
    u.eq("exponential weight", v, [add(mul(a, T.f1("exp", mul(b, sub(t, d)))), c)])
    u.eq("exponential weight is valid", ok, True)
    v, ok = u.get(Ptr(o), A("t2"))
    u.eq("exponential weight at a second time", v, [add(mul(a, T.f1("exp", mul(b, sub(A("t2"), d)))), c)])
    return u.res


def translating(P, tier):
    u = U(P)
    I = u.I
    t = A("time")
    s0 = u.ctor("State", [3, 2])
    fill(I, s0, "s", None, None)
    ref = tvo(I, "com", "dyn", 3)
    g = u.ctor(NS + "Utilities::TranslatingCoMStateGuess", [Ptr(ref), s0])
    f = [x for x in P.method(g.cls, "get") if len(x.params) == 2]
    if not f:
        raise Broken("TranslatingCoMStateGuess::get")
    u.where = "%s:%s" % (f[0].file, f[0].line)
    u.res.site("Utilities::TranslatingCoMStateGuess::get")
    for tt in (A("t0"), t):
        h = Obj("#h")
        h.d["v"] = False
        r = I.rd(I.call_fn(f[0], g, [tt, LRef(h, "v")]))
        com = [T.fn("com[%d]" % i, tt) for i in range(3)]
        dlt = [sub(x, y) for x, y in zip(com, ats("s.comPosition", 3))]
        key = "translating guess: "
        u.eq(key + "time", r.d["time"], tt)
        u.eq(key + "centre of mass", r.d["comPosition"], com)
        u.eq(key + "joints", r.d["jointsConfiguration"], ats("s.jointsConfiguration", 3))
        u.eq(key + "momentum", r.d["momentumInCoM"], [0] * 6)
        tb, t0 = I.rd(r.d["worldToBaseTransform"]), I.rd(s0.d["worldToBaseTransform"])
        u.eq(key + "base rotation", I.m_arr(tb.d["R"]), I.m_arr(t0.d["R"]))
        u.eq(key + "base position", tb.d["p"], [add(x, y) for x, y in zip(u.flat(t0.d["p"]), dlt)])
        for k in ("leftContactPointsState", "rightContactPointsState"):
            for i in range(2):
                e = I.rd(I.rd(r.d[k]).d[i])
                u.eq(key + "%s %d position" % (k, i), e.d["pointPosition"], [add(x, y) for x, y in zip(ats("s.%s%d.pointPosition" % (k, i), 3), dlt)])
                u.eq(key + "%s %d force" % (k, i), e.d["pointForce"], ats("s.%s%d.pointForce" % (k, i), 3))
        u.eq(key + "validity", I.rd(h.d["v"]), T.batom("valid(com)"), "a guess is declared valid although the centre of mass reference it is made from is not")
        # the answer is the caller's to modify: what it does with it must not show in the next answer
        frc = [(I.rd(I.rd(r.d[k]).d[i]), ats("s.%s%d.pointForce" % (k, i), 3)) for k in ("leftContactPointsState", "rightContactPointsState") for i in range(2)]
        fill(I, r, "changed", None, None)
        for e, w in frc:
            e.d["pointForce"] = vec(I, w)
    return u.res


# ---------------------------------------------------------------------------------------------- C26
def walking(P, tier, n):
    u = U(P)
    u.I.opt["all_inputs"] = True
    I = u.I
    cls = NS + "Utilities::SimpleWalkingStateMachine"
    o = I.construct_default(cls)

    def state(stem, k):
        x = u.ctor("State", [2, k])
        fill(I, x, stem, None, None)
        return x
    u.res.decide(u.call(o, "advance", [state("cur", n), state("fut", n)]) is False, "advance before initialize", u.where, "it succeeds without references")
    T_, h, dt, ft, pt = A("T"), A("h"), A("dt"), A("ft"), A("pt")
    OKBOX = {"T": (1.0, 5.0), "h": (1.0, 5.0), "dt": (0.01, 0.9), "ft": (0.0, 1e3), "pt": (0.0, 1.0)}
    s0, inc, ks = ats("start", 3), ats("inc", 3), [A("kx"), A("ky"), A("kz")]

    def init(box, tag=""):
        I.opt["box"] = box
        r = u.call(o, "initialize", [vec(I, s0), vec(I, inc), T_, h, dt] + ks + [ft, pt])
        del I.opt["box"]
        return T.interval(r, box) if T.isn(r) else r

    def refs():
        return u.call(o, "references", [])

    def elem(i):
        return I.deref(refs(), lambda g: element(u, g, i))

    def ref(i):
        e = I.rd(elem(i))
        rg = I.rd(e.d["activeRange"])
        return u.flat(e.d["desiredPosition"]), I.rd(rg.d["init"]), I.rd(rg.d["end"])
    for bad in ({"ft": (-1e3, -1e-3)}, {"dt": (5.1, 9.0)}, {"h": (0.0, 0.5), "dt": (0.6, 0.9)}, {"T": (0.0, 0.5), "dt": (0.6, 0.9)}):
        u.res.decide(init(dict(OKBOX, **bad)) is False, "initialize with inconsistent parameters", u.where, "they are accepted: %s" % bad)
    r = u.call(o, "advance", [state("cur", n), state("fut", n)])
    u.res.decide(r is False, "advance after a refused initialize", u.where, "it succeeds without references")
    u.res.decide(init(OKBOX) is True, "initialize", u.where, "consistent parameters are refused")

    def started(tag):
        p, a, b = ref(0)
        u.eq("first reference position" + tag, p, s0)
        u.eq("first reference range" + tag, [a, b], [0.0, T_])
        p, a, b = ref(1)
        u.eq("second reference position" + tag, p, s0)
        u.eq("second reference starts after the horizon" + tag, T.lt(h, a), True)
        u.val = vals[1]
        w, ok = u.get(I.deref(refs(), lambda g: u.call(g, "timeVaryingWeight", [])), T_)
        u.eq("weight at the end of the first step" + tag, w, [T.pw(add(k, 1), 2) for k in ks])
        u.val = None

    # one step from an arbitrary state of the machine
    def put(i, pos, a, b):
        e = I.rd(elem(i))
        I.assign(e.d["desiredPosition"], vec(I, pos))
        I.assign(LRef(e, "activeRange"), timerange(I, a, b))

    def setr(c, x, y, old):
        """an interval whose end precedes its start is not taken"""
        g = land(c, T.le(x, y))
        return [ite(g, x, old[0]), ite(g, y, old[1])]
    num = lambda k, lo, hi: [lo + (hi - lo) * (T.rnd("walkn", k, i) + 1) / 2 for i in range(T.K)]
    over = {"T": num("T", 0.5, 1.5), "h": num("h", 1.0, 3.0), "dt": num("dt", 0.05, 0.3), "ft": num("ft", 0.0, 2.0), "pt": num("pt", 0.5, 3.0),
            "cur.time": num("ct", 0.0, 0.6), "a0": num("a0", -2.0, 1.5), "len0": num("l0", 0.3, 2.0), "a1": num("a1", 0.0, 3.0), "len1": num("l1", 0.3, 1.5)}
    vals = [T.V0, T.Valuation(11, over)] + [T.Valuation(20 + i, over) for i in range(2)]
    started(" after initialize")
    p0, p1 = ats("p0", 3), ats("p1", 3)
    r0 = [A("a0"), add(A("a0"), mul(A("len0"), A("len0")))]
    r1 = [A("a1"), add(A("a1"), mul(A("len1"), A("len1")))]
    for verbose in (None, True, False):
        if verbose is not None:
            u.call(o, "setVerbose", [verbose])
        put(0, p0, *r0)
        put(1, p1, *r1)
        ret = u.call(o, "advance", [state("cur", n), state("fut", n)])
        tag = {None: "", True: " (verbose)", False: " (not verbose)"}[verbose]
        u.eq("advance succeeds" + tag, ret, True)

        def centroid(s):
            return [div(tot(A("%s.%sContactPointsState%d.pointPosition[%d]" % (s, f, i, c)) for f in ("left", "right") for i in range(n)), 2 * n) for c in range(3)]
        err = nrm([sub(x, y) for x, y in zip(centroid("fut"), p0)])
        side = lambda f: div(tot(dot(ats("cur.%sContactPointsState%d.pointPosition" % (f, i), 3), inc) for i in range(n)), n)

        def mn(f):
            v = None
            for i in range(n):
                x = nrm(ats("cur.%sContactPointsState%d.pointForce" % (f, i), 3))
                v = x if v is None else ite(T.lt(x, v), x, v)
            return v
        force = ite(T.lt(side("right"), side("left")), mn("left"), mn("right"))
        now = A("cur.time")
        # plan a step: none is planned, the present one ends early enough and is reached (or took too long)
        late = T.lt(mul(2, T_), sub(r0[1], r0[0]))
        plan = land(land(T.lt(h, r1[0]), T.le(r0[1], mul(0.6, h))), lnot(land(lnot(T.lt(err, pt)), lnot(late))))
        q1 = [ite(plan, add(x, d), y) for x, d, y in zip(p0, inc, p1)]
        k1 = setr(plan, h, add(h, T_), r1)
        planned = T.le(k1[0], h)
        start = sub(r0[0], now)
        weak = land(T.lt(start, mul(0.3, h)), T.lt(force, ft))
        go = land(lnot(weak), T.lt(add(start, T_), dt))
        cases = [("waits for the forward foot to be loaded", land(planned, weak)), ("takes the planned step", land(planned, go)),
                 ("moves both references", land(planned, land(lnot(weak), lnot(go)))), ("keeps stepping", lnot(planned))]
        c1, c2, c3, c4 = (c for _, c in cases)
        e0 = setr(c1, start, r0[1], r0)
        e0 = setr(c2, 0.0, T_, e0)
        e0 = setr(c3, start, add(start, T_), e0)
        w = add(start, T_)
        e0 = setr(c4, start, ite(T.lt(w, mul(0.6, h)), mul(0.6, h), w), e0)
        s1 = sub(k1[0], now)
        e1 = setr(c3, s1, add(s1, T_), k1)
        f0 = [ite(c2, y, x) for x, y in zip(p0, q1)]
        gp0, ga0, gb0 = ref(0)
        gp1, ga1, gb1 = ref(1)
        for v in vals:
            u.val = v
            for name, c in cases:
                n_ = int(np.sum(v(c).astype(bool))) if T.isn(c) else 0
                u.res.count("points where the machine %s" % name, n_)
            u.eq("position of the first reference" + tag, gp0, f0)
            u.eq("position of the second reference" + tag, gp1, q1)
            u.eq("range of the first reference" + tag, [ga0, gb0], e0)
            # after a step is taken the second reference only has to start beyond the horizon
            u.eq("start of the second reference" + tag, [ite(c2, h, ga1)], [ite(c2, h, e1[0])])
            u.eq("end of the second reference" + tag, [ite(c2, h, gb1)], [ite(c2, h, e1[1])])
            far = lnot(land(c2, T.le(ga1, h)))
            u.eq("second reference free after a step" + tag, far, True)
        u.val = None
        for name, c in cases:
            hit = sum(int(np.sum(v(c).astype(bool))) for v in vals)
            if hit < 8:
                u.res.undecided("no sample where the machine %s" % name)
    u.res.decide(init(OKBOX) is True, "second initialize", u.where, "consistent parameters are refused")
    started(" after a second initialize")
    return u.res


# ---------------------------------------------------------------------------------------------- C28
def initial_state(P, tier, n):
    from .settings import S
    u = U(P)
    u.I.opt["all_inputs"] = True
    R = kin.Robot()
    I = u.I
    over = {k: lst_from(I, [vec(I, ats("%s%d" % (k, i), 3)) for i in range(n)], "iDynTree::Position") for k in ("leftPointsPosition", "rightPointsPosition")}
    st = S(P, I, R, over)
    I.hooks[NS + "Settings::isValid"] = lambda I, th, a, n, c: I.opt.get("settings_valid", True)
    I.hooks[NS + "Settings::getSettings"] = lambda I, th, a, n, c: st.o
    seen = []

    def forces(I, th, a, node, c):
        w = u.flat(a[0])
        foot = I.rd(th)
        k = "left" if foot is feet[0] else "right"
        seen.append((k, w, I.path()))
        I.assign_ent(I.rd(a[1]), lst_from(I, [vec(I, ats("%s.force%d" % (k, i), 3)) for i in range(4)], "iDynTree::LinearForceVector3"))
        return I.opt.get("foot_ok", {}).get(k, True)
    I.hooks[NS + "RectangularFoot::getForces"] = forces
    feet = [I.construct_default(NS + "RectangularFoot") for _ in range(2)]
    sj = ats("q", R.n)
    settings = I.construct_default(NS + "Settings")
    fn = NS + "Utilities::FillDefaultInitialState"
    if n != 4:                                    # the feet give forces for four points
        ret = u.free(fn, [settings, vec(I, sj, "dyn"), feet[0], feet[1], u.ctor("State", [R.n, n])])
        u.res.decide(ret is False if not T.isn(ret) else None, "failure with %d points per foot" % n, u.where,
                     "the function succeeds although the feet give four forces each")
        return u.res
    for l, k in ((R.n, n), (0, 0)):
        x = u.ctor("State", [l, k])
        fill(I, x, "old", None, None)
        del seen[:]
        ret = u.free(fn, [settings, vec(I, sj, "dyn"), feet[0], feet[1], x])
        u.eq("the initial state is given", ret, True)
        L, Rf = R.frames.index("l_sole"), R.frames.index("r_sole")
        b = R.frames.index("root")
        com = list(R.com_in(L, sj).ravel())
        u.eq("centre of mass", x.d["comPosition"], com)
        u.eq("joints", x.d["jointsConfiguration"], sj)
        u.eq("time", x.d["time"], 0)
        u.eq("momentum", x.d["momentumInCoM"], [0] * 6)
        bt = R.frameT(L, b, sj)
        t = I.rd(x.d["worldToBaseTransform"])
        u.eq("base position", t.d["p"], list(bt.p.ravel()))
        u.eq("base rotation", t.d["R"], list(bt.R.ravel()))
        fr = {"left": kin.xid(), "right": R.frameT(L, Rf, sj)}
        for f in ("left", "right"):
            l_ = I.rd(x.d[f + "ContactPointsState"])
            u.res.decide(l_.d["#n"] == n, "number of %s points" % f, u.where, "there are %r" % (l_.d["#n"],))
            for i in range(n):
                e = I.rd(l_.d[i])
                u.eq("%s point %d position" % (f, i), e.d["pointPosition"],
                     list(aadd(fr[f].p, amul(fr[f].R, np.array(ats("%sPointsPosition%d" % (f, i), 3), dtype=object).reshape(3, 1))).ravel()))
                u.eq("%s point %d force" % (f, i), e.d["pointForce"], ats("%s.force%d" % (f, i), 3))
        # wrenches
        if sorted(s[0] for s in seen) != ["left", "right"]:
            u.res.bad("foot wrenches", u.where, "the forces of the feet are asked for %r" % [s[0] for s in seen])
            continue
        W = {k_: w for k_, w, _ in seen}
        weight = R.total * 9.81
        dl = T.f1("abs", sub(com[1], 0))
        dr = T.f1("abs", sub(com[1], list(fr["right"].p.ravel())[1]))
        u.eq("vertical forces carry the weight", add(W["left"][2], W["right"][2]), weight)
        u.eq("load shared as the lateral distances from the centre of mass", mul(W["left"][2], dl), mul(W["right"][2], dr))
        for f, y in (("left", 0), ("right", list(fr["right"].p.ravel())[0])):
            u.eq("%s wrench without horizontal force" % f, [W[f][0], W[f][1]], [0, 0])
            u.eq("%s wrench moment" % f, W[f][3:], [0, neg(mul(W[f][2], sub(com[0], y))), 0])
    # failures
    for key, opt in (("invalid settings", {"settings_valid": False}), ("left foot", {"foot_ok": {"left": False}}), ("right foot", {"foot_ok": {"right": False}})):
        I.opt.update(opt)
        ret = u.free(fn, [settings, vec(I, sj, "dyn"), feet[0], feet[1], u.ctor("State", [R.n, n])])
        u.res.decide(ret is False, "failure with " + key, u.where, "the function succeeds")
        for k in opt:
            I.opt.pop(k)
    library_failures(u, lambda: u.free(fn, [settings, vec(I, sj, "dyn"), feet[0], feet[1], u.ctor("State", [R.n, n])]))
    return u.res


def library_failures(u, run):
    """when a call on the robot kinematics fails the function must say so; run() calls it once"""
    I = u.I
    for what in ("loadRobotModel", "setFloatingBase", "setRobotState"):
        hit = []

        def fail(I, op, o, what=what):
            if op == what:
                hit.append(op)
            return op != what
        I.opt["fail"] = fail
        ret = run()
        I.opt["fail"] = None
        if hit:                                   # nothing to decide if the call is not made any more
            u.res.decide(ret is False if not T.isn(ret) else None, "failure with %s" % what, u.where, "the function succeeds although %s has failed" % what)


# ---------------------------------------------------------------------------------------------- C29
# lowest contact point height at the start: (name, from, to)
HEIGHTS = [("on the ground", 2e-9, 8e-9), ("just above the ground", 3e-8, 8e-7), ("just below the ground", -8e-7, -5e-9), ("above the ground", 0.011, 0.05),
           ("below the ground", -0.3, -0.12), ("high above the ground", 1.6, 1.9), ("far below the ground", -4.0, -3.0)]


def ground(P, tier, n, k):
    """the base is moved vertically until the lowest contact point touches the ground"""
    from .settings import S
    u = U(P)
    R = kin.Robot()
    I = u.I
    over = {f: lst_from(I, [vec(I, ats("%s%d" % (f, i), 3)) for i in range(n)], "iDynTree::Position") for f in ("leftPointsPosition", "rightPointsPosition")}
    st = S(P, I, R, over)
    I.hooks[NS + "Settings::isValid"] = lambda I, th, a, n, c: I.opt.get("settings_valid", True)
    I.hooks[NS + "Settings::getSettings"] = lambda I, th, a, n, c: st.o
    settings = I.construct_default(NS + "Settings")
    fn = NS + "Utilities::SetMinContactPointToZero"
    x = u.ctor("State", [R.n, n])
    fill(I, x, "s", None, None)
    keep = {f: [] for f in ("left", "right")}
    for f in keep:
        l_ = I.rd(x.d[f + "ContactPointsState"])
        keep[f] = [u.flat(I.rd(l_.d[i]).d["pointForce"]) for i in range(n)]
    b = R.frames.index("root")
    sj = u.flat(x.d["jointsConfiguration"])
    t0 = I.rd(x.d["worldToBaseTransform"])
    R0, p0 = u.arr(t0.d["R"]), list(u.arr(t0.d["p"]).ravel())
    mom, tm = u.flat(x.d["momentumInCoM"]), I.rd(x.d["time"])

    def heights(z):
        out = {}
        for f, fr in (("left", "l_sole"), ("right", "r_sole")):
            h = R.frameT(b, R.frames.index(fr), sj)
            for i in range(n):
                q = aadd(h.p, amul(h.R, np.array(ats("%sPointsPosition%d" % (f, i), 3), dtype=object).reshape(3, 1)))
                out[f, i] = list(aadd(np.array([p0[0], p0[1], z], dtype=object).reshape(3, 1), amul(R0, q)).ravel())
        return out
    # the stratum: the height of the base is chosen such that the lowest point lies in the wanted interval
    name, lo, hi = HEIGHTS[k]
    rel = np.array([T.Valuation(7)(v[2]) for v in heights(0).values()]).min(axis=0)
    ds = (np.array([T.rnd("height", i) for i in range(T.K)]) % 1.0) * (hi - lo) + lo
    val = T.Valuation(7, {p0[2].args[0]: list(ds - rel)})
    if k == 0:
        I.opt["settings_valid"] = False
        ret = u.free(fn, [settings, u.ctor("State", [R.n, n])])
        u.res.decide(ret is False, "failure with invalid settings", u.where, "the function succeeds")
        I.opt["settings_valid"] = True
    I.opt["stratum"] = val
    if k == 0:
        def again():
            y = u.ctor("State", [R.n, n])
            fill(I, y, "s", None, None)
            return u.free(fn, [settings, y])
        library_failures(u, again)
    key = "lowest point %s at the start: " % name
    try:
        ret = u.free(fn, [settings, x])
    except Endless as e:
        u.res.bad(key + "success", u.where, "the base is still being moved after more repetitions than the analysis follows (%s)" % e)
        return u.res
    u.val = val
    u.eq(key + "success", ret, True)
    t = I.rd(x.d["worldToBaseTransform"])
    p = list(u.arr(t.d["p"]).ravel())
    u.eq(key + "base rotation", list(u.arr(t.d["R"]).ravel()), list(R0.ravel()))
    u.eq(key + "base x and y", p[:2], p0[:2])
    u.eq(key + "joints", x.d["jointsConfiguration"], sj)
    u.eq(key + "momentum", x.d["momentumInCoM"], mom)
    u.eq(key + "time", x.d["time"], tm)
    hs = heights(p[2])

    def near(key, got, want):
        """numbers within a tenth of a micrometre, on every sample"""
        if T.has_top(got) or T.has_top(want):
            u.res.undecided(key)
            return
        e = np.abs(val(got) - val(want))
        u.res.decide(bool((e <= 1e-7).all()), key, u.where, "it is off by %g" % e.max())
    low = None
    for v in hs.values():
        low = v[2] if low is None else ite(T.lt(v[2], low), v[2], low)
    near(key + "height of the lowest point", low, 0)
    com = aadd(np.array(p, dtype=object).reshape(3, 1), amul(R0, R.com_in(b, sj)))
    for i in range(3):
        near(key + "centre of mass", u.flat(x.d["comPosition"])[i], list(com.ravel())[i])
    for f in ("left", "right"):
        l_ = I.rd(x.d[f + "ContactPointsState"])
        u.res.decide(l_.d["#n"] == n, key + "number of %s points" % f, u.where, "there are %r" % (l_.d["#n"],))
        for i in range(n):
            e = I.rd(l_.d[i])
            g = u.flat(e.d["pointPosition"])
            for j in range(3):
                near(key + "%s point %d position" % (f, i), g[j], hs[f, i][j])
            u.eq(key + "%s point %d force" % (f, i), e.d["pointForce"], keep[f][i])
    return u.res


# ---------------------------------------------------------------------------------------------- C27
def instances(p, lo, hi):
    """the instances a request within the window may give"""
    if isinstance(p, Ptr):
        return {p.t}
    if not isinstance(p, Ch):
        return {None}
    # the choice depends on where in the window the time is: every instance chosen at one of the samples
    w = T.Valuation(7, {"t": list(np.linspace(lo, hi, T.K))})
    al = set()

    def alts(c, on):
        if isinstance(c, Ch):
            k = w(c.c).astype(bool)
            alts(c.a, on & k)
            alts(c.b, on & ~k)
        elif on.any():
            al.add(c.t if isinstance(c, Ptr) else None)
    alts(p, np.ones(T.K, dtype=bool))
    return al


def nearest(P, tier, n, kind):
    """closest kinematics among n timings: interval analysis over a partition of the time axis"""
    u = U(P)
    I = u.I
    R = kin.Robot(small=True)
    ts = {"uniform": [0.1 * i for i in range(n)], "growing": [0.0 + 0.05 * i * i + 0.05 * i for i in range(n)],
          "shifted": [1.5 + 0.2 * i + (0.07 if i % 2 else 0.0) for i in range(n)], "close": [0.4 + 1e-3 * i for i in range(n)],
          "graded": [1.0 + 10.0 ** (i % 7 - 5) + sum(10.0 ** (j % 7 - 5) for j in range(i)) for i in range(n)]}[kind]
    o = I.construct_default(PNS + "TimelySharedKinDynComputations")
    t0 = u.call(o, "get", [0.3])
    if u.call(o, "setTimings", [lst_from(I, ts)]) is not False:
        u.res.bad("setTimings without a model", u.where, "timings are accepted although no model was loaded")
    u.call(o, "loadRobotModel", [kin.model_value(I, R)])
    tmpl = u.call(o, "get", [A("t")])
    if not isinstance(tmpl, Ptr):
        u.res.undecided("instance before the timings are set")
        return u.res
    eps = min([1e-2] + [b - a for a, b in zip(ts, ts[1:])]) / 1000
    cuts = [-1e9] + [c for i in range(n) for c in ([ts[i] - eps, ts[i] + eps] + ([(ts[i] + ts[i + 1]) / 2 - eps, (ts[i] + ts[i + 1]) / 2 + eps] if i + 1 < n else []))] + [1e9]
    # histories of timings and requests: another list first, one of its timings asked for, then these timings
    for first in (list(ts) + [ts[-1] + 1.0], list(ts[:-1]) + [ts[-1] - eps / 2, ts[-1] + 0.5, ts[-1] + 1.0], [x + 0.01 for x in ts] + [ts[-1] + 3.0] * (n % 2)):
        for k in range(len(first)):
            for lo, hi in ([(x, x) for x in first] + list(zip(cuts, cuts[1:])) if n < 5 or tier != "quick" else [(first[k], first[k])]):
                u.call(o, "setTimings", [lst_from(I, list(first))])
                u.call(o, "get", [first[k]])
                u.call(o, "setTimings", [lst_from(I, list(ts))])
                mid = (lo + hi) / 2
                d = sorted(range(n), key=lambda i: abs(ts[i] - mid))
                if n > 1 and abs(abs(ts[d[0]] - mid) - abs(ts[d[1]] - mid)) < eps:
                    continue
                I.opt["box"] = {"t": (lo, hi)}
                try:
                    p = u.call(o, "get", [A("t")])
                finally:
                    del I.opt["box"]
                u.call(o, "get", [ts[0] - 1.0])
                want = u.call(o, "get", [ts[d[0]]])
                u.res.decide(isinstance(want, Ptr) and instances(p, lo, hi) == {want.t}, "nearest of %d timings after others" % n, u.where,
                             "after %r and a request at %g, the timings are set to %r: between %g and %g the instance is not that of %g" % (first, first[k], ts, lo, hi, ts[d[0]]))
    # histories of timings: some other list first
    for first in ([], [5.0], [0.0, 0.3, 0.35, 7.0, 7.5, 9.0, 11.0, 12.0]):
        if first:
            u.res.decide(u.call(o, "setTimings", [lst_from(I, list(first))]) is True, "setTimings", u.where, "timings are refused")
        r = u.call(o, "setTimings", [lst_from(I, list(ts))])
        u.res.decide(r is True, "setTimings", u.where, "timings are refused")
        inst = []
        for x in ts:
            p = u.call(o, "get", [x])
            inst.append(p.t if isinstance(p, Ptr) else None)
        u.res.decide(None not in inst and len({id(x) for x in inst}) == n and tmpl.t not in inst, "one instance per timing (%d timings)" % n, u.where,
                     "two timings share an instance")
        for lo, hi in zip(cuts, cuts[1:]):
            mid = (lo + hi) / 2
            d = sorted(range(n), key=lambda i: abs(ts[i] - mid))
            ok = {inst[d[0]]}
            if n > 1 and hi - lo < 3 * eps and abs(abs(ts[d[0]] - mid) - abs(ts[d[1]] - mid)) < eps:
                ok.add(inst[d[1]])          # around a midpoint either neighbour is nearest up to the tolerance
            for prev in range(n):
                u.call(o, "get", [ts[prev]])
                I.opt["box"] = {"t": (lo, hi)}
                try:
                    p = u.call(o, "get", [A("t")])
                finally:
                    del I.opt["box"]
                got = instances(p, lo, hi)
                got = next((x for x in got if x not in ok), next(iter(got), None))
                u.res.decide(got in ok, "nearest of %d timings" % n, u.where,
                             "between %g and %g (after a query at %g) the instance of timing %s is used, the nearest of %r is %g" % (
                                 lo, hi, ts[prev], ts[inst.index(got)] if got in inst else "none", ts, ts[d[0]]))
    r = u.call(o, "setTimings", [lst_from(I, [])])
    p = u.call(o, "get", [A("t")])
    u.res.decide(isinstance(p, Ptr) and p.t is tmpl.t, "no timings", u.where, "without timings the common instance is not used")
    return u.res


def configured(P, tier, order):
    """every instance has the settings made on the common object before the timings"""
    u = U(P)
    I = u.I
    R = kin.Robot()
    o = I.construct_default(PNS + "TimelySharedKinDynComputations")
    u.res.decide(u.call(o, "isValid", []) is False, "no model", u.where, "valid without a model")
    r = u.call(o, "loadRobotModel", [kin.model_value(I, R)])
    u.res.decide(r is True, "loadRobotModel", u.where, "the model is refused")
    u.res.decide(u.call(o, "isValid", []) is True, "model", u.where, "not valid with a model")
    g, tol = ats("g", 3), T.f1("exp", A("log tol"))
    for k in order:
        if k == "gravity":
            u.call(o, "setGravity", [vec(I, g)])
        elif k == "base":
            u.res.decide(u.call(o, "setFloatingBase", ["l2"]) is True, "setFloatingBase", u.where, "a link of the model is refused")
            u.res.decide(u.call(o, "setFloatingBase", ["nowhere"]) is False, "setFloatingBase", u.where, "an unknown link is accepted")
        else:
            u.eq("setToleranceForUpdate", [u.call(o, "setToleranceForUpdate", [tol])], [True])
            u.eq("setToleranceForUpdate", [u.call(o, "setToleranceForUpdate", [neg(tol)])], [False])

    def check(x, tag):
        if "gravity" in order:
            u.eq("gravity", u.call(x, "gravity", []), g, tag)
        if "base" in order:
            b = u.call(x, "getFloatingBase", [])
            u.res.decide(b == "l2", "floating base", u.where, "%s: the floating base is %s" % (tag, b))
        if "tolerance" in order:
            u.eq("tolerance", [u.call(x, "getUpdateTolerance", [])], [tol], tag)
        m = u.call(x, "model", [])
        u.res.decide(isinstance(m, Obj) and m.d.get("robot") is R, "model", u.where, "%s: another model" % tag)

    check(o, "common object")
    p = u.call(o, "get", [A("t")])
    check(p.t, "instance without timings")
    for ts in ([0.1, 0.4, 0.9], [0.2, 0.5, 1.0, 1.5]):
        u.res.decide(u.call(o, "setTimings", [lst_from(I, list(ts))]) is True, "setTimings", u.where, "timings are refused")
        for t in ts:
            check(u.call(o, "get", [t]).t, "instance of %g" % t)
        check(o, "common object with timings")
    return u.res


TASKS = {
    "C20": lambda tier: [(references, (n,)) for n in (range(5) if tier == "quick" else range(8))] + [(exponential, ()), (translating, ())],
    "C21": lambda tier: [(labeller, (k, h)) for k in range(len(LAYOUTS)) for h in ("addLabel", "addLabelAndGetIndexRange")],
    "C22": lambda tier: [(f, (c,)) for f in (containers, constant) for c in ("State", "Control")],
    "C23": lambda tier: [(foot, ())],
    "C24": lambda tier: [(quaternions, (n,)) for n in QUATS],
    "C25": lambda tier: [(activation, ("HyperbolicSecant",)), (activation, ("HyperbolicTangent",))],
    "C26": lambda tier: [(walking, (n,)) for n in ((1, 2) if tier == "quick" else (1, 2, 3, 4))],
    "C29": lambda tier: [(ground, (n, k)) for n in ((2, 4) if tier == "quick" else (1, 2, 3, 4, 6)) for k in range(len(HEIGHTS))],
    "C28": lambda tier: [(initial_state, (n,)) for n in (4, 2, 3, 6)],
    "C27": lambda tier: [(nearest, (n, k)) for n in ((1, 2, 3, 4, 5, 7) if tier == "quick" else tuple(range(1, 13))) for k in ("uniform", "growing", "shifted", "close", "graded")]
    + [(configured, (o,)) for o in (("gravity", "base", "tolerance"), ("tolerance", "base", "gravity"), ("base",))],
}


def tasks(P, pid, tier):
    return TASKS[pid](tier)
