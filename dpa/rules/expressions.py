"""Kinematic expressions: every factory builds the quantity it is named after, with its derivatives."""
import numpy as np

from .. import terms as T
from ..report import Res
from ..world import Broken, World, PNS
from ..interp import LE, LVar, Ptr
from ..models import LEO, aadd, all_vars, amul, azero, le, le_expand, lev_call, lev_derivative, lv_val, vec
from ..kin import Robot, col

NS = PNS
JOINTS = {"s", "sd"}


class X:
    """the planner's expression server over a symbolic robot whose state is the expression
    variables themselves, with the factories in `real` analysed and the others standing for
    what they denote"""

    def __init__(self, P, real=(), robot=None, base=None):
        self.P = P
        w = self.w = World(P, robot=robot or Robot())
        I = self.I = w.I
        w.kinematics()
        self.D = w.ideal
        if base:
            if w.call(w.tskd.t, "setFloatingBase", [base]) is False:
                raise Broken("setFloatingBase refused " + base)
            self.D.basename = base
        self.es = w.server().t
        self.s = self.acc("jointsPosition")
        self.sd = self.acc("jointsVelocity")
        self.q = self.acc("baseQuaternion")
        self.p = self.acc("basePosition")
        self.v = self.acc("baseLinearVelocity")
        self.qd = self.acc("baseQuaternionVelocity")
        self.vars = {"s": self.s, "sd": self.sd, "q": self.q, "p": self.p, "v": self.v, "qd": self.qd}
        for n, d in (("s", w.n), ("sd", w.n), ("q", 4), ("p", 3), ("v", 3), ("qd", 4)):
            if not isinstance(self.vars[n], LVar) or self.vars[n].dim != d:
                raise Broken("ExpressionsServer variable " + n)
        self.st = self.robot_state({n: v.atoms for n, v in self.vars.items()})
        if w.call(self.es, "updateRobotState", [T.atom("time"), self.st]) is False:
            raise Broken("updateRobotState refused the state")
        for n in real:
            if not P.find(NS + n):
                raise Broken("factory " + n)
            I.hooks.pop(NS + n, None)

    def robot_state(self, vals):
        I = self.I
        st = I.construct_default(NS + "RobotState")
        for f, k in (("s", "s"), ("s_dot", "sd"), ("base_position", "p"), ("base_quaternion", "q"), ("base_linearVelocity", "v"), ("base_quaternionVelocity", "qd")):
            m = st.d.get(f)
            if m is None:
                raise Broken("RobotState::" + f)
            I.m_assign(m, vec(I, list(vals[k]), "dyn" if k in JOINTS else "fix"))
        return st

    def acc(self, name, *args):
        return lv_val(self.I, self.w.call(self.es, name, list(args)))

    def factory(self, name, *args):
        f = self.P.find(NS + name)
        if not f:
            raise Broken("factory " + name)
        self.f = f[0]
        return lv_val(self.I, self.I.call_fn(f[0], None, list(args)))

    def ideal(self, name, *args):
        return getattr(self.D, name)(*args)

    def twist(self, name="twist"):
        v = LVar(name, 6)
        for i in range(6):
            self.I.write(v, i, v.atoms[i])
        return v


def eq(res, a, b, key, where, what, sample=None):
    if a.shape != b.shape:
        res.bad(key + ":shape", where, "%s is %dx%d instead of %dx%d" % ((what,) + a.shape + b.shape))
        return
    for i in np.ndindex(*a.shape):
        v = T.equal(a[i], b[i])
        if v is False:
            res.bad("%s[%d,%d]" % ((key,) + i), where, "%s: entry (%d,%d) is %s and should be %s" % (what, i[0], i[1], T.show(a[i], 3), T.show(b[i], 3)))
            return
        res.decide(v, "%s[%d,%d]" % ((key,) + i), where, what)


def deriv(a, v, c):
    out = azero(a.shape[0], v.dim)
    for i in range(a.shape[0]):
        for j, at in enumerate(v.atoms):
            out[i, j] = T.diff(a[i, c], at)
    return out


def check(x, res, e, want, key, where, vs, depth=1):
    """e: expression returned by the code, want: matrix over the variables' atoms"""
    seen = []
    compare(x, res, e, want, key, where, vs, depth, seen)
    again(x, res, seen)


def again(x, res, seen):
    """the same objects evaluated at another state, then back at the first one"""
    if not isinstance(x, X):
        return
    I = x.I
    o = {n: [T.atom("other:%s[%d]" % (n, i)) for i in range(v.dim)] for n, v in x.vars.items()}
    if x.w.call(x.es, "updateRobotState", [T.atom("time"), x.robot_state(o)]) is False:
        raise Broken("updateRobotState refused the other state")
    to = {at: b for n, v in x.vars.items() for at, b in zip(v.atoms, o[n])}
    for obj, want, key, where in seen:
        w = np.empty(want.shape, dtype=object)
        for i in np.ndindex(*want.shape):
            w[i] = T.subst(want[i], to) if T.isn(want[i]) else want[i]
        eq(res, np.array(I.m_arr(I.rd(lev_call(I, obj, "evaluate", []))), dtype=object), w, key + " at another state", where, key + " evaluated at a second state")
    if x.w.call(x.es, "updateRobotState", [T.atom("time"), x.st]) is False:
        raise Broken("updateRobotState refused the state")
    for obj, want, key, where in seen:
        eq(res, np.array(I.m_arr(I.rd(lev_call(I, obj, "evaluate", []))), dtype=object), want, key + " again", where, key + " evaluated at a third state")


def compare(x, res, e, want, key, where, vs, depth, seen):
    I = x.I
    e = le(I, lv_val(I, e))
    if isinstance(e, LEO):
        seen.append((e.obj, want, key, where))
    eq(res, e.a, want, key, where, key + " as evaluated")
    missing = set()
    byatom = {at: v for v in vs.values() for at in v.atoms}
    for t in want.flat:
        for at in T.atoms_of(t) if T.isn(t) else ():
            if at in byatom and byatom[at] not in vars_of(e):
                missing.add(byatom[at].name)
    if missing:
        res.bad(key + ":dependencies", where, "%s depends on %s, which it does not declare: its value is kept when they change" % (key, ", ".join(sorted(missing))))
    else:
        res.good()
    if isinstance(e, LEO):
        if e.has("col"):
            for c in range(e.shape[1]):
                d = le(I, lv_val(I, lev_call(I, e.obj, "col", [c])))
                eq(res, d.a, want[:, c:c + 1], "%s.col(%d)" % (key, c), where, "column %d of %s" % (c, key))
        if e.has("row"):
            for r in range(e.shape[0]):
                d = le(I, lv_val(I, lev_call(I, e.obj, "row", [r])))
                eq(res, d.a, want[r:r + 1, :], "%s.row(%d)" % (key, r), where, "row %d of %s" % (r, key))
        if e.has("element"):
            for i in np.ndindex(*e.shape):
                d = le(I, lv_val(I, lev_call(I, e.obj, "element", list(i))))
                eq(res, d.a, want[i[0]:i[0] + 1, i[1]:i[1] + 1], "%s.element(%d,%d)" % ((key,) + i), where, "element %s of %s" % (i, key))
    if depth <= 0:
        return
    for n, v in vs.items():
        for c in range(want.shape[1]):
            k = "d(%s)[:,%d]/d%s" % (key, c, n)
            if isinstance(e, LEO):
                d = lev_derivative(I, e, c, v)
            else:
                from ..models import lv_coldiff
                d = lv_coldiff(I, e, [c, v], None, None)
            w = deriv(want, v, c)
            compare(x, res, d, w, k, where, vs, depth - 1 if isinstance(d, LEO) else 0, seen)


def vars_of(e):
    return all_vars(e)


def place(f):
    return "%s:%s" % (f.file, f.line)


FRAMES = ["root", "l3", "l2", "r1", "l1", "l_sole", "r_sole", "neck"]
PAIRS = [(a, b) for a in FRAMES for b in FRAMES if a != b]


def framed(P, tier, name, a, b):
    """expressions of a pair of frames"""
    res = Res()
    x = X(P, [name])
    key = "%s(%s,%s)" % (name, a, b)
    e = x.factory(name, Ptr(x.es), a, b)
    want = x.ideal(name, Ptr(x.es), a, b).a
    check(x, res, e, want, key, place(x.f), vs(x, "s", "sd", "q"), 1)
    res.site(key)
    return res


def vs(x, *names, **more):
    o = {n: x.vars[n] for n in names}
    o.update(more)
    return o


def framed_col(P, tier, name, a, b):
    res = Res()
    for c in range(6):
        x = X(P, [name])
        key = "%s(%s,%s,%d)" % (name, a, b, c)
        e = x.factory(name, Ptr(x.es), a, b, c)
        want = x.ideal(name, Ptr(x.es), a, b, c).a
        check(x, res, e, want, key, place(x.f), vs(x, "s", "sd"), 1)
        res.site(key)
    return res


def absolute(P, tier, name, b, mode, base=None):
    """velocity of a frame; the base twist a free variable, or the one of the base quaternion"""
    res = Res()
    x = X(P, [name], base=base)
    tw, vv = twist_of(x, mode)
    e = x.factory(name, Ptr(x.es), tw, b)
    want = x.ideal(name, Ptr(x.es), tw, b).a
    key = "%s(%s,%s)" % (name, b, mode) + on(base)
    checkt(x, res, e, want, key, place(x.f), vv, tw)
    res.site(key)
    return res


def checkt(x, res, e, want, key, where, vv, tw):
    """as check, with the twist variable expanded when it stands for an expression"""
    if tw.deff is None:
        return check(x, res, e, want, key, where, vv, 1)
    I = x.I
    W = le_expand(LE(want, [tw] + list(vv.values()))).a
    e = le(I, lv_val(I, e))
    if isinstance(e, LEO):
        again(x, res, [(e.obj, W, key, where)])
    eq(res, le_expand(LE(e.a, e.vars)).a, W, key, where, key + " as evaluated")
    for n, v in vv.items():
        for c in range(W.shape[1]):
            k = "d(%s)[:,%d]/d%s" % (key, c, n)
            d = lev_derivative(I, e, c, v) if isinstance(e, LEO) else None
            if d is None:
                from ..models import lv_coldiff
                d = lv_coldiff(I, e, [c, v], None, None)
            eq(res, le_expand(LE(d.a, d.vars)).a, deriv(W, v, c), k, where, k)


def on(base):
    return " on base " + base if base else ""


def com(P, tier, base=None):
    res = Res()
    name = "CoMInBaseExpression"
    x = X(P, [name], base=base)
    e = x.factory(name, Ptr(x.es))
    check(x, res, e, x.ideal(name, Ptr(x.es)).a, name + on(base), place(x.f), vs(x, "s", "sd", "q", "p"), 2)
    res.site(name)
    return res


def com_hessian(P, tier, j, base=None):
    res = Res()
    name = "CoMInBaseJointsDoubleDerivative"
    x = X(P, [name], base=base)
    e = x.factory(name, Ptr(x.es), j)
    check(x, res, e, x.ideal(name, Ptr(x.es), j).a, "%s(%d)" % (name, j) + on(base), place(x.f), vs(x, "s", "q"), 1)
    res.site("%s(%d)" % (name, j))
    return res


def twist_of(x, mode):
    from ..models import lv_asvar
    if mode == "free":
        tw = x.twist()
        return tw, vs(x, "s", "sd", "q", tw=tw)
    tw = x.acc("baseTwist")
    tw = lv_asvar(x.I, tw, [], None, type("C", (), {"n": "asVariable"}))
    return tw, vs(x, "s", "sd", "q", "qd", "v")


def momentum(P, tier, name, mode, base=None):
    res = Res()
    x = X(P, [name], base=base)
    tw, vv = twist_of(x, mode)
    e = x.factory(name, Ptr(x.es), tw)
    key = "%s(%s)" % (name, mode) + on(base)
    checkt(x, res, e, x.ideal(name, Ptr(x.es), tw).a, key, place(x.f), vv, tw)
    res.site(key)
    return res


def momentum_hessian(P, tier, mode, j, base=None):
    res = Res()
    name = "MomentumInBaseExpressionJointsDoubleDerivativeExpression"
    x = X(P, [name], base=base)
    tw, vv = twist_of(x, mode)
    e = x.factory(name, Ptr(x.es), tw, j)
    key = "%s(%s,%d)" % (name, mode, j) + on(base)
    want = x.ideal(name, Ptr(x.es), tw, j).a
    checkt(x, res, e, want, key, place(x.f), vv, tw)
    res.site(key)
    return res


def jacobian(x, which):
    """a matrix by which a base twist varies with something, and the variables it depends on"""
    I = x.I
    if which == "constant":
        a = azero(6, 3)
        for i in np.ndindex(6, 3):
            a[i] = T.atom("p:jac[%d,%d]" % i)
        return LE(a, [], "jac")
    from ..models import lv_coldiff
    tw = x.acc("baseTwist")
    return lv_coldiff(I, tw, [0, x.vars[which]], None, None)


def momentum_twist(P, tier, which, base=None):
    res = Res()
    name = "MomentumInBaseExpressionBaseTwistDerivativeExpression"
    x = X(P, [name], base=base)
    J = jacobian(x, which)
    e = x.factory(name, Ptr(x.es), J)
    key = "%s(%s)" % (name, which) + on(base)
    check(x, res, e, x.ideal(name, Ptr(x.es), J).a, key, place(x.f), vs(x, "s", "q", "qd", "v"), 1)
    res.site(key)
    return res


def momentum_twist_joints(P, tier, which, base=None):
    res = Res()
    name = "MomentumInBaseBaseTwistJointsDerivativeExpression"
    for c in range(3 if which in ("constant", "v") else 4):
        x = X(P, [name], base=base)
        J = jacobian(x, which)
        e = x.factory(name, Ptr(x.es), J, c)
        key = "%s(%s,%d)" % (name, which, c) + on(base)
        check(x, res, e, x.ideal(name, Ptr(x.es), J, c).a, key, place(x.f), vs(x, "s", "q", "qd"), 1)
        res.site(key)
    return res


def momentum_rates(P, tier, base=None):
    res = Res()
    name = "MomentumInBaseJointsVelocityDerivativeExpression"
    x = X(P, [name], base=base)
    e = x.factory(name, Ptr(x.es))
    check(x, res, e, x.ideal(name, Ptr(x.es)).a, name + on(base), place(x.f), vs(x, "s", "sd", "q"), 1)
    res.site(name)
    return res


def quat_error(P, tier, b, base=None):
    res = Res()
    name = "QuaternionError"
    x = X(P, [name], base=base)
    d = LVar("desiredQuaternion", 4)
    for i in range(4):
        x.I.write(d, i, d.atoms[i])
    e = x.factory(name, b, Ptr(x.es), d)
    key = "%s(%s)" % (name, b) + on(base)
    want = x.ideal(name, b, Ptr(x.es), d).a
    check(x, res, e, want, key, place(x.f), vs(x, "s", "sd", "q", "p"), 1)
    if d not in vars_of(le(x.I, e)):
        res.bad(key + ":dependencies", place(x.f), key + " does not declare that it depends on the desired quaternion")
    res.site(key)
    return res


def qrows(q):
    w, a, b, c = q
    n = T.neg
    E = [[n(a), w, n(c), b], [n(b), c, w, n(a)], [n(c), n(b), a, w]]
    G = [[n(a), w, c, n(b)], [n(b), n(c), w, a], [n(c), b, n(a), w]]
    f = lambda rows: np.array(rows, dtype=object)
    return f(E), f(G)


def quaternions(P, tier):
    """rotation, trivialised-derivative and twist expressions of a quaternion"""
    from ..models import ascale, skew3, eye
    res = Res()
    w = World(P, robot=Robot())
    I = w.I

    class Y:
        pass
    x = Y()
    x.I = I
    q, v, qd = LVar("quat", 4), LVar("lin", 3), LVar("dquat", 4)
    for o in (q, v, qd):
        for i in range(o.dim):
            I.write(o, i, o.atoms[i])

    def fac(name, *a):
        f = P.find(NS + name)
        if not f:
            raise Broken("factory " + name)
        return lv_val(I, I.call_fn(f[0], None, list(a))), place(f[0])
    vv = {"q": q, "v": v, "qd": qd}
    E, G = qrows(q.atoms)
    s = q.atoms[0]
    n2 = T.mul(s, s)
    for a in q.atoms[1:]:
        n2 = T.add(n2, T.mul(a, a))
    norm = T.f1("sqrt", n2)
    im = skew3(list(q.atoms[1:]))
    R = aadd(aadd(eye(3), ascale(im, T.mul(2, s))), ascale(amul(im, im), 2))
    for name, want, args in (("NormalizedQuaternion", col([T.div(a, norm) for a in q.atoms]), [q]), ("RotationExpression", R, [q]),
                             ("E_Expression", E, [q]), ("G_Expression", G, [q]),
                             ("BodyTwistFromQuaternionVelocity", np.concatenate([col(list(v.atoms)), ascale(amul(G, col(list(qd.atoms))), 2)]), [v, qd, q, "twist"])):
        e, at = fac(name, *args)
        check(x, res, e, want, name, at, vv, 1)
        res.site(name)
    # momentum transformation from the base to the centre of mass, world orientation
    Rr = azero(3, 3)
    c = azero(3, 1)
    for i in range(3):
        c[i, 0] = v.atoms[i]
    e, at = fac("RotationExpression", q)
    Rr = le(I, e).a
    e, at = fac("CoMAdjointTransformWrench", e, v)
    want = azero(6, 6)
    want[:3, :3] = Rr
    want[3:, 3:] = Rr
    want[3:, :3] = amul(Rr, skew3([T.neg(a) for a in v.atoms]))
    check(x, res, e, want, "CoMAdjointTransformWrench", at, vv, 1)
    res.site("CoMAdjointTransformWrench")
    return res


FRAMED = ["AdjointTransformExpression", "AdjointTransformWrenchExpression", "RelativePositionExpression", "RelativeQuaternionExpression",
          "RelativeLeftJacobianExpression", "RelativeLeftVelocityExpression"]
FRAMED_COL = ["AdjointTransformExpressionJointsDerivative", "AdjointTransformWrenchExpressionJointsDerivative"]


TE = NS + "TransformExpression"


def transforms(P, tier):
    """composition, application, copy and assignment of transform expressions"""
    res = Res()
    w = World(P, robot=Robot())
    I = w.I

    def sym(stem, r, c):
        a = azero(r, c)
        for i in np.ndindex(r, c):
            a[i] = T.atom("p:%s[%d,%d]" % ((stem,) + i))
        return LE(a, [], stem)
    p, R, p2, R2, y = sym("p", 3, 1), sym("R", 3, 3), sym("p2", 3, 1), sym("R2", 3, 3), sym("y", 3, 1)
    full = [f for f in P.methods(TE) if f.ctor and len(f.params) == 2]
    copy = [f for f in P.methods(TE) if f.ctor == "copy"]
    empty = [f for f in P.methods(TE) if f.ctor and not f.params]
    assign = [f for f in P.methods(TE) if f.n == "operator="]
    apply = [f for f in P.methods(TE) if f.n == "operator*"]
    compose = [f for f in P.byqn.get("operator*", ()) if len(f.params) == 2]
    if not (full and copy and empty and assign and apply and compose):
        raise Broken("TransformExpression members")

    def parts(t):
        return [le(I, lv_val(I, I.call_fn(P.method(TE, n)[0], t, []))).a for n in ("position", "rotation")]

    def same(t, wp, wR, key, f):
        a, b = parts(t)
        eq(res, a, wp, key + ".position", place(f), key + ": the position")
        eq(res, b, wR, key + ".rotation", place(f), key + ": the rotation")
        res.site(key)
    t = I.construct(full[0], TE, [p, R])
    u = I.construct(full[0], TE, [p2, R2])
    same(t, p.a, R.a, "TransformExpression(position, rotation)", full[0])
    e = le(I, lv_val(I, I.call_fn(apply[0], t, [y])))
    eq(res, e.a, aadd(p.a, amul(R.a, y.a)), "transform*position", place(apply[0]), "a transform applied to a position")
    c = I.rd(I.call_fn(compose[0], None, [t, u]))
    same(c, aadd(p.a, amul(R.a, p2.a)), amul(R.a, R2.a), "transform*transform", compose[0])
    k = I.construct(copy[0], TE, [t])
    same(k, p.a, R.a, "copy", copy[0])
    d = I.construct(empty[0], TE, [])
    I.call_fn(assign[0], d, [t])
    same(d, p.a, R.a, "assignment", assign[0])
    I.call_fn(assign[0], k, [u])
    same(t, p.a, R.a, "source of a copy that is assigned to later", copy[0])
    same(k, p2.a, R2.a, "assignment over a copy", assign[0])
    I.call_fn(assign[0], t, [u])
    same(d, p.a, R.a, "target of an assignment whose source is assigned to later", assign[0])
    I.call_fn(assign[0], d, [d])
    same(d, p.a, R.a, "self assignment", assign[0])
    return res


def tasks_c11(P, tier):
    out = []
    for n in FRAMED:
        out += [(framed, (n, a, b)) for a, b in PAIRS]
    for n in FRAMED_COL:
        out += [(framed_col, (n, a, b)) for a, b in PAIRS]
    for n in ("AbsoluteLeftVelocityExpression", "AbsoluteLeftVelocityJointsDerivativeExpression"):
        for b in ("l_sole", "r1", "l2", "neck", "l3"):
            out += [(absolute, (n, b, "free")), (absolute, (n, b, "base"))]
        out += [(absolute, (n, b, "base", "l1")) for b in ("l_sole", "root", "r_sole")]
    for base in (None, "l1"):
        out.append((com, (base,)))
        out += [(com_hessian, (j, base)) for j in range(4)]
        # the derivative with respect to the joints reads the velocities of the links off the server's own state
        out.append((momentum, ("MomentumInBaseExpression", "free", base)))
        out += [(momentum, (n, "base", base)) for n in ("MomentumInBaseExpression", "MomentumInBaseExpressionJointsDerivativeExpression")]
        out += [(momentum_hessian, (m, j, base)) for m in ("free", "base") for j in range(4)]
        for k in ("constant", "q", "qd", "v"):
            out += [(momentum_twist, (k, base)), (momentum_twist_joints, (k, base))]
        out.append((momentum_rates, (base,)))
    out += [(quat_error, (b,)) for b in ("l_sole", "neck", "r1", "root")]
    out += [(quat_error, (b, "l1")) for b in ("l_sole", "root")]
    out.append((quaternions, ()))
    out.append((transforms, ()))
    return out


# ------------------------------------------------------------------- the server's accessors
def awkward():
    """a robot whose frame, joint and link names and numbers collide when they are run together"""
    links = ["root", "a", "ab", "b", "bb", "abb", "1", "11", "1a", "a1", "c", "a_b", "b_c"]
    joints = [("j", 1, 11), ("j1", 1, 2), ("j11", 0, 1), ("j0", 1, 12), ("j2", 0, 3), ("j3", 0, 4), ("j4", 0, 5), ("j5", 0, 6), ("j6", 0, 7), ("j7", 0, 8),
              ("j8", 0, 9), ("j9", 0, 10)]
    joints[3] = ("j", 1, 12)
    joints[0] = ("jj", 1, 11)
    return Robot(links=links, joints=joints)


class Requests:
    """what every accessor is to return, for arguments drawn from the robot"""

    def __init__(self, x, frames, joints, columns):
        from ..models import crf, crm
        self.x, R = x, x.w.robot
        D, es, s = x.D, Ptr(x.es), x.s.atoms
        self.tw = [x.twist(n) for n in ("twist", "bb", "b")]
        self.quats = []
        for n in ("desired", "bb", "b"):
            d = LVar(n, 4)
            for i in range(4):
                x.I.write(d, i, d.atoms[i])
            self.quats.append(d)
        n = R.n
        same = lambda a, b, e, i: i if a == b else e
        ident = lambda k: np.array([[1 if i == j else 0 for j in range(k)] for i in range(k)], dtype=object)
        ad = lambda a, b: same(a, b, D.AdjointTransformExpression(es, a, b).a, ident(6))
        adw = lambda a, b: same(a, b, D.AdjointTransformWrenchExpression(es, a, b).a, ident(6))
        base = R.frames[D.base()]
        r = self.list = []
        for a in frames:
            for b in frames:
                r += [("adjointTransform", (a, b), lambda a=a, b=b: ad(a, b)), ("adjointTransformWrench", (a, b), lambda a=a, b=b: adw(a, b)),
                      ("relativePosition", (a, b), lambda a=a, b=b: same(a, b, D.RelativePositionExpression(es, a, b).a, azero(3, 1))),
                      ("relativeQuaternion", (a, b), lambda a=a, b=b: same(a, b, D.RelativeQuaternionExpression(es, a, b).a, col([1, 0, 0, 0]))),
                      ("relativeRotation", (a, b), lambda a=a, b=b: ad(a, b)[:3, :3]),
                      ("relativeTransform", (a, b), lambda a=a, b=b: np.concatenate([same(a, b, D.RelativePositionExpression(es, a, b).a, azero(3, 1)), ad(a, b)[:3, :3]], 1)),
                      ("relativeLeftJacobian", (a, b), lambda a=a, b=b: same(a, b, D.RelativeLeftJacobianExpression(es, a, b).a, azero(6, n))),
                      ("relativeVelocity", (a, b), lambda a=a, b=b: same(a, b, D.RelativeLeftVelocityExpression(es, a, b).a, azero(6, 1)))]
                for c in columns[:2]:
                    r += [("adjointTransformJointsDerivative", (a, b, c), lambda a=a, b=b, c=c: same(a, b, D.AdjointTransformExpressionJointsDerivative(es, a, b, c).a, azero(6, n))),
                          ("adjointTransformWrenchJointsDerivative", (a, b, c),
                           lambda a=a, b=b, c=c: same(a, b, D.AdjointTransformWrenchExpressionJointsDerivative(es, a, b, c).a, azero(6, n)))]
            r.append(("absoluteVelocity", (a,), lambda a=a: le_expand(D.AbsoluteLeftVelocityExpression(es, x.acc("baseTwist"), a)).a))
            for t in self.tw:
                r += [("absoluteVelocity", (a, t), lambda a=a, t=t: D.AbsoluteLeftVelocityExpression(es, t, a).a),
                      ("absoluteVelocityJointsDerivative", (a, t), lambda a=a, t=t: D.AbsoluteLeftVelocityJointsDerivativeExpression(es, t, a).a)]
            for q in self.quats:
                r.append(("quaternionError", (a, q), lambda a=a, q=q: D.QuaternionError(a, es, q).a))
        for j in joints:
            _, p, c = R.joints[j]
            for par, ch in ((p, c), (c, p)):
                S = lambda j=j, par=par, ch=ch: R.S(j, ch, par)
                r += [("motionSubSpaceVector", (j, par, ch), S),
                      ("motionSubSpaceAsCrossProduct", (j, par, ch), lambda S=S: crm(list(S().ravel()))),
                      ("motionSubSpaceAsCrossProductWrench", (j, par, ch), lambda S=S: crf(list(S().ravel())))]
        for l in range(len(R.links)):
            r += [("linkInertia", (l,), lambda l=l: R.inert[l]),
                  ("linkInertiaInBase", (l,), lambda l=l: amul(adw(base, R.links[l]), R.inert[l]))]
        for c in columns:
            r.append(("comInBaseHessian", (c,), lambda c=c: D.CoMInBaseJointsDoubleDerivative(es, c).a))
            if len(R.links) < 8:
                for t in self.tw:
                    r.append(("momentumInBaseJointsDoubleDerivative", (t, c), lambda c=c, t=t: D.MomentumInBaseExpressionJointsDoubleDerivativeExpression(es, t, c).a))
        r.append(("comInBase", (), lambda: D.CoMInBaseExpression(es).a))
        r.append(("compositeRigidBodyInertia", (), lambda: R.crbi(s, D.base())))
        self.want = {}

    def value(self, name, args):
        x, I = self.x, self.x.I
        v = I.rd(x.w.call(x.es, name, list(args)))
        if name == "relativeTransform":
            p, q = [le(I, lv_val(I, x.w.call(v, m, []))).a for m in ("position", "rotation")]
            return np.concatenate([p, q], 1)
        e = lv_val(I, v)
        return le_expand(le(I, e)).a if name == "absoluteVelocity" and len(args) == 1 else le(I, e).a


def label(name, args):
    return "%s(%s)" % (name, ", ".join(a.name if isinstance(a, LVar) else str(a) for a in args))


def sequences(P, tier, which, base, order):
    """every accessor asked for every argument, twice, in a mixed order, against one server"""
    import random
    res = Res()
    if which == "branched":
        x = X(P, [], base=base)
        q = Requests(x, x.w.robot.frames, range(x.w.robot.n), range(x.w.robot.n))
    else:
        x = X(P, [], robot=awkward())
        q = Requests(x, ["a", "ab", "b", "bb", "abb", "1", "11", "1a", "a1", "c", "a_b", "b_c"], (0, 1, 2, 3), [0, 1, 2, 11])
    todo = list(q.list) + list(q.list)
    random.Random(order).shuffle(todo)
    if order == 1:
        todo = list(q.list) + list(reversed(q.list))
    wants = {}
    for name, args, want in todo:
        f = x.P.method(x.es.cls, name)
        if not f:
            raise Broken("ExpressionsServer::" + name)
        k = label(name, args)
        if k not in wants:
            wants[k] = want()
        eq(res, q.value(name, args), wants[k], k + on(base), place([g for g in f if len(g.params) == len(args)][0]), k)
        res.site(k)
    return res


def base_quantities(P, tier):
    """rotation, quaternion, twist and pose of the base as functions of the variables"""
    from ..models import ascale, eye, skew3
    res = Res()
    x = X(P, [])
    I = x.I
    q, v, qd, p = x.q.atoms, x.v.atoms, x.qd.atoms, x.p.atoms
    n2 = 0
    for a in q:
        n2 = T.add(n2, T.mul(a, a))
    qn = [T.div(a, T.f1("sqrt", n2)) for a in q]
    im = skew3(qn[1:])
    R = aadd(aadd(eye(3), ascale(im, T.mul(2, qn[0]))), ascale(amul(im, im), 2))
    G = qrows(qn)[1]
    vv = vs(x, "q", "v", "qd", "p")
    tw = np.concatenate([col(list(v)), ascale(amul(G, col(list(qd))), 2)])
    at = lambda n: place(P.method(x.es.cls, n)[0])
    for n, want in (("baseRotation", R), ("normalizedBaseQuaternion", col(qn)), ("baseTwist", tw)):
        check(x, res, x.w.call(x.es, n, []), want, n, at(n), vv, 1)
        res.site(n)
    t = I.rd(x.w.call(x.es, "worldToBase", []))
    check(x, res, x.w.call(t, "position", []), col(list(p)), "worldToBase.position", at("worldToBase"), vv, 1)
    check(x, res, x.w.call(t, "rotation", []), R, "worldToBase.rotation", at("worldToBase"), vv, 1)
    res.site("worldToBase")
    for n in ("getFloatingBase",):
        for b in ("root", "l1"):
            y = X(P, [], base=b)
            res.decide(I.rd(y.w.call(y.es, n, [])) == b, n + "=" + b, at(n), n)
    m = I.rd(x.w.call(x.es, "model", []))
    res.decide(getattr(m, "d", {}).get("robot") is x.w.robot, "model", at("model"), "the model of the server is the one that was loaded")
    return res


def tasks_c12(P, tier):
    n = 12 if tier == "thorough" else 3
    out = [(base_quantities, ())]
    out += [(sequences, ("branched", None, k)) for k in range(n)] + [(sequences, ("branched", "l1", k)) for k in range(n)]
    out += [(sequences, ("awkward", None, k)) for k in range(n)]
    return out


TASKS = {"C11": tasks_c11, "C12": tasks_c12}


def tasks(P, pid, tier):
    return TASKS[pid](P, tier)
