"""What each constraint, cost and the dynamics mean: independent formulas over the value graph.

The formulas are written from the rigid-body and contact model, not from the classes."""
import numpy as np

from .. import terms as T
from ..kin import col
from ..models import amul, aadd, asub, ascale, qrot, qmul, azero
from ..report import Res
from ..world import ALL, YAW
from .evaluables import build, call, cname, configs, rowname, show, where

A = lambda s: T.atom("p:" + s)
G = tuple(T.atom("p:gravity[%d]" % i) for i in range(3))


def s(*xs):
    r = 0
    for x in xs:
        r = T.add(r, x)
    return r


def m(*xs):
    r = 1
    for x in xs:
        r = T.mul(r, x)
    return r


def sq(x):
    return T.mul(x, x)


def neg(x):
    return T.neg(x)


def sub(a, b):
    return T.add(a, T.neg(b))


def div(a, b):
    return T.div(a, b)


def sech(x):
    return T.div(1, T.f1("cosh", x))


def tanh(x):
    return T.f1("tanh", x)


def dot(a, b):
    return s(*[m(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [sub(m(a[1], b[2]), m(a[2], b[1])), sub(m(a[2], b[0]), m(a[0], b[2])), sub(m(a[0], b[1]), m(a[1], b[0]))]


class C:
    """named access to the variables at a point"""

    def __init__(self, e, kw):
        self.e, self.w = e, e.w
        self.foot, self.idx = kw.get("foot", "Right"), kw.get("idx", 1)
        self.npts = e.w.npts
        self.corners = {}
        self.off = set()
        self.robot = e.w.robot
        self.t = T.atom("time")

    def x(self, l):
        return [self.w.x(l, i) for i in range(self.w.off[l][1])]

    def u(self, l):
        return [self.w.u(l, i) for i in range(self.w.off[l][1])]

    def p(self, foot=None, i=None):
        return self.x("%sPositionPoint%d" % (foot or self.foot, self.idx if i is None else i))

    def f(self, foot=None, i=None):
        return self.x("%sForcePoint%d" % (foot or self.foot, self.idx if i is None else i))

    def v(self, foot=None, i=None):
        return self.u("%sVelocityControlPoint%d" % (foot or self.foot, self.idx if i is None else i))

    def uf(self, foot=None, i=None):
        return self.u("%sForceControlPoint%d" % (foot or self.foot, self.idx if i is None else i))

    def meanp(self, foot):
        ps = [self.p(foot, i) for i in range(self.npts)]
        return [div(s(*[q[k] for q in ps]), self.npts) for k in range(3)]

    def tv(self, name, i=None):
        return T.fn(name, self.t)

    # kinematics
    def base(self):
        q = self.x("BaseQuaternion")
        n = T.f1("sqrt", dot(q, q))
        qn = tuple(div(c, n) for c in q)
        return col(self.x("BasePosition")), qrot(qn), qn

    def world_point(self, frame, pos):
        p, R, _ = self.base()
        x = self.robot.frameT(0, self.robot.frames.index(frame), self.x("JointsPosition"))
        return [r for r in aadd(p, amul(R, aadd(x.p, amul(x.R, col(pos))))).ravel()]

    def world_rot(self, frame):
        p, R, _ = self.base()
        return amul(R, self.robot.frameT(0, self.robot.frames.index(frame), self.x("JointsPosition")).R)

    def body_twist(self):
        """base twist in base coordinates from base linear velocity and quaternion derivative"""
        q = self.x("BaseQuaternion")
        _, _, qn = self.base()
        qd = self.u("BaseQuaternionDerivative")
        inv = (qn[0],) + tuple(neg(c) for c in qn[1:])
        w = qmul(inv, tuple(qd))
        return self.u("BaseLinearVelocity") + [m(2, c) for c in w[1:]]


def two(lo, hi, n):
    return (True, [lo] * n, True, [hi] * n)


def none(n):
    return [None] * n


# ---------------------------------------------------------------- constraints
def classical(c):
    return [m(c.p()[2], c.f()[2])], (False, none(1), True, [A("tol")])


def planar_compl(c):
    return [m(c.v()[0], c.f()[2]), m(c.v()[1], c.f()[2])], two(neg(A("tol")), A("tol"), 2)


def force_control(c):
    d = sech(m(A("k"), c.p()[2]))
    return [s(c.uf()[2], neg(m(d, A("maxDer"))), m(sub(1, d), A("diss"), c.f()[2]))], (False, none(1), True, [0])


def friction(c):
    f = c.f()
    return [s(sq(f[0]), sq(f[1]), neg(m(sq(A("friction")), sq(f[2]))))], (False, none(1), True, [0])


def dynamical_compl(c):
    p, f = c.p()[2], c.f()[2]
    return [s(m(c.uf()[2], p), m(f, c.v()[2]), m(A("gain"), p, f))], (False, none(1), True, [A("upper")])


def height(c):
    return [sub(c.meanp("Left")[2], c.meanp("Right")[2])], two(neg(A("maxHeight")), A("maxHeight"), 1)


def normal_velocity(c):
    return [sub(A("maxDer"), c.v()[2]), s(c.v()[2], m(tanh(m(A("k"), c.p()[2])), A("maxDer")))], (True, [0, 0], False, none(2))


def planar_velocity(c):
    d = tanh(m(A("k"), c.p()[2]))
    v = c.v()
    mx = [A("maxX"), A("maxY")]
    return [sub(m(d, mx[i]), v[i]) for i in (0, 1)] + [s(v[i], m(d, mx[i])) for i in (0, 1)], (True, [0] * 4, False, none(4))


def tol(n):
    return two(neg(div(A("tolerance"), 2)), div(A("tolerance"), 2), n)


def qnorm(c):
    q = c.x("BaseQuaternion")
    return [sub(dot(q, q), 1)], tol(1)


def com_position(c):
    p, R, _ = c.base()
    com = aadd(p, amul(R, c.robot.com_in(0, c.x("JointsPosition")))).ravel()
    return [sub(x, k) for x, k in zip(c.x("CoMPosition"), com)], tol(3)


def contact(c):
    fr = "r_sole" if c.foot == "Right" else "l_sole"
    pw = c.world_point(fr, [T.atom("p:positionInFoot[%d]" % i) for i in range(3)])
    return [sub(a, b) for a, b in zip(c.p(), pw)], tol(3)


def lateral(c):
    x = c.robot.frameT(c.robot.frames.index("r_sole"), c.robot.frames.index("l_sole"), c.x("JointsPosition"))
    return [x.p[1, 0]], (True, [A("minDistance")], False, none(1))


def momentum(c):
    """angular momentum about the centre of mass, with world orientation"""
    _, R, _ = c.base()
    sj, sd = c.x("JointsPosition"), c.u("JointsVelocity")
    h = c.robot.momentum(sj, col(c.body_twist()), col(sd))
    com = list(c.robot.com_in(0, sj).ravel())
    lin, ang = list(h.ravel()[:3]), list(h.ravel()[3:])
    hc = [sub(a, b) for a, b in zip(ang, cross(com, lin))]
    hw = amul(R, col(hc)).ravel()
    return [sub(x, k) for x, k in zip(c.x("Momentum")[3:], hw)], tol(3)


# ---------------------------------------------------------------- costs
def half(*xs):
    return [m(0.5, s(*[sq(x) for x in xs]))], None


def complementarity(c):
    return half(m(c.v()[2], c.f()[2]))


def feet_distance(c):
    a, b = c.meanp("Left"), c.meanp("Right")
    return half(*[sub(x, y) for x, y in zip(a[:c.planar], b[:c.planar])])


def force_mean(c):
    fs = [c.f(None, i) for i in range(c.npts)]
    return half(*[sub(c.f()[k], div(s(*[f[k] for f in fs]), c.npts)) for k in (0, 1)])


def force_ratio(c):
    return half(sub(c.f()[2], m(A("ratio"), s(*[c.f(None, i)[2] for i in range(c.npts)]))))


def posture(c):
    n = c.w.n
    u, x = c.u("JointsVelocity"), c.x("JointsPosition")
    return half(*[m(T.atom("p:jw[%d]" % i), s(u[i], m(T.atom("p:jg[%d]" % i), sub(x[i], T.fn("desiredJoints[%d]" % i, c.t))))) for i in range(n)])


def mean_point(c):
    l, r = c.meanp("Left"), c.meanp("Right")
    return [m(0.5, s(*[m(T.fn("weight[%d]" % k, c.t), sq(sub(div(s(l[k], r[k]), 2), T.fn("desiredPosition[%d]" % k, c.t)))) for k in range(3)]))], None


def phantom(c):
    return half(m(sub(1, sech(m(A("k"), c.p()[2]))), c.f()[2]))


def swing(c):
    d = sub(c.p()[2], A("height"))
    return [m(0.5, s(*[m(T.atom("p:weights[%d]" % k), sq(m(c.v()[k], d))) for k in range(3)]))], None


def yaw(c):
    """heel-toe edge orthogonal to, left-right edge along, the direction the desired yaw gives to the nominal heel-toe edge"""
    pos, (br, tr, tl) = c.corners[c.foot] if c.foot in c.corners else YAW[c.npts]
    a0 = float(np.arctan2(pos[tr][1] - pos[br][1], pos[tr][0] - pos[br][0]))
    a = s(T.fn("desiredYaw", c.t), a0)
    cy, sy = T.f1("cos", a), T.f1("sin", a)
    b, t, l = c.p(None, br), c.p(None, tr), c.p(None, tl)
    tb = [sub(t[k], b[k]) for k in (0, 1)]
    lr = [sub(l[k], t[k]) for k in (0, 1)]
    return half(sub(m(tb[1], cy), m(tb[0], sy)), s(m(lr[0], cy), m(lr[1], sy)))


def desired_quat(c):
    """components of the desired rotation (a unit quaternion)"""
    q = [T.fn("desiredRotation.q%d" % i, c.t) for i in range(4)]
    n = T.f1("sqrt", dot(q, q))
    return tuple(div(x, n) for x in q)


def desired_rotation(c):
    return qrot(desired_quat(c))


def orientation(c, kw):
    _, _, qn = c.base()
    rel = c.robot.frameT(0, c.robot.frames.index(kw["frame"]), c.x("JointsPosition")).q
    fr = qmul(qn, rel)
    d = desired_quat(c)
    e = qmul((d[0],) + tuple(neg(x) for x in d[1:]), fr)
    return [m(0.5, T.fn("weight", c.t), s(sq(sub(e[0], 1)), *[sq(x) for x in e[1:]]))], None


def angular_velocity(c, kw):
    """body angular velocity + gain * body orientation error"""
    fr = c.robot.frames.index(kw["frame"])
    tw = c.robot.twist(fr, c.x("JointsPosition"), col(c.body_twist()), col(c.u("JointsVelocity"))).ravel()[3:]
    R = c.world_rot(kw["frame"])
    E = amul(desired_rotation(c).T.copy(), R)
    v = [m(0.5, sub(E[2, 1], E[1, 2])), m(0.5, sub(E[0, 2], E[2, 0])), m(0.5, sub(E[1, 0], E[0, 1]))]
    return half(*[s(w, m(A("gain"), x)) for w, x in zip(tw, v)])


def static_torques(c):
    """joint torques holding the posture against gravity and the contact forces: minus the virtual work of all loads"""
    r = c.robot
    sj = c.x("JointsPosition")
    tau = []
    loads = []
    for l in range(len(r.links)):
        loads.append((c.world_point(r.links[l], r.com[l]), [m(r.mass[l], g) for g in G]))
    for foot, fr, nm in (("Left", "l_sole", "posLeft"), ("Right", "r_sole", "posRight")):
        for i in range(c.npts):
            loads.append((c.world_point(fr, [T.atom("p:%s%d[%d]" % (nm, i, k)) for k in range(3)]), c.f(foot, i)))
    for j in range(r.n):
        tau.append(neg(s(*[m(T.diff(p[k], sj[j]), f[k]) for p, f in loads for k in range(3)])))
    return [m(0.5, s(*[m(T.atom("p:tw[%d]" % j), sq(t)) for j, t in enumerate(tau)]))], None


# ---------------------------------------------------------------- dynamics
def dynamics(c):
    mass = c.robot.total
    com = c.x("CoMPosition")
    out = {}
    lin = [m(mass, g) for g in G]
    ang = [0, 0, 0]
    for foot in ("Left", "Right"):
        for i in range(c.npts):
            f, p = c.f(foot, i), c.p(foot, i)
            lin = [s(a, b) for a, b in zip(lin, f)]
            ang = [s(a, b) for a, b in zip(ang, cross([sub(a, b) for a, b in zip(p, com)], f))]
            dz = 1 if "ks" in c.off else sech(m(A("ks"), p[2]))
            uf, v = c.uf(foot, i), c.v(foot, i)
            out["%sForcePoint%d" % (foot, i)] = [uf[0], uf[1], s(m(dz, uf[2]), neg(m(A("diss"), sub(1, dz), f[2])))]
            dxy = 1 if "kt" in c.off else tanh(m(A("kt"), p[2]))
            out["%sPositionPoint%d" % (foot, i)] = [m(dxy, v[0]), m(dxy, v[1]), v[2]]
    out["Momentum"] = lin + ang
    out["CoMPosition"] = [div(x, mass) for x in c.x("Momentum")[:3]]
    _, R, _ = c.base()
    out["BasePosition"] = list(amul(R, col(c.u("BaseLinearVelocity"))).ravel())
    out["BaseQuaternion"] = c.u("BaseQuaternionDerivative")
    out["JointsPosition"] = c.u("JointsVelocity")
    return [x for l, d in c.w.st for x in out[l]], None


SPEC = {
    "ClassicalComplementarityConstraint": (classical, "the product of the point's height and normal force stays below the tolerance"),
    "ClassicalPlanarComplementarityConstraint": (planar_compl, "tangential velocity times normal force stays within the tolerance"),
    "ContactForceControlConstraints": (force_control, "u_f <= activation * maximum - dissipation of the normal force"),
    "ContactFrictionConstraint": (friction, "the tangential force lies in the friction cone"),
    "DynamicalComplementarityConstraint": (dynamical_compl, "d/dt(p f) <= upper - gain p f"),
    "FeetRelativeHeightConstraint": (height, "mean heights of the feet differ at most by the maximum"),
    "NormalVelocityControlConstraints": (normal_velocity, "-tanh(k p) maximum <= u <= maximum"),
    "PlanarVelocityControlConstraints": (planar_velocity, "|u_xy| <= tanh(k p) maximum"),
    "QuaternionNormConstraint": (qnorm, "unit norm of the base quaternion"),
    "CoMPositionConstraint": (com_position, "the centre of mass variable is the robot's centre of mass"),
    "ContactPositionConsistencyConstraint": (contact, "the contact point variable is the point of the robot's foot"),
    "FeetLateralDistanceConstraint": (lateral, "lateral coordinate of the other foot in the reference foot's frame at least the minimum"),
    "CentroidalMomentumConstraint": (momentum, "the angular momentum variable is the robot's angular momentum about its centre of mass"),
    "ComplementarityCost": (complementarity, "half the square of normal velocity times normal force"),
    "FeetDistanceCost": (feet_distance, "half the squared distance of the feet"),
    "FootYawCost": (yaw, "half the squared misalignment of the foot's edges with the desired yaw"),
    "ForceMeanCost": (force_mean, "half the squared tangential deviation from the mean force"),
    "ForceRatioCost": (force_ratio, "half the squared deviation of the normal force from its share"),
    "JointsVelocityForPosturalCost": (posture, "half the weighted squared deviation from u = -gain (s - desired)"),
    "MeanPointPositionCost": (mean_point, "half the weighted squared deviation of the mean contact point"),
    "PhantomForcesCost": (phantom, "half the squared force at a point off the ground"),
    "SwingCost": (swing, "half the weighted squared product of velocity and height error"),
    "FrameOrientationCost": (orientation, "half the weighted squared distance of the error quaternion from identity"),
    "FrameAngularVelocityCost": (angular_velocity, "half the squared deviation of the body angular velocity from the orientation feedback"),
    "StaticTorquesCost": (static_torques, "half the weighted squared static joint torques"),
    "DynamicalConstraints": (dynamics, "centroidal dynamics, contact point and base kinematics"),
}


def value(P, tier, name, kw):
    res = Res()
    cn = cname(name, kw)
    e = build(P, name, kw, res)
    c = C(e, kw)
    c.planar = 3
    f, text = SPEC[name]
    want, bnd = f(c, kw) if f.__code__.co_argcount == 2 else f(c)
    r = call(e, "value", e.w.point(), res, cn)
    if r is None:
        return res
    ret, val = r
    val = list(val.ravel())
    key = e.o.cls + " value"
    res.site("%s: %s (%s)" % (cn, text, where(e, "value")))
    if len(val) != len(want):
        res.bad(key + " size", where(e, "value"), "%d components instead of %d" % (len(val), len(want)))
        return res
    cond = premises(c, ret)
    bad = {}
    flip = []
    for i, (g, w) in enumerate(zip(val, want)):
        v = same(g, w, cond)
        if v is False and bnd is not None and same(g, neg(w), cond) is True:
            v = True
            flip.append(i)
        if v is True:
            res.good()
        elif v is None:
            res.undecided("%s component %d" % (key, i))
        else:
            bad.setdefault(rowname(e, i) if e.kind == "dyn" else "component %d" % i, (i, g, w))
    for k, (i, g, w) in bad.items():
        res.bad("%s [%s]" % (key, k), where(e, "value"), "computes %s where %s means %s" % (show(g), text, show(w)))
    if bnd is not None:
        bounds(res, e, key, bnd, cond, flip)
    return res


def same(g, w, cond):
    return T.equal_if(cond, g, w)


def premises(c, ret):
    """the evaluation succeeded and the parameters are ones the setter accepts"""
    n = c.e.name
    if n == "ContactFrictionConstraint":
        ret = T.land(ret, T.lnot(T.le(A("friction"), 0)))
    if n == "FeetLateralDistanceConstraint":
        ret = T.land(ret, T.lnot(T.lt(A("minDistance"), 0)))
    return ret


def bounds(res, e, key, bnd, cond, flip):
    """the feasible set: rows may be stated with either sign as long as the bounds follow"""
    lb, l, ub, u = e.bounds()
    wl, wlv, wu, wuv = bnd
    for i in range(len(wlv)):
        lo, hi = (wlv[i] if wl else None), (wuv[i] if wu else None)
        if i in flip:
            lo, hi = (None if hi is None else neg(hi)), (None if lo is None else neg(lo))
        for side, h, hv, w in (("lower", lb, l[i], lo), ("upper", ub, u[i], hi)):
            k = "%s %s bound %d" % (key, side, i)
            if w is None:
                res.decide(T.equal(h, False), k, where(e, "value"), "component %d has a %s bound but should not" % (i, side))
                continue
            v = T.equal(h, True)
            if v is True:
                v = same(hv, w, cond)
            res.decide(v, k, where(e, "value"), "%s bound of component %d is %s (active: %s), should be %s" % (side, i, show(hv), show(h), show(w)))


def tasks(P, pid, tier):
    out = []
    for n in sorted(ALL):
        if n not in SPEC:
            continue
        cf = configs(n, tier)
        if n in ("FrameAngularVelocityCost", "FrameOrientationCost"):
            cf = [dict(k, frame=k.get("frame")) for k in cf]
        for kw in cf:
            out.append((value, (n, kw)))
    return out
