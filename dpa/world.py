"""Layout instances of the optimisation problem and construction recipes for every
evaluable class (constraints, costs, dynamics) of the planner.

The recipes only use the classes' public constructors and setters; every numeric
setting is a symbolic atom ("p:..."), every optimisation variable an atom named
after its label ("x:<label>[i]", "u:<label>[i]").
"""
import numpy as np
from . import terms as T
from .interp import Interp, Obj, Opq, M, Lst, Sp, Ptr, LRef, Abort
from .models import vec, tvo, lst_from, transform, rot_from_quat

PNS = "DynamicalPlanner::Private::"


class Broken(Exception):
    """an anchor of the analysis (class, constructor, method) is not in the code"""


def labels(npts=2, n=4):
    st, ct = [], []
    for f in ("Left", "Right"):
        for i in range(npts):
            st += [(f + "ForcePoint%d" % i, 3), (f + "PositionPoint%d" % i, 3)]
            ct += [(f + "VelocityControlPoint%d" % i, 3), (f + "ForceControlPoint%d" % i, 3)]
    st += [("Momentum", 6), ("CoMPosition", 3), ("BasePosition", 3), ("BaseQuaternion", 4), ("JointsPosition", n)]
    ct += [("BaseLinearVelocity", 3), ("BaseQuaternionDerivative", 4), ("JointsVelocity", n)]
    return st, ct


class World:
    def __init__(self, P, npts=2, robot=None, order=0, n=4):
        self.P = P
        self.npts = npts
        self.robot = robot
        self.n = robot.n if robot is not None else n
        st, ct = labels(npts, self.n)
        if order == 1:
            st, ct = st[::-1], ct[::-1]
        self.st, self.ct = st, ct
        self.I = Interp(P)
        self.off = {}
        for ll in (st, ct):
            o = 0
            for name, d in ll:
                self.off[name] = (o, d)
                o += d
        self.ns = sum(d for _, d in st)
        self.nc = sum(d for _, d in ct)
        self.made = {}
        self.kin = None

    @property
    def S(self):
        if "S" not in self.made:
            self.made["S"] = self.labeller(self.st)
        return self.made["S"]

    @property
    def C(self):
        if "C" not in self.made:
            self.made["C"] = self.labeller(self.ct)
        return self.made["C"]

    # ---------------------------------------------------------------- kinematics
    def kinematics(self, skip=(), fresh=True):
        """TimelySharedKinDynComputations over the symbolic robot and an ExpressionsServer"""
        from . import kin, ideal
        I = self.I
        if self.robot is None:
            raise Broken("no robot")
        if fresh:
            I.hooks[PNS + "SharedKinDynComputations::sameStatePrivate"] = lambda I, th, a, n, c: False
        self.ideal = ideal.install(self, skip)
        t = I.construct_default(PNS + "TimelySharedKinDynComputations")
        if self.call(t, "loadRobotModel", [kin.model_value(I, self.robot)]) is False:
            raise Broken("loadRobotModel refused the model")
        self.call(t, "setGravity", [self.pvec("gravity", 3)])
        self.tskd = Ptr(t)
        self.es = None
        return self.tskd

    def server(self):
        if self.es is None:
            o = self.ctor("ExpressionsServer", [self.tskd])
            self.es = Ptr(o)
        return self.es

    def fidx(self, name):
        return self.robot.frames.index(name)

    # ---------------------------------------------------------------- helpers
    def labeller(self, ll):
        I = self.I
        cls = PNS + "VariablesLabeller"
        o = I.construct_default(cls)
        f = self.P.find(cls + "::addLabel")
        if not f:
            raise Broken("VariablesLabeller::addLabel")
        for name, d in ll:
            if I.call_fn(f[0], o, [name, d]) is not True:
                raise Broken("VariablesLabeller::addLabel did not accept " + name)
        return o

    def ctor(self, cls, args):
        q = cls if "::" in cls else PNS + cls
        fs = [x for x in self.P.methods(q) if x.ctor == "other" and len(x.params) >= len(args)]
        if not fs:
            if q in self.P.records and not args:
                return self.I.construct_default(q)
            raise Broken("constructor of " + cls)
        fs.sort(key=lambda f: len(f.params))
        return self.I.construct(fs[0], q, args)

    def call(self, o, name, args):
        fs = self.P.method(o.cls, name)
        if not fs:
            raise Broken("%s::%s" % (o.cls, name))
        fs = [f for f in fs if len(f.params) == len(args)] or fs
        return self.I.call_fn(fs[0], o, args)

    def has(self, o, name):
        return bool(self.P.method(o.cls, name))

    def act(self, cls, p):
        o = self.I.construct_default(PNS + cls)
        self.call(o, "setScaling", [T.atom("p:" + p)])
        return o

    def pvec(self, name, n, kind="fix"):
        return vec(self.I, [T.atom("p:%s[%d]" % (name, i)) for i in range(n)], kind)

    def plst(self, name, k):
        return lst_from(self.I, [self.pvec("%s%d" % (name, i), 3) for i in range(k)])

    def sh(self, o):
        return Ptr(o)

    # ---------------------------------------------------------------- points
    def x(self, label, i, tag=""):
        return T.atom("x%s:%s[%d]" % (tag, label, i))

    def u(self, label, i, tag=""):
        return T.atom("u%s:%s[%d]" % (tag, label, i))

    def state_atoms(self, tag=""):
        return [self.x(l, i, tag) for l, d in self.st for i in range(d)]

    def ctrl_atoms(self, tag=""):
        return [self.u(l, i, tag) for l, d in self.ct for i in range(d)]

    def point(self, tag="", xt=None, ut=None, tt=None):
        return Pt(self, tag, xt, ut, tt)


class Pt:
    def __init__(self, w, tag="", xt=None, ut=None, tt=None):
        self.w = w
        self.xs = w.state_atoms(tag if xt is None else xt)
        self.us = w.ctrl_atoms(tag if ut is None else ut)
        self.t = T.atom("time" + (tag if tt is None else tt))
        self.tag = tag

    def state(self):
        return vec(self.w.I, list(self.xs), "dyn")

    def control(self):
        return vec(self.w.I, list(self.us), "dyn")


# ---------------------------------------------------------------- evaluables
NAMES = {
    "constraint": dict(
        value="evaluateConstraint", js="constraintJacobianWRTState", jc="constraintJacobianWRTControl",
        hss="constraintSecondPartialDerivativeWRTState", hcc="constraintSecondPartialDerivativeWRTControl",
        hsc="constraintSecondPartialDerivativeWRTStateControl"),
    "cost": dict(
        value="costEvaluation", js="costFirstPartialDerivativeWRTState", jc="costFirstPartialDerivativeWRTControl",
        hss="costSecondPartialDerivativeWRTState", hcc="costSecondPartialDerivativeWRTControl",
        hsc="costSecondPartialDerivativeWRTStateControl"),
    "dyn": dict(
        value="dynamics", js="dynamicsStateFirstDerivative", jc="dynamicsControlFirstDerivative",
        hss="dynamicsSecondPartialDerivativeWRTState", hcc="dynamicsSecondPartialDerivativeWRTControl",
        hsc="dynamicsSecondPartialDerivativeWRTStateControl"),
}


class Ev:
    """one evaluable object inside its own interpreter instance"""

    def __init__(self, w, kind, o, m=1, name=None):
        self.w, self.kind, self.o, self.m = w, kind, o, m
        self.name = name or o.cls.rsplit("::", 1)[-1]

    def rows(self):
        if self.kind == "constraint":
            return self.o.d["#size"]
        return 1 if self.kind == "cost" else self.w.ns

    def has(self, what):
        return self.w.has(self.o, NAMES[self.kind][what])

    def fn(self, what):
        f = self.w.P.method(self.o.cls, NAMES[self.kind][what])
        if not f:
            raise Broken("%s::%s" % (self.o.cls, NAMES[self.kind][what]))
        return f[0]

    def lam(self):
        return [T.atom("lambda[%d]" % i) for i in range(self.rows())]

    def dims(self, what):
        w = self.w
        r = self.rows()
        return {"value": (r, 1), "js": (r, w.ns), "jc": (r, w.nc), "hss": (w.ns, w.ns), "hcc": (w.nc, w.nc),
                "hsc": (w.ns, w.nc)}[what]

    def out(self, what, fill=None):
        """fresh output container; fill None -> zeros, else atoms with that stem"""
        I = self.w.I
        r, c = self.dims(what)
        f = (lambda i: T.atom("%s[%d,%d]" % (fill, i[0], i[1]))) if fill else (lambda i: 0)
        if what == "value":
            if self.kind == "cost":
                h = Obj("#h")
                h.d["v"] = T.atom(fill + "[0,0]") if fill else 0
                return h
            return I.mfill(r, 1, f, "dyn", True)
        if self.kind == "cost" and what in ("js", "jc"):
            return I.mfill(c, 1, f, "dyn", True)
        return I.mfill(r, c, f, "dyn")

    def call(self, what, pt, out=None):
        """-> (return value, numpy array of terms)"""
        I = self.w.I
        f = self.fn(what)
        h = self.out(what) if out is None else out
        arg = LRef(h, "v") if isinstance(h, Obj) else h
        st, ct = pt.state(), pt.control()
        if self.kind == "dyn":
            self.o.d["#control"] = ct
            if what in ("value", "js", "jc"):
                a = [st, pt.t, arg]
            else:
                a = [pt.t, st, vec(I, self.lam(), "dyn"), arg]
        elif self.kind == "constraint":
            a = [pt.t, st, ct] + ([vec(I, self.lam(), "dyn")] if what[0] == "h" else []) + [arg]
        else:
            a = [pt.t, st, ct, arg]
        r = I.call_fn(f, self.o, a)
        if isinstance(h, Obj):
            return r, np.array([[I.rd(h.d["v"])]], dtype=object)
        m = I.m_arr(h)
        if self.kind == "cost" and what in ("js", "jc"):
            m = np.asarray(m, dtype=object).reshape(1, -1)
        return r, np.asarray(m, dtype=object)

    def sparsity(self, what):
        """set of (row, col) declared, or None if the class does not declare it"""
        I = self.w.I
        if self.kind == "dyn":
            n = {"js": "dynamicsStateFirstDerivativeSparsity", "jc": "dynamicsControlFirstDerivativeSparsity",
                 "hss": "dynamicsSecondPartialDerivativeWRTStateSparsity", "hcc": "dynamicsSecondPartialDerivativeWRTControlSparsity",
                 "hsc": "dynamicsSecondPartialDerivativeWRTStateControlSparsity"}[what]
        else:
            n = NAMES[self.kind][what] + "Sparsity"
        f = self.w.P.method(self.o.cls, n)
        if not f:
            return None, None
        s = Sp()
        r = I.call_fn(f[0], self.o, [s])
        return r, s

    def bounds(self):
        d = self.o.d
        I = self.w.I
        return (d["m_isLowerBounded"], I.m_arr(d["m_lowerBound"]).ravel(), d["m_isUpperBounded"], I.m_arr(d["m_upperBound"]).ravel())


def A(s):
    return T.atom("p:" + s)


def _pt(cls, kind, extra):
    def build(w, foot="Right", idx=1):
        o = w.ctor(cls, [w.S, w.C, foot, idx] + extra(w, foot))
        return Ev(w, kind, o)
    build.per_point = True
    return build


def _friction(w, foot="Right", idx=1):
    o = w.ctor("ContactFrictionConstraint", [w.S, w.C, foot, idx])
    w.call(o, "setFrictionCoefficient", [A("friction")])
    return Ev(w, "constraint", o)


_friction.per_point = True


def _ratio(w, foot="Right", idx=1):
    o = w.ctor("ForceRatioCost", [w.S, w.C, foot, idx])
    w.call(o, "setDesiredRatio", [A("ratio")])
    return Ev(w, "cost", o)


_ratio.per_point = True


# number of points -> positions in the foot, (heel right, toe right, toe left) corners
YAW = {4: ([(-0.061, -0.048), (0.113, -0.031), (0.094, 0.052), (-0.078, 0.037)], (0, 1, 2)),
       10: ([(-0.03, -0.02), (0.05, -0.02), (-0.061, -0.048), (0.113, -0.031), (0.03, -0.01), (-0.02, -0.03), (0.04, 0.03), (0.094, 0.052),
             (-0.078, 0.037), (0.02, 0.02)], (2, 3, 7))}


def _yaw(w, foot="Right"):
    pos = YAW[w.npts][0]
    o = w.ctor("FootYawCost", [w.S, foot, lst_from(w.I, [vec(w.I, [x, y, -0.01]) for x, y in pos])])
    w.call(o, "setDesiredYawTrajectory", [w.sh(tvo(w.I, "desiredYaw", "double"))])
    return Ev(w, "cost", o)


_yaw.per_foot = True
_yaw.counts = sorted(YAW)


def _posture(w):
    n = w.n
    o = w.ctor("JointsVelocityForPosturalCost", [w.S, w.C, w.pvec("jw", n, "dyn"), w.pvec("jg", n, "dyn"),
                                                w.sh(tvo(w.I, "desiredJoints", "dyn", n))])
    return Ev(w, "cost", o)


def _mean(w):
    o = w.ctor("MeanPointPositionCost", [w.S, w.C])
    w.call(o, "setDesiredPositionTrajectory", [w.sh(tvo(w.I, "desiredPosition", "fix", 3))])
    w.call(o, "setTimeVaryingWeight", [w.sh(tvo(w.I, "weight", "dyn", 3))])
    return Ev(w, "cost", o)


def _qnorm(w):
    o = w.ctor("QuaternionNormConstraint", [w.S, w.C])
    w.call(o, "setEqualityTolerance", [A("tolerance")])
    return Ev(w, "constraint", o)


FREE = {
    "ClassicalComplementarityConstraint": _pt("ClassicalComplementarityConstraint", "constraint", lambda w, f: [A("tol")]),
    "ClassicalPlanarComplementarityConstraint": _pt("ClassicalPlanarComplementarityConstraint", "constraint", lambda w, f: [A("tol")]),
    "ContactForceControlConstraints": _pt("ContactForceControlConstraints", "constraint", lambda w, f: [w.act("HyperbolicSecant", "k"), A("maxDer"), A("diss")]),
    "ContactFrictionConstraint": _friction,
    "DynamicalComplementarityConstraint": _pt("DynamicalComplementarityConstraint", "constraint", lambda w, f: [A("gain"), A("upper")]),
    "FeetRelativeHeightConstraint": lambda w: Ev(w, "constraint", w.ctor("FeetRelativeHeightConstraint", [w.S, w.C, A("maxHeight")])),
    "NormalVelocityControlConstraints": _pt("NormalVelocityControlConstraints", "constraint", lambda w, f: [w.act("HyperbolicTangent", "k"), A("maxDer")]),
    "PlanarVelocityControlConstraints": _pt("PlanarVelocityControlConstraints", "constraint", lambda w, f: [w.act("HyperbolicTangent", "k"), A("maxX"), A("maxY")]),
    "QuaternionNormConstraint": _qnorm,
    "ComplementarityCost": _pt("ComplementarityCost", "cost", lambda w, f: []),
    "FeetDistanceCost": lambda w: Ev(w, "cost", w.ctor("FeetDistanceCost", [w.S, w.C])),
    "FootYawCost": _yaw,
    "ForceMeanCost": _pt("ForceMeanCost", "cost", lambda w, f: []),
    "ForceRatioCost": _ratio,
    "JointsVelocityForPosturalCost": _posture,
    "MeanPointPositionCost": _mean,
    "PhantomForcesCost": _pt("PhantomForcesCost", "cost", lambda w, f: [w.act("HyperbolicSecant", "k")]),
    "SwingCost": _pt("SwingCost", "cost", lambda w, f: [A("height"), w.pvec("weights", 3)]),
}


# ---------------------------------------------------------------- kinematic evaluables
def kinw(f):
    def build(w, fresh=True, **kw):
        w.kinematics(fresh=fresh)
        return f(w, **kw)
    build.kin = True
    return build


def _rot(w, name):
    return w.sh(tvo(w.I, name, "rot"))


@kinw
def _cm(w):
    o = w.ctor("CentroidalMomentumConstraint", [w.S, w.C, w.tskd, w.server()])
    w.call(o, "setEqualityTolerance", [A("tolerance")])
    return Ev(w, "constraint", o)


@kinw
def _comp(w):
    o = w.ctor("CoMPositionConstraint", [w.S, w.C, w.tskd, w.server()])
    w.call(o, "setEqualityTolerance", [A("tolerance")])
    return Ev(w, "constraint", o)


@kinw
def _contact(w, foot="Right", idx=1):
    o = w.ctor("ContactPositionConsistencyConstraint", [w.S, w.C, w.tskd, w.server(), w.fidx("r_sole" if foot == "Right" else "l_sole"), foot,
                                                      w.pvec("positionInFoot", 3), idx])
    w.call(o, "setEqualityTolerance", [A("tolerance")])
    return Ev(w, "constraint", o)


_contact.per_point = True


@kinw
def _dyn(w):
    o = w.ctor("DynamicalConstraints", [w.S, w.C, w.tskd, w.server(), w.act("HyperbolicTangent", "kt"), w.act("HyperbolicSecant", "ks"), A("diss")])
    return Ev(w, "dyn", o)


@kinw
def _lateral(w):
    o = w.ctor("FeetLateralDistanceConstraint", [w.S, w.C, w.tskd, w.server(), 1, w.fidx("r_sole"), w.fidx("l_sole")])
    w.call(o, "setMinimumDistance", [A("minDistance")])
    return Ev(w, "constraint", o)


@kinw
def _fav(w, frame="neck"):
    o = w.ctor("FrameAngularVelocityCost", [w.S, w.C, w.tskd, w.server(), w.fidx(frame), A("gain")])
    w.call(o, "setDesiredRotationTrajectory", [_rot(w, "desiredRotation")])
    return Ev(w, "cost", o)


@kinw
def _forient(w, frame="l_sole"):
    o = w.ctor("FrameOrientationCost", [w.S, w.C, w.tskd, w.server(), w.fidx(frame)])
    w.call(o, "setDesiredRotationTrajectory", [_rot(w, "desiredRotation")])
    w.call(o, "setTimeVaryingWeight", [w.sh(tvo(w.I, "weight", "double"))])
    return Ev(w, "cost", o)


@kinw
def _static(w):
    o = w.ctor("StaticTorquesCost", [w.S, w.C, w.tskd, w.fidx("l_sole"), w.fidx("r_sole"), w.plst("posLeft", w.npts), w.plst("posRight", w.npts)])
    w.call(o, "setWeights", [w.pvec("tw", w.n, "dyn")])
    return Ev(w, "cost", o)


KIN = {
    "CoMPositionConstraint": _comp, "ContactPositionConsistencyConstraint": _contact, "DynamicalConstraints": _dyn,
    "FeetLateralDistanceConstraint": _lateral, "FrameOrientationCost": _forient, "FrameAngularVelocityCost": _fav,
    "StaticTorquesCost": _static, "CentroidalMomentumConstraint": _cm,
}
ALL = dict(FREE)
ALL.update(KIN)


def make(P, name, robot=None, order=0, npts=2, **kw):
    from . import kin
    b = ALL[name]
    if robot is None and getattr(b, "kin", False):
        robot = kin.Robot()
    w = World(P, npts=npts, robot=robot if getattr(b, "kin", False) else None, order=order)
    return b(w, **kw)
