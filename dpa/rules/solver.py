"""C16: the optimal control problem built by the Solver is the one the settings describe.

Solver::specifySettings is interpreted on a settings structure whose numbers, switches and references are symbolic, against
recording models of the optimal control framework.  What was registered is compared with formulas over the settings.
"""
import numpy as np

from .. import terms as T
from .. import ideal, kin, solverlib
from ..interp import Abort, Ch, Ent, Lst, M, Obj, Opq, Ptr
from ..models import lst_from, tvo, vec
from ..report import Res
from ..world import Broken, Ev, PNS, Pt, World
from . import settings as SE
from . import values as V
from .values import m, neg, sub

NS = "DynamicalPlanner::"
NPTS = 4
# corner positions of the contact points in the feet (front left, front right, back right, back left; the other foot in another order)
FEET = {"Left": ([(0.113, 0.052), (0.094, -0.048), (-0.061, -0.031), (-0.078, 0.037)], (2, 1, 0)),
        "Right": ([(-0.069, -0.045), (0.101, -0.033), (0.087, 0.057), (-0.073, 0.041)], (0, 1, 2))}


# quantities accepted settings keep nonnegative (and the friction coefficient positive): squares of free atoms
SQUARED = set(SE.NONNEG) | {n for n in SE.TYPED if n != "planarVelocityHyperbolicTangentScaling"} | {"frictionCoefficient", "desiredSwingHeight"}


def a(n, stem="s"):
    x = T.atom("%s:%s" % (stem, n))
    return T.mul(x, x) if n in SQUARED else x


class Built:
    """a Solver after specifySettings"""

    def __init__(self, P, compl, planar, fallible=False, opts=None, before=None, again=None):
        self.P = P
        self.mark = 0
        R = kin.Robot()
        w = self.w = World(P, npts=NPTS, robot=R)
        I = self.I = w.I
        I.hooks[PNS + "SharedKinDynComputations::sameStatePrivate"] = lambda I, th, a, n, c: False
        ideal.install(w, ())
        I.opt.update(opts or {})
        I.known = {}
        for ff in (a("frictionCoefficient"), a("frictionCoefficient", "old")):
            I.known.update({T.le(ff, 0): False, T.lt(0, ff): True, T.le(0, ff): True, T.lt(ff, 0): False})
        if fallible:
            I.opt["fallible"] = True
        self.s = s = settings(P, I, R, compl, planar)
        I.hooks[NS + "Settings::isValid"] = lambda I, th, a, n, c: I.opt.get("settings_valid", True)
        cur = [s]
        I.hooks[NS + "Settings::getSettings"] = lambda I, th, a, n, c: cur[0].o
        I.opt.setdefault("mss_getPossibleTimings", lambda I, o, a: [I.assign(I.rd(x), lst_from(I, [])) for x in a])
        self.so = w.ctor(NS + "Solver", [])
        self.st = I.construct_default(NS + "Settings")
        if before:
            before(self)
        self.where = self.place("specifySettings")
        if again:
            # an earlier, different configuration was accepted and replaced
            cur[0] = settings(P, I, R, again[0], again[1], "old", again[2])
            w.call(self.so, "specifySettings", [self.st])
            if again[3:]:
                self.layout()
                again[3](self)
            cur[0] = s
            self.mark = len(I.events)
        self.ret = w.call(self.so, "specifySettings", [self.st])
        self.layout()

    def place(self, n):
        f = self.P.method(NS + "Solver", n)
        if not f:
            raise Broken("Solver::" + n)
        return "%s:%s" % (f[0].file, f[0].line)

    def events(self, *what):
        return [e for e in self.I.events[self.mark:] if e["kind"] == "ocp" and e["what"] in what]

    def layout(self):
        """the variable order the solver decided on"""
        labs = {}
        for o in reach(self.I, self.so):
            if isinstance(o, Obj) and o.cls == PNS + "VariablesLabeller":
                ls = labels_of(self.I, o)
                for key, mark in (("S", "Momentum"), ("C", "JointsVelocity")):
                    if any(n == mark for n, _, _ in ls):
                        labs.setdefault(key, (o, ls))
        if set(labs) != {"S", "C"}:
            raise Broken("the Solver's variables labellers")
        w = self.w
        w.made.update(S=labs["S"][0], C=labs["C"][0])
        w.off = {}
        for key, at in (("S", "st"), ("C", "ct")):
            ls = sorted(labs[key][1], key=lambda x: x[1])
            setattr(w, at, [(n, d) for n, _, d in ls])
            for n, o, d in ls:
                w.off[n] = (o, d)
        w.ns = sum(d for _, d in w.st)
        w.nc = sum(d for _, d in w.ct)

    def c(self, foot="Left", idx=0):
        e = Ev(self.w, "cost", None, name="?")
        c = V.C(e, {"foot": foot, "idx": idx})
        c.planar = 3
        c.corners = FEET
        return c


def settings(P, I, R, compl, planar, stem="s", k=NPTS):
    over = {"leftPointsPosition": lst_from(I, [vec(I, [x, y, -0.01]) for x, y in FEET["Left"][0][:k]]),
            "rightPointsPosition": lst_from(I, [vec(I, [x, y, -0.02]) for x, y in FEET["Right"][0][:k]]),
            "desiredLeftRatios": lst_from(I, [a("desiredLeftRatios[%d]" % i, stem) for i in range(k)]),
            "desiredRightRatios": lst_from(I, [a("desiredRightRatios[%d]" % i, stem) for i in range(k)]),
            "indexOfLateralDirection": 1, "complementarity": compl, "planarComplementarity": planar}
    for n, j in (("desiredJointsTrajectory", R.n), ("desiredJointsVelocityTrajectory", R.n), ("desiredBaseQuaternionTrajectory", 4),
                 ("desiredBaseQuaternionVelocityTrajectory", 4)):
        over[n] = Ptr(tvo(I, stem + ":" + n, "dyn", j))
    for n in SQUARED:
        over[n] = a(n, stem)
    over["frameCostTimeVaryingWeight"] = Ptr(tvo(I, stem + ":frameCostTimeVaryingWeight", "double"))
    over["meanPointPositionCostTimeVaryingWeight"] = Ptr(tvo(I, stem + ":meanPointPositionCostTimeVaryingWeight", "dyn", 3))
    return SE.S(P, I, R, over, stem)


def reach(I, root):
    seen, stack = set(), [root]
    while stack:
        o = stack.pop()
        if isinstance(o, Ptr):
            o = o.t
        if isinstance(o, Ch):
            stack += [o.a, o.b]
            continue
        if o is None or not isinstance(o, Ent) or id(o) in seen:
            continue
        seen.add(id(o))
        yield o
        d = getattr(o, "d", None)
        if isinstance(d, dict) and not isinstance(o, M):
            stack += list(d.values())


def labels_of(I, o):
    """(name, offset, size) through the labeller's own interface"""
    P = I.P
    f = P.method(o.cls, "listOfLabels")
    if not f:
        raise Broken("VariablesLabeller::listOfLabels")
    l = I.rd(I.call_fn(f[0], o, []))
    out = []
    g = [x for x in P.method(o.cls, "getIndexRange")][0]
    for k in range(l.d["#n"]):
        n = I.rd(l.d[k])
        r = I.rd(I.call_fn(g, o, [n]))
        out.append((n, I.rd(r.d["offset"]), I.rd(r.d["size"])))
    return out


# ---------------------------------------------------------------- the specification
def nm(*pairs, **kw):
    """renaming of a formula's parameters to settings"""
    return {"p:" + k: v if not isinstance(v, str) else a(v) for k, v in kw.items()}


def vren(stem, field, n):
    return {"p:%s[%d]" % (stem, i): a("%s[%d]" % (field, i)) for i in range(n)}


def frename(stem, field, n=None):
    return {stem: "s:" + field} if n is None else {"%s[%d]" % (stem, i): "s:%s[%d]" % (field, i) for i in range(n)}


GRAV = vren("gravity", "gravity", 3)


def formula(b, name, atoms, fns=None, foot="Left", idx=0, kw=None, off=()):
    c = b.c(foot, idx)
    c.off = set(off)
    f = V.SPEC[name][0]
    want, bnd = f(c, kw) if f.__code__.co_argcount == 2 else f(c)
    r = lambda x: None if x is None else T.rename(x, dict(GRAV, **atoms), fns or {})
    return [r(x) for x in want], None if bnd is None else (bnd[0], [r(x) for x in bnd[1]], bnd[2], [r(x) for x in bnd[3]])


def l2(b, kind, label, weights, ref, part=None, scale=1):
    c = b.c()
    v = c.x(label) if kind == "x" else c.u(label)
    if part:
        v = v[part[0]:part[1]]
    tot = 0
    for i, x in enumerate(v):
        w = a("%s[%d]" % (weights, i)) if weights else 1
        e = sub(x, m(scale, T.fn("s:%s[%d]" % (ref, i), c.t))) if ref else x
        tot = T.add(tot, m(w, e, e))
    return [m(0.5, tot)]


def objective(b):
    """switch -> list of (overall weight, active range or None, value, text)"""
    R = b.w.robot
    both = [(f, i) for f in ("Left", "Right") for i in range(NPTS)]
    one = lambda name, *k, **kw: [formula(b, name, *k, **kw)[0][0]]
    sw = nm(k="normalForceHyperbolicSecantScaling")
    o = {}

    def put(flag, weight, terms, rng=None):
        o[flag] = [(weight, rng, t) for t in terms]
    put("comCostActive", "comCostOverallWeight", l2(b, "x", "CoMPosition", "comWeights", "desiredCoMTrajectory"), "comCostActiveRange")
    put("comVelocityCostActive", "comVelocityCostOverallWeight",
        l2(b, "x", "Momentum", "comVelocityWeights", "desiredCoMVelocityTrajectory", (0, 3), R.total), "comVelocityCostActiveRange")
    put("frameCostActive", "frameCostOverallWeight",
        one("FrameOrientationCost", {}, dict({"desiredRotation.q%d" % i: "s:desiredRotationTrajectory.q%d" % i for i in range(4)},
                                             weight="s:frameCostTimeVaryingWeight"), kw={"frame": "neck"}))
    put("forceMeanCostActive", "forceMeanCostOverallWeight", [one("ForceMeanCost", {}, foot=f, idx=i)[0] for f, i in both])
    put("forceRatioCostActive", "forceRatioCostOverallWeight",
        [one("ForceRatioCost", nm(ratio="desired%sRatios[%d]" % (f, i)), foot=f, idx=i)[0] for f, i in both])
    put("jointsRegularizationCostActive", "jointsRegularizationCostOverallWeight",
        l2(b, "x", "JointsPosition", "jointsRegularizationWeights", "desiredJointsTrajectory"))
    put("jointsVelocityCostActive", "jointsVelocityCostOverallWeight",
        l2(b, "u", "JointsVelocity", "jointsVelocityCostWeights", "desiredJointsVelocityTrajectory"))
    pos = {}
    for f, h in (("Left", -0.01), ("Right", -0.02)):
        for i, (x, y) in enumerate(FEET[f][0]):
            pos.update({"p:pos%s%d[%d]" % (f, i, k): v for k, v in enumerate((x, y, h))})
    put("staticTorquesCostActive", "staticTorquesCostOverallWeight", one("StaticTorquesCost", dict(pos, **vren("tw", "staticTorquesCostWeights", R.n))))
    put("forceDerivativeCostActive", "forceDerivativesCostOverallWeight",
        [l2(b, "u", "%sForceControlPoint%d" % (f, i), "forceDerivativeWeights", "desiredForceDerivativeTrajectory")[0] for f, i in both])
    put("pointAccelerationCostActive", "pointAccelerationCostOverallWeight",
        [l2(b, "u", "%sVelocityControlPoint%d" % (f, i), "pointAccelerationWeights", "desiredPointAccelerationTrajectory")[0] for f, i in both])
    put("swingCostActive", "swingCostOverallWeight",
        [one("SwingCost", dict(nm(height="desiredSwingHeight"), **vren("weights", "swingCostWeights", 3)), foot=f, idx=i)[0] for f, i in both])
    put("phantomForcesCostActive", "phantomForcesCostOverallWeight", [one("PhantomForcesCost", sw, foot=f, idx=i)[0] for f, i in both])
    put("meanPointPositionCostActive", "meanPointPositionCostOverallWeight",
        one("MeanPointPositionCost", {}, dict(frename("desiredPosition", "desiredMeanPointPosition", 3),
                                              **frename("weight", "meanPointPositionCostTimeVaryingWeight", 3))), "meanPointPositionCostActiveRange")
    for f in ("Left", "Right"):
        l = f.lower()
        put(l + "FootYawCostActive", l + "FootYawCostOverallWeight", one("FootYawCost", {}, frename("desiredYaw", "desired%sFootYaw" % f), foot=f))
    put("feetDistanceCostActive", "feetDistanceCostOverallWeight", one("FeetDistanceCost", {}))
    put("jointsVelocityForPosturalCostActive", "jointsVelocityForPosturalCostOverallWeight",
        one("JointsVelocityForPosturalCost", dict(vren("jw", "jointsVelocityCostWeights", R.n), **vren("jg", "jointsRegularizationWeights", R.n)),
            frename("desiredJoints", "desiredJointsTrajectory", R.n)))
    put("complementarityCostActive", "complementarityCostOverallWeight", [one("ComplementarityCost", {}, foot=f, idx=i)[0] for f, i in both])
    put("basePositionCostActive", "basePositionCostOverallWeight",
        l2(b, "x", "BasePosition", "basePositionCostWeights", "desiredBasePositionTrajectory"), "basePositionCostActiveRange")
    put("baseQuaternionCostActive", "baseQuaternionCostOverallWeight", l2(b, "x", "BaseQuaternion", None, "desiredBaseQuaternionTrajectory"))
    put("frameAngularVelocityCostActive", "frameAngularVelocityCostOverallWeight",
        one("FrameAngularVelocityCost", nm(gain="rotationalPIDgain"),
            {"desiredRotation.q%d" % i: "s:desiredRotationTrajectory.q%d" % i for i in range(4)}, kw={"frame": "neck"}))
    put("baseLinearVelocityCostActive", "baseLinearVelocityCostOverallWeight",
        l2(b, "u", "BaseLinearVelocity", "baseLinearVelocityCostWeights", "desiredBaseLinearVelocityTrajectory"))
    put("baseQuaternionVelocityCostActive", "baseQuaternionVelocityCostOverallWeight",
        l2(b, "u", "BaseQuaternionDerivative", None, "desiredBaseQuaternionVelocityTrajectory"))
    put("angularMomentumCostActive", "angularMomentumCostOverallWeight", l2(b, "x", "Momentum", None, None, (3, 6)))
    return o


def feasible(b, compl, planar):
    """(description, value rows, bounds)"""
    out = []

    def put(text, name, atoms, **kw):
        out.append((text, name) + formula(b, name, atoms, **kw))
    put("angular momentum consistency", "CentroidalMomentumConstraint", nm(tolerance="centroidalMomentumConstraintTolerance"))
    put("centre of mass consistency", "CoMPositionConstraint", nm(tolerance="comPositionConstraintTolerance"))
    put("minimum feet distance", "FeetLateralDistanceConstraint", nm(minDistance="minimumFeetDistance"))
    put("unit quaternion", "QuaternionNormConstraint", nm(tolerance="quaternionModulusConstraintTolerance"))
    put("relative feet height", "FeetRelativeHeightConstraint", nm(maxHeight="feetMaximumRelativeHeight"))
    for f, h in (("Left", -0.01), ("Right", -0.02)):
        for i, (x, y) in enumerate(FEET[f][0]):
            k = dict(foot=f, idx=i)
            t = " of %s point %d" % (f.lower(), i)
            if planar == SE.PLANAR["Tanh"]:
                put("planar velocity limit" + t, "PlanarVelocityControlConstraints",
                    nm(k="planarVelocityHyperbolicTangentScaling", maxX="velocityMaximumDerivative[0]", maxY="velocityMaximumDerivative[1]"), **k)
            if planar == SE.PLANAR["Classical"]:
                put("planar complementarity" + t, "ClassicalPlanarComplementarityConstraint", nm(tol="classicalPlanarComplementarityTolerance"), **k)
            if compl == SE.COMPL["Dynamical"]:
                put("dynamical complementarity" + t, "DynamicalComplementarityConstraint",
                    nm(gain="complementarityDissipation", upper="dynamicComplementarityUpperBound"), **k)
            if compl == SE.COMPL["Secant"]:
                put("force derivative limit" + t, "ContactForceControlConstraints",
                    nm(k="normalForceHyperbolicSecantScaling", maxDer="forceMaximumDerivative[2]", diss="normalForceDissipationRatio"), **k)
            if compl == SE.COMPL["Classical"]:
                put("complementarity" + t, "ClassicalComplementarityConstraint", nm(tol="classicalComplementarityTolerance"), **k)
            put("friction" + t, "ContactFrictionConstraint", nm(friction="frictionCoefficient"), **k)
            put("contact position" + t, "ContactPositionConsistencyConstraint",
                dict(nm(tolerance="pointPositionConstraintTolerance"), **{"p:positionInFoot[%d]" % j: v for j, v in enumerate((x, y, h))}), **k)
    return out


def rows(val, bnd):
    """one-sided inequalities g >= 0"""
    lb, lo, ub, hi = bnd
    out = []
    for i, v in enumerate(val):
        if lb and lo[i] is not None:
            out.append((i, "lower", sub(v, lo[i])))
        if ub and hi[i] is not None:
            out.append((i, "upper", sub(hi[i], v)))
    return out


# ---------------------------------------------------------------- obligations
def known_valid(b, *ts):
    """references supply values and the solver accepted the settings"""
    m = {}
    for t in ts:
        for x in T.atoms_of(t) if T.isn(t) else ():
            if x.op == "batom" and x.args[0].startswith("valid("):
                m[x] = True
    return [T.subst(t, m) for t in ts]


def text(x):
    return T.show(x, 4)[:160] if not isinstance(x, str) else x


def costs(P, tier, compl, planar, again=None):
    res = Res()
    b = Built(P, compl, planar, again=again)
    I, w = b.I, b.w
    pt = Pt(w)
    terms = []
    names = {}
    for e in b.events("addMayerTerm"):
        res.bad("terminal cost", b.where, "a terminal cost is added")
    for e in b.events("addLagrangeTerm"):
        ar = e["args"]
        cost = I.rd(ar[-1])
        if not isinstance(cost, Ptr) or cost.t is None:
            res.undecided("cost object %r" % (cost,))
            continue
        o = cost.t
        t = pt.t
        on = True
        if len(ar) == 3:
            r = ar[1]
            on = T.land(T.le(I.rd(r.d["init"]), t), T.le(t, I.rd(r.d["end"])))
        elif len(ar) == 4:
            on = T.land(T.le(ar[1], t), T.le(t, ar[2]))
        h = Obj("#h")
        h.d["v"] = 0
        got = []

        def run():
            if "#l2" in o.d:
                v, ok = solverlib.l2_value(I, o, t, pt.xs, pt.us)
                got.append((ok, v))
            else:
                e_ = Ev(w, "cost", o)
                r_, v = e_.call("value", pt)
                got.append((r_, v[0, 0]))
        try:
            I.under(e["guard"], run) if e["guard"] is not True else run()
        except Abort as x:
            res.stopped("cost " + o.cls, b.where, x)
            continue
        ok, v = got[0]
        n = o.d.get("#name", "?")
        for g2, o2 in names.get(n, []):
            both = T.land(g2, e["guard"])
            if o2 is not o and T.V0(both).astype(bool).any() if T.isn(both) else both:
                res.bad("cost name " + str(n), b.where, "two costs are added under the name %s, the second one is refused" % n)
        names.setdefault(n, []).append((e["guard"], o))
        ok, v, g = known_valid(b, ok, v, e["guard"])
        terms.append((g, ok, m(ar[0], T.ite(on, v, 0)), o))
        res.site("%s added as %s" % (o.cls.rsplit("::", 1)[-1], n))
        res.good()
    spec = objective(b)
    flags = {f: T.batom("s:" + f) for f in spec}
    unknown = [f for f in b.s.bools if f.endswith("CostActive") and f not in spec]
    for f in unknown:
        res.undecided("the switch %s has no specification" % f)
    ret, = known_valid(b, b.ret)

    def want(fs):
        tot = 0
        for f in fs:
            for wn, rng, v in spec[f]:
                on = True if rng is None else T.land(T.le(a(rng + ".init"), pt.t), T.le(pt.t, a(rng + ".end")))
                tot = T.add(tot, T.ite(flags[f], m(a(wn), T.ite(on, v, 0)), 0))
        return tot

    def have(sel):
        tot, ok = 0, True
        for g, k, v, o in terms:
            g, k, v = [T.subst(x, sel) for x in (g, k, v)]
            tot = T.add(tot, T.ite(g, v, 0))
            ok = T.land(ok, T.ite(g, k, True))
        return tot, ok
    # each switch alone, then all combinations at once
    for f in sorted(spec) + [None]:
        sel = {} if f is None else {x: n == f for n, x in flags.items()}
        got, ok = have(sel)
        w_ = T.subst(want(spec), sel)
        cond = T.land(T.subst(ret, sel), ok)
        v = T.equal_if(cond, got, w_)
        res.decide(v, "objective with " + ("any combination of costs" if f is None else f), b.where,
                   "the running cost is not the one the settings describe" if f is None else
                   "with only %s set, the running cost is not %s times the cost%s" % (f, spec[f][0][0], " within " + spec[f][0][1] if spec[f][0][1] else ""))
    return res


def constraints(P, tier, compl, planar, again=None):
    res = Res()
    b = Built(P, compl, planar, again=again)
    I, w = b.I, b.w
    pt = Pt(w)
    ret, = known_valid(b, b.ret)
    combo = "%s/%s" % ([k for k, v in SE.COMPL.items() if v == compl][0], [k for k, v in SE.PLANAR.items() if v == planar][0])
    have, names = [], {}
    for e in b.events("addGroupOfConstraints"):
        res.undecided("group of constraints")
    for e in b.events("addConstraint"):
        cp = I.rd(e["args"][-1])
        if not isinstance(cp, Ptr) or cp.t is None:
            res.undecided("constraint object %r" % (cp,))
            continue
        o = cp.t
        n = o.d.get("#name", "?")
        if n in names and names[n] is not o:
            res.bad("constraint name " + str(n), b.where, "two constraints are added under the name %s, the second one is refused" % n)
        names[n] = o
        ev = Ev(w, "constraint", o)
        try:
            ok, v = ev.call("value", pt)
        except Abort as x:
            res.stopped("constraint " + o.cls, b.where, x)
            continue
        lb, l, ub, u = ev.bounds()
        g = T.equal_if(ret, e["guard"], True) if T.isn(e["guard"]) else e["guard"]
        if g is not True:
            res.decide(None if g is None else False, "%s always enforced" % n, b.where, "the constraint is only added when " + text(e["guard"]))
            continue
        for i, x in enumerate(v.ravel()):
            for side, has, y in (("lower", lb, sub(x, l[i])), ("upper", ub, sub(u[i], x))):
                has = T.equal_if(ret, has, True) if T.isn(has) else has
                if has is True:
                    have.append([o.cls.rsplit("::", 1)[-1], n, i, side, y, T.land(ret, ok), False])
        res.site("%s added as %s [%s]" % (o.cls.rsplit("::", 1)[-1], n, combo))
    for t, name, val, bnd in feasible(b, compl, planar):
        for i, side, g in rows(val, bnd):
            key = "[%s] %s" % (combo, t)
            hit = None
            cand = [h for h in have if h[0] == name] + [h for h in have if h[0] != name]
            for h in cand:
                v = T.equal_if(h[5], h[4], g)
                if v is True:
                    hit = h
                    break
                if v is None:
                    hit = hit or "?"
            if hit == "?":
                res.undecided(key)
            elif hit is None:
                res.bad("%s component %d %s" % (key, i, side), b.where, "no registered constraint enforces the %s limit of component %d: %s >= 0" % (side, i, text(g)))
            else:
                hit[6] = True
                res.good()
    for h in have:
        if not h[6]:
            res.bad("[%s] extra constraint %s component %d %s" % (combo, h[1], h[2], h[3]), b.where,
                    "the problem also demands %s >= 0, which the settings do not ask for" % text(h[4]))
        else:
            res.good()
    # dynamics
    off = set()
    if compl != SE.COMPL["SecantInDynamics"]:
        off.add("ks")
    if planar != SE.PLANAR["TanhInDynamics"]:
        off.add("kt")
    evs = b.events("setDynamicalSystemConstraint")
    if len(evs) != 1:
        res.bad("dynamical system", b.where, "%d dynamical systems are set" % len(evs))
        return res
    want, _ = formula(b, "DynamicalConstraints", nm(ks="normalForceHyperbolicSecantScaling", kt="planarVelocityHyperbolicTangentScaling",
                                                    diss="normalForceDissipationRatio"), off=off)
    o = I.rd(evs[0]["args"][0]).t
    ok, v = Ev(w, "dyn", o).call("value", pt)
    k = 0
    for l, d in w.st:
        bad = None
        for i in range(d):
            r = T.equal_if(T.land(ret, ok), v.ravel()[k], want[k])
            if r is True:
                res.good()
            elif r is None:
                res.undecided("[%s] dynamics of %s" % (combo, l))
            else:
                bad = i
            k += 1
        if bad is not None:
            res.bad("[%s] dynamics of %s" % (combo, l), b.where, "component %d of the derivative is not the one of the chosen formulation" % bad)
    res.site("DynamicalConstraints [%s]" % combo)
    return res


def limits(P, tier, compl, planar, again=None):
    """bounds of the variables, horizon, step sizes, optimiser, integrator, regularisations"""
    res = Res()
    b = Built(P, compl, planar, again=again)
    I, w = b.I, b.w
    ret, = known_valid(b, b.ret)
    t = T.atom("time")
    avail = T.batom("optimizer available")
    hi = T.ite(avail, T.atom("optimizer +inf"), 1e19)
    lo = T.ite(avail, T.atom("optimizer -inf"), -1e19)
    switch = T.lt(t, m(a("horizon"), a("activeControlPercentage")))
    target = T.land(T.batom("s:constrainTargetCoMPosition"),
                    T.land(T.le(a("constrainTargetCoMPositionRange.init"), t), T.le(t, a("constrainTargetCoMPositionRange.end"))))
    spec = {}
    for f in ("Left", "Right"):
        for i in range(NPTS):
            spec["%sForcePoint%d" % (f, i)] = spec["%sPositionPoint%d" % (f, i)] = ([lo, lo, 0], [hi] * 3)
            for n, k in (("Velocity", "velocityMaximumDerivative"), ("Force", "forceMaximumDerivative")):
                spec["%s%sControlPoint%d" % (f, n, i)] = ([T.ite(switch, neg(a("%s[%d]" % (k, j))), 0) for j in range(3)],
                                                         [T.ite(switch, a("%s[%d]" % (k, j)), 0) for j in range(3)])
    mx = a("maximumAngularMomentum")
    spec["Momentum"] = ([lo] * 3 + [neg(mx)] * 3, [hi] * 3 + [mx] * 3)
    ref = [T.fn("s:desiredCoMTrajectory[%d]" % i, t) for i in range(3)]
    tl = T.fn("s:targetCoMPositionTolerance", t)
    spec["CoMPosition"] = ([T.ite(target, sub(r, tl), x) for r, x in zip(ref, [lo, lo, a("minimumCoMHeight")])],
                           [T.ite(target, T.add(r, tl), hi) for r in ref])
    n = w.n
    spec["JointsPosition"] = ([a("jointsLimits[%d].first" % i) for i in range(n)], [a("jointsLimits[%d].second" % i) for i in range(n)])
    spec["JointsVelocity"] = ([a("jointsVelocityLimits[%d].first" % i) for i in range(n)], [a("jointsVelocityLimits[%d].second" % i) for i in range(n)])
    got = {}
    for what, idx in (("setStateBoxConstraints", ("x0", "x1")), ("setControlBoxConstraints", ("u0", "u1")), ("setStateLowerBound", ("x0",)),
                      ("setStateUpperBound", ("x1",)), ("setControlLowerBound", ("u0",)), ("setControlUpperBound", ("u1",))):
        for e in b.events(what):
            for k, x in zip(idx, e["args"]):
                got[k] = (e["guard"], x)
    for k, ll, text_ in (("x0", w.st, "lower state"), ("x1", w.st, "upper state"), ("u0", w.ct, "lower control"), ("u1", w.ct, "upper control")):
        if k not in got:
            res.bad(text_ + " bounds", b.where, "no %s bounds are set" % text_)
            continue
        g, x = got[k]
        v, ok = solverlib.tv_get(I, x, t) if not isinstance(x, M) else (list(I.m_arr(x).ravel()), True)
        if v is None or len(v) != sum(d for _, d in ll):
            res.bad(text_ + " bounds", b.where, "the %s bounds do not have one entry per variable" % text_)
            continue
        kk = known_valid(b, ok, g, *v)
        ok, g, v = kk[0], kk[1], kk[2:]
        r = T.equal_if(ret, T.land(g, ok), True)
        res.decide(r, text_ + " bounds", b.where, "the %s bounds are only set or valid when %s" % (text_, text(T.land(g, ok))))
        pos = 0
        for l, d in ll:
            side = 0 if k.endswith("0") else 1
            sp = spec.get(l, ([lo] * d, [hi] * d))[side]
            bad = None
            for i in range(d):
                r = T.equal_if(ret, v[pos + i], sp[i])
                if r is True:
                    res.good()
                elif r is None:
                    res.undecided("%s bounds of %s" % (text_, l))
                else:
                    bad = i
            if bad is not None:
                res.bad("%s bounds of %s" % (text_, l), b.where, "component %d is bounded by %s instead of %s" % (bad, text(v[pos + bad]), text(sp[bad])))
            pos += d
        res.site("%s bounds" % text_)
    # horizon, transcription
    last(res, b, ret, "setTimeHorizon", "time horizon", [0.0, a("horizon")])
    last(res, b, ret, "setStepSizeBounds", "step size bounds", [a("minimumDt"), a("maximumDt")])
    last(res, b, ret, "setControlPeriod", "control period", [a("controlPeriod")])
    for kind in ("Costs", "Constraints"):
        on = T.batom("s:use%sHessianRegularization" % kind)
        cur, amount = None, 0
        state = T.batom("initially regularised")
        for e in b.events("add%sHessianRegularization" % kind, "disable%sHessianRegularization" % kind):
            ad = e["what"].startswith("add")
            state = T.ite(e["guard"], ad, state)
            if ad:
                amount = T.ite(e["guard"], e["args"][0], amount)
        res.decide(T.equal_if(ret, state, on), "%s Hessian regularisation switch" % kind.lower(), b.where, "regularisation does not follow the settings")
        res.decide(T.equal_if(T.land(ret, on), amount, a("%sHessianRegularization" % kind.lower())), "%s Hessian regularisation" % kind.lower(), b.where,
                   "the regularisation is %s" % text(amount))
    ocps = [e["obj"] for e in b.events("new") if e["obj"].cls == solverlib.OCP]
    mss = [e for e in b.events("new") if e["obj"].cls == solverlib.MSS]
    used = {e["obj"] for e in b.events("addConstraint", "addLagrangeTerm", "setDynamicalSystemConstraint", "setStateBoxConstraints", "setControlBoxConstraints", "setTimeHorizon")}
    okp = len(used) == 1 and len(mss) >= 1 and isinstance(mss[-1]["args"][0], Ptr) and mss[-1]["args"][0].t in used
    res.decide(okp, "one problem", b.where, "costs, constraints, bounds and horizon are not all set on the problem that is transcribed")
    opt = [e for e in b.events("setOptimizer")]
    r = T.equal_if(ret, opt[-1]["guard"], avail) if opt else False
    res.decide(r, "optimiser", b.where, "the available optimiser is not handed to the transcription")
    integ = b.events("setIntegrator")
    g = False
    for e in integ:
        g = T.ite(e["guard"], True, g)
    res.decide(T.equal_if(ret, g, True), "integrator", b.where, "no integrator is set")
    oob = [e for e in I.events if e["kind"] in ("oob", "shape")]
    res.decide(not oob, "container accesses in range", b.where, "reads or writes outside a container: %s" % (oob[-1].get("what") if oob else ""))
    return res


def last(res, b, ret, what, name, want):
    evs = b.events(what)
    if not evs:
        res.bad(name, b.where, what + " is never called")
        return
    got = None
    done = False
    for e in evs:
        v = e["args"]
        got = v if got is None else [T.ite(e["guard"], x, y) for x, y in zip(v, got)]
        done = T.ite(e["guard"], True, done)
    res.decide(T.equal_if(ret, done, True), name + " set", b.where, what + " is not always called")
    for x, y in zip(got, want):
        res.decide(T.equal_if(ret, x, y), name, b.where, "%s gets %s instead of %s" % (what, text(x), text(y)))
    res.site(what)


def tasks(P, pid, tier):
    out = []
    for c in SE.COMPL.values():
        for p in SE.PLANAR.values():
            out.append((constraints, (c, p)))
    out.append((costs, (0, 0)))
    out.append((limits, (0, 0)))
    out.append((limits, (3, 2)))
    # after an earlier configuration with fewer contact points and other formulations
    c, p = SE.COMPL, SE.PLANAR
    out += [(constraints, (c["Secant"], p["Classical"], (c["Dynamical"], p["Tanh"], 3))), (constraints, (c["Dynamical"], p["Tanh"], (c["Classical"], p["Classical"], 4))),
            (costs, (0, 0, (c["Classical"], p["Tanh"], 4))), (limits, (0, 0, (c["Secant"], p["Classical"], 3)))]
    if tier == "thorough":
        for c in SE.COMPL.values():
            for p in SE.PLANAR.values():
                if (c, p) != (0, 0):
                    out.append((costs, (c, p)))
                    out.append((limits, (c, p)))
    return out
