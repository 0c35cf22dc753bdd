"""C14, C15: which settings are accepted, and what happens to the stored ones.

The settings structure is built with one symbolic value per field; Settings::setFromStruct is interpreted into one value
graph and that graph is evaluated over boxes of field values (interval evaluation with every other field unknown), so an
obligation covers all values of the box.  What intervals cannot decide (relations between two fields) is evaluated at
sample points of the box, its corners included.
"""
import math
import numpy as np
from .. import terms as T
from .. import kin
from ..interp import Interp, Obj, M, Lst, Ptr, Ch, Opq
from ..models import vec, lst_from, tvo, timerange
from ..report import Res
from ..solverlib import tv_get
from ..world import Broken

NS = "DynamicalPlanner::"
SS = NS + "SettingsStruct"
NP = 2
TINY = 5e-324
INF = math.inf

# scalar limits that always apply
NONNEG = ["minimumDt", "controlPeriod", "horizon", "minimumFeetDistance", "comPositionConstraintTolerance",
          "centroidalMomentumConstraintTolerance", "quaternionModulusConstraintTolerance", "pointPositionConstraintTolerance", "minimumCoMHeight",
          "maximumAngularMomentum", "feetMaximumRelativeHeight", "complementarityDissipation"]
STRINGS = {"floatingBaseName": "root", "leftFrameName": "l_sole", "rightFrameName": "r_sole", "referenceFrameNameForFeetDistance": "r_sole",
           "otherFrameNameForFeetDistance": "l_sole", "frameForOrientationCost": "neck"}
ALWAYS_STRINGS = [s for s in STRINGS if s != "frameForOrientationCost"]
# vectors: field -> size ("n" = degrees of freedom)
VECS = {"comWeights": 3, "comVelocityWeights": 3, "jointsRegularizationWeights": "n", "jointsVelocityCostWeights": "n", "staticTorquesCostWeights": "n",
        "forceDerivativeWeights": 3, "pointAccelerationWeights": 3, "basePositionCostWeights": 3, "baseLinearVelocityCostWeights": 3}
# what an active feature needs: vectors of the right size, references
NEEDS = {
    "constrainTargetCoMPosition": ["targetCoMPositionTolerance"],
    "comCostActive": ["comWeights", "desiredCoMTrajectory"],
    "comVelocityCostActive": ["comVelocityWeights", "desiredCoMVelocityTrajectory"],
    "frameCostActive": ["frameForOrientationCost", "desiredRotationTrajectory", "frameCostTimeVaryingWeight"],
    "jointsRegularizationCostActive": ["desiredJointsTrajectory", "jointsRegularizationWeights"],
    "jointsVelocityCostActive": ["desiredJointsVelocityTrajectory", "jointsVelocityCostWeights"],
    "jointsVelocityForPosturalCostActive": ["desiredJointsTrajectory", "jointsRegularizationWeights", "jointsVelocityCostWeights"],
    "staticTorquesCostActive": ["staticTorquesCostWeights"],
    "forceDerivativeCostActive": ["desiredForceDerivativeTrajectory", "forceDerivativeWeights"],
    "pointAccelerationCostActive": ["desiredPointAccelerationTrajectory", "pointAccelerationWeights"],
    "meanPointPositionCostActive": ["desiredMeanPointPosition", "meanPointPositionCostTimeVaryingWeight"],
    "basePositionCostActive": ["basePositionCostWeights", "desiredBasePositionTrajectory"],
    "baseQuaternionCostActive": ["desiredBaseQuaternionTrajectory"],
    "baseLinearVelocityCostActive": ["desiredBaseLinearVelocityTrajectory", "baseLinearVelocityCostWeights"],
    "baseQuaternionVelocityCostActive": ["desiredBaseQuaternionVelocityTrajectory"],
    "frameAngularVelocityCostActive": ["frameForOrientationCost", "desiredRotationTrajectory"],
    "leftFootYawCostActive": ["desiredLeftFootYaw"],
    "rightFootYawCostActive": ["desiredRightFootYaw"],
    "swingCostActive": ["desiredSwingHeight"],
    "forceRatioCostActive": ["desiredLeftRatios", "desiredRightRatios"],
}
COMPL = {"Secant": 0, "Dynamical": 1, "Classical": 2, "SecantInDynamics": 3}
PLANAR = {"TanhInDynamics": 0, "Tanh": 1, "Classical": 2}
# field -> (enum field, values for which the limit applies)
TYPED = {"dynamicComplementarityUpperBound": ("complementarity", [1]), "classicalComplementarityTolerance": ("complementarity", [2]),
         "classicalPlanarComplementarityTolerance": ("planarComplementarity", [2]), "planarVelocityHyperbolicTangentScaling": ("planarComplementarity", [0, 1])}


class S:
    """one symbolic settings structure"""

    def __init__(self, P, I, R, over=None, stem="s"):
        self.P, self.I, self.R, self.stem = P, I, R, stem
        over = over or {}
        rec = P.records[SS]
        o = I.construct_default(SS)
        self.o = o
        self.scal, self.bools, self.ptrs = [], [], []
        for f in rec["fields"]:
            n, t = f["n"], f["t"]
            v = over[n] if n in over else self.value(n, t, f.get("lt", t))
            if t == "double":
                self.scal.append(n)
            elif t == "bool":
                self.bools.append(n)
            elif "shared_ptr" in t:
                self.ptrs.append(n)
            o.d[n] = v
        for n in list(STRINGS) + list(VECS) + NONNEG:
            if n not in o.d:
                raise Broken("SettingsStruct::" + n)

    def a(self, n):
        return T.atom("%s:%s" % (self.stem, n))

    def value(self, n, t, lt=""):
        I, R = self.I, self.R
        if t == "double":
            return self.a(n)
        if t == "bool":
            return T.batom("%s:%s" % (self.stem, n))
        if n in ("complementarity", "planarComplementarity"):
            return 0
        if t in ("unsigned int", "int", "size_t", "unsigned long"):
            return self.a(n)
        if "basic_string" in t or t in ("std::string", "string"):
            return STRINGS.get(n, "root")
        if t.endswith("Model"):
            return kin.model_value(I, R)
        if "Vector3" in t or "VectorFixSize" in t:
            return vec(I, [self.a("%s[%d]" % (n, i)) for i in range(3)], "fix")
        if "VectorDynSize" in t:
            k = VECS.get(n, 3)
            return self.vector(n, R.n if k == "n" else k)
        if "shared_ptr" in t:
            elt, d = ("rot", None) if "Rotation" in lt else ("double", None) if "<double>" in lt else ("fix", 3) if "Position" in lt else ("dyn", 3)
            return Ptr(tvo(I, "%s:%s" % (self.stem, n), elt, d))
        if "TimeRange" in t:
            return timerange(I, self.a(n + ".init"), self.a(n + ".end"))
        if "vector" in t and "Position" in t:
            return lst_from(I, [vec(I, [self.a("%s%d[%d]" % (n, j, i)) for i in range(3)], "fix") for j in range(NP)])
        if "vector" in t and "pair" in t:
            return self.limits(n, R.n)
        if "vector" in t and "double" in t:
            return lst_from(I, [self.a("%s[%d]" % (n, i)) for i in range(NP)])
        raise Broken("SettingsStruct::%s has the unknown type %s" % (n, t))

    def vector(self, n, k):
        return vec(self.I, [self.a("%s[%d]" % (n, i)) for i in range(k)], "dyn")

    def limits(self, n, k):
        out = []
        for i in range(k):
            p = Obj("std::pair", self.I.guard)
            p.d = {"first": self.a("%s[%d].first" % (n, i)), "second": self.a("%s[%d].second" % (n, i))}
            out.append(p)
        return lst_from(self.I, out)


def vectors(P):
    return dict(VECS)


# ---------------------------------------------------------------- boxes
def valid_env(P, R, stem="s"):
    """name -> (lo, hi) or callable samplers for the relational fields"""
    e = {}
    for n in NONNEG + list(TYPED) + ["desiredSwingHeight"]:
        e[n] = (0.0, INF)
    e["frictionCoefficient"] = (1e-6, INF)
    e["activeControlPercentage"] = (0.0, 1.0)
    e["indexOfLateralDirection"] = (0, 2)
    e["minimumDt"] = (0.0, 1.0)
    e["maximumDt"] = (2.0000001, INF)
    for i in range(NP):
        e["desiredLeftRatios[%d]" % i] = e["desiredRightRatios[%d]" % i] = (0.0, 1.0)
    for i in range(3):
        e["velocityMaximumDerivative[%d]" % i] = (0.0, INF)
        e["forceMaximumDerivative[%d]" % i] = (0.0, INF)
    for n in ("jointsLimits", "jointsVelocityLimits"):
        for i in range(R.n):
            e["%s[%d].first" % (n, i)] = (-INF, 0.0)
            e["%s[%d].second" % (n, i)] = (0.0, INF)
    for n in ("constrainTargetCoMPositionRange", "comCostActiveRange", "comVelocityCostActiveRange", "meanPointPositionCostActiveRange",
              "basePositionCostActiveRange"):
        e[n + ".init"] = (0.0, 1.0)
        e[n + ".end"] = (1.0, INF)
    return e


def invalid_boxes(R):
    """(label, {field: box}, {enum/flag requirements}, {concrete overrides}) : settings to be rejected whatever the other fields are"""
    NEG = (-INF, -TINY)
    out = []
    for n in NONNEG + ["maximumDt", "frictionCoefficient"]:
        out.append((n + " negative", {n: NEG}, {}))
    out.append(("activeControlPercentage negative", {"activeControlPercentage": NEG}, {}))
    out.append(("activeControlPercentage above one", {"activeControlPercentage": (1.0 + 2e-16, INF)}, {}))
    out.append(("indexOfLateralDirection above two", {"indexOfLateralDirection": (3, 1e9)}, {}))
    out.append(("maximumDt less than twice minimumDt", {"maximumDt": (0.0, 2.0), "minimumDt": (1.0, INF)}, {}))
    for i in range(3):
        out.append(("velocityMaximumDerivative[%d] negative" % i, {"velocityMaximumDerivative[%d]" % i: NEG}, {}))
    for n in ("jointsLimits", "jointsVelocityLimits"):
        for i in range(R.n):
            out.append(("%s[%d] reversed" % (n, i), {"%s[%d].first" % (n, i): (TINY, INF), "%s[%d].second" % (n, i): (-INF, 0.0)}, {}))
    for i in range(NP):
        for f in ("desiredLeftRatios", "desiredRightRatios"):
            out.append(("%s[%d] negative" % (f, i), {"%s[%d]" % (f, i): NEG}, {"forceRatioCostActive": True}))
            out.append(("%s[%d] above one" % (f, i), {"%s[%d]" % (f, i): (1.0 + 2e-16, INF)}, {"forceRatioCostActive": True}))
    out.append(("desiredSwingHeight negative", {"desiredSwingHeight": NEG}, {"swingCostActive": True}))
    for n, (e, vals) in TYPED.items():
        for v in vals:
            out.append(("%s negative" % n, {n: NEG}, {e: v}))
    return out


def sampler(box, seed, integer=False):
    lo, hi = box
    if integer or (isinstance(lo, int) and isinstance(hi, int)):
        return lambda i: int(lo + (i + seed) % (min(hi, lo + 2) - lo + 1))

    def f(i):
        k = (i * 7 + seed * 3) % 8
        r = abs(T.rnd("box", seed, i)) % 1.0
        if k == 0 and lo > -INF:
            return lo
        if k == 1 and hi < INF:
            return hi if hi > -1e-300 or hi <= -1e-12 else -1e-9
        if lo > -INF and hi < INF:
            return lo + (hi - lo) * r
        s = 10.0 ** (6 * r - 3)
        if lo > -INF:
            return lo + s
        if hi < INF:
            return hi - s
        return s if k % 2 else -s
    return f


def interval_env(boxes, flags, stem="s"):
    e = {}
    for n, b in boxes.items():
        e["%s:%s" % (stem, n)] = (float(b[0]), float(b[1]))
    for n, v in flags.items():
        if isinstance(v, bool):
            e["%s:%s" % (stem, n)] = v
    return e


def sample_over(boxes, flags, stem="s"):
    o = {}
    for k, (n, b) in enumerate(sorted(boxes.items())):
        o["%s:%s" % (stem, n)] = sampler(b, k + 1)
    for n, v in flags.items():
        if isinstance(v, bool):
            o["%s:%s" % (stem, n)] = v
    return o


def judge(ret, want, boxes, flags, allb, relation=None):
    """True (proved for the whole box), "sampled" (right at every sample point), or a counterexample text.
    boxes: the constrained fields; allb: the valid boxes of the others (for sampling only)"""
    if isinstance(ret, bool):
        return True if ret == want else "the result is always %s" % ret
    if T.interval(ret, interval_env(boxes, flags)) is want:
        return True
    full = dict(allb)
    full.update(boxes)
    over = sample_over(full, flags)
    if relation:
        over.update(relation)
    v = T.Valuation(5, over)(ret).astype(bool)
    for i in range(len(v)):
        if bool(v[i]) != want:
            val = T.Valuation(5, over)
            ex = ["%s=%.6g" % (n, val(T.atom("s:" + n))[i]) for n in sorted(boxes)][:6]
            return "for example " + ", ".join(ex)
    return "sampled"


def refused(ret, boxes, flags, allb, R, c, p, relation=None):
    """refused whatever the other fields are; where the intervals do not show it, every second field out of range is tried as well"""
    j = judge(ret, False, boxes, flags, allb, relation)
    if j != "sampled":
        return j
    for label, b2, req in invalid_boxes(R):
        if req.get("complementarity", c) != c or req.get("planarComplementarity", p) != p or set(b2) & (set(boxes) | set(x[2:] for x in relation or {})):
            continue
        fl = {k: v for k, v in req.items() if isinstance(v, bool)}
        k = judge(ret, False, dict(boxes, **b2), dict(fl, **flags), allb, relation)
        if k not in (True, "sampled"):
            return "if also %s: %s" % (label, k)
    return j


def setter(P):
    f = P.find(NS + "Settings::setFromStruct")
    if not f:
        raise Broken("Settings::setFromStruct")
    return f[0]


def where(P, f):
    return "%s:%d %s" % (f.file, f.line, f.qn)


def run(P, R, over=None, stem="s", prev=None, I=None):
    I = I or Interp(P)
    s = S(P, I, R, over(I) if callable(over) else over, stem)
    o = prev or I.construct_default(NS + "Settings")
    r = I.call_fn(setter(P), o, [s.o])
    return I, s, o, r


# ---------------------------------------------------------------- C14
def flags_all(s, v):
    return {n: v for n in s.bools}


def accept(P, tier, c, p, mode):
    """all fields valid: accepted.  mode: 'on' every feature active, 'off' none (their data missing), or one flag name (only that one active)"""
    R = kin.Robot()
    res = Res()
    f = setter(P)
    over = {"complementarity": c, "planarComplementarity": p}

    def build(I):
        d = dict(over)
        if mode != "on":
            keep = set(NEEDS.get(mode, []))
            if mode == "constrainTargetCoMPosition":
                keep.add("desiredCoMTrajectory")
            gone = {x for v in NEEDS.values() for x in v} - keep
            for n in gone:
                if n in VECS:
                    d[n] = vec(I, [], "dyn")
                elif n in STRINGS:
                    d[n] = "no such frame"
                elif n == "desiredSwingHeight":
                    pass
                elif n.endswith("Ratios"):
                    d[n] = lst_from(I, [])
                else:
                    d[n] = Ptr(None)
        return d
    I, s, o, ret = run(P, R, build)
    allb = valid_env(P, R)
    fl = {n: (True if mode == "on" else n == mode) for n in s.bools}
    boxes = dict(allb)
    typed = {n: e for n, e in TYPED.items()}
    for n, (e, vals) in typed.items():
        if (c if e == "complementarity" else p) not in vals:
            boxes[n] = (-INF, INF)   # the limit does not apply
    if mode not in ("on", "swingCostActive"):
        boxes["desiredSwingHeight"] = (-INF, INF)
    if mode not in ("on", "forceRatioCostActive"):
        for i in range(NP):
            boxes["desiredLeftRatios[%d]" % i] = boxes["desiredRightRatios[%d]" % i] = (-INF, INF)
    for cc in list(s.scal) + [n + "OverallWeight" for n in ()]:
        boxes.setdefault(cc, (-INF, INF))
    j = judge(ret, True, boxes, fl, {})
    key = "accepts consistent settings (%s, complementarity %d, planar %d)" % (mode, c, p)
    rec(res, j, key, where(P, f), "consistent settings are refused: ")
    # relational fields over their whole range
    rel = {"s:minimumDt": lambda i: abs(T.rnd("mdt", i)) * 3, "s:maximumDt": None}
    md = [abs(T.rnd("mdt", i)) * 3 + 1e-3 for i in range(T.K)]
    rel = {"s:minimumDt": md, "s:maximumDt": [2 * x * (1 + 1e-3 + abs(T.rnd("mDt", i))) for i, x in enumerate(md)]}
    b2 = {n: b for n, b in boxes.items() if n not in ("minimumDt", "maximumDt")}
    for n in ("jointsLimits", "jointsVelocityLimits"):
        for i in range(R.n):
            b2.pop("%s[%d].first" % (n, i))
            b2.pop("%s[%d].second" % (n, i))
            lo = [T.rnd("jl", n, i, k) * 4 for k in range(T.K)]
            rel["s:%s[%d].first" % (n, i)] = lo
            rel["s:%s[%d].second" % (n, i)] = [x + (0.0 if k % 3 == 0 else abs(T.rnd("jw", n, i, k))) for k, x in enumerate(lo)]
    j = judge(ret, True, b2, fl, {}, rel)
    rec(res, j, key + ", related fields", where(P, f), "consistent settings are refused: ")
    res.site(f.qn)
    return res


def rec(res, j, key, wh, text):
    if j is True:
        res.good()
        res.count("obligations proved for the whole box")
    elif j == "sampled":
        res.good()
        res.count("obligations decided at %d sample points" % T.K)
    else:
        res.bad(key, wh, text + j)


def reject_scalar(P, tier, c, p):
    """one field out of range, everything else unknown: refused"""
    R = kin.Robot()
    res = Res()
    f = setter(P)
    I, s, o, ret = run(P, R, {"complementarity": c, "planarComplementarity": p})
    allb = valid_env(P, R)
    for label, boxes, req in invalid_boxes(R):
        if req.get("complementarity", c) != c or req.get("planarComplementarity", p) != p:
            continue
        fl = {k: v for k, v in req.items() if isinstance(v, bool)}
        j = refused(ret, boxes, fl, allb, R, c, p)
        rec(res, j, "refuses %s (complementarity %d, planar %d)" % (label, c, p), where(P, f), "settings with " + label + " can be accepted: ")
    md = [abs(T.rnd("mdt", i)) * 3 + (0 if i % 5 == 0 else 1e-3) for i in range(T.K)]
    rel = {"s:minimumDt": md, "s:maximumDt": [2 * x * (1.0 if i % 2 else abs(T.rnd("mDt", i)) % 1.0) for i, x in enumerate(md)]}
    b2 = {n: b for n, b in allb.items() if n not in ("minimumDt", "maximumDt")}
    rec(res, refused(ret, {}, {}, b2, R, c, p, rel), "refuses maximumDt up to twice minimumDt (complementarity %d, planar %d)" % (c, p), where(P, f),
        "settings with maximumDt at most twice minimumDt can be accepted ")
    for n in ("jointsLimits", "jointsVelocityLimits"):
        for i in range(R.n):
            b2 = {k: b for k, b in allb.items() if not k.startswith("%s[%d]" % (n, i))}
            lo = [T.rnd("jl", n, i, k) * 4 for k in range(T.K)]
            rel = {"s:%s[%d].second" % (n, i): lo, "s:%s[%d].first" % (n, i): [x + 1e-6 + abs(T.rnd("jw", n, i, k)) for k, x in enumerate(lo)]}
            rec(res, refused(ret, {}, {}, b2, R, c, p, rel), "refuses %s[%d] in the wrong order (%d, %d)" % (n, i, c, p), where(P, f),
                "settings with lower limits above the upper ones can be accepted ")
    res.site(f.qn)
    return res


def structural(P):
    """(label, override builder, flags) : refused whatever the rest is"""
    out = []
    for n in ALWAYS_STRINGS:
        out.append(("%s that is not in the model" % n, n, lambda I, s, R: "no such frame", {}))
    # a frame that is not a link cannot be the floating base
    out.append(("floatingBaseName naming a frame that is no link", "floatingBaseName", lambda I, s, R: "neck", {}))
    for n in ("jointsLimits", "jointsVelocityLimits"):
        for d in (-1, 1):
            out.append(("%s of the wrong size (%+d)" % (n, d), n, lambda I, s, R, n=n, d=d: s.limits(n, R.n + d), {}))
    out.append(("more right points than left ones", "rightPointsPosition", lambda I, s, R: lst_from(
        I, [vec(I, [s.a("rp%d[%d]" % (j, i)) for i in range(3)], "fix") for j in range(NP + 1)]), {}))
    out.append(("fewer right points than left ones", "rightPointsPosition", lambda I, s, R: lst_from(
        I, [vec(I, [s.a("rp%d[%d]" % (j, i)) for i in range(3)], "fix") for j in range(NP - 1)]), {}))
    for fl, ns in NEEDS.items():
        for n in ns:
            if n in VECS:
                for d in (-1, 1):
                    out.append(("%s of the wrong size (%+d) with %s" % (n, d, fl), n,
                                lambda I, s, R, n=n, d=d: s.vector(n, (R.n if VECS[n] == "n" else VECS[n]) + d), {fl: True}))
            elif n in STRINGS:
                out.append(("%s that is not in the model with %s" % (n, fl), n, lambda I, s, R: "no such frame", {fl: True}))
            elif n.endswith("Ratios"):
                for d in (-1, 1):
                    out.append(("%s of the wrong size (%+d)" % (n, d), n,
                                lambda I, s, R, n=n, d=d: lst_from(I, [s.a("%s[%d]" % (n, i)) for i in range(NP + d)]), {fl: True}))
            elif n == "desiredSwingHeight":
                pass
            else:
                out.append(("no %s with %s" % (n, fl), n, lambda I, s, R: Ptr(None), {fl: True}))
    return out


class _Mk:
    """gives the override builders access to atoms before the structure exists"""

    def __init__(self, I):
        self.I = I
        self.stem = "s"
    a, vector, limits = S.a, S.vector, S.limits


def reject_structural(P, tier, lo, hi):
    R = kin.Robot()
    res = Res()
    f = setter(P)
    for label, n, mk, fl in structural(P)[lo:hi]:
        combos = [(0, 0)] if tier == "quick" else [(c, p) for c in COMPL.values() for p in PLANAR.values()]
        for c, p in combos:
            I, s, o, ret = run(P, R, lambda I: {n: mk(I, _Mk(I), R), "complementarity": c, "planarComplementarity": p})
            j = refused(ret, {}, fl, valid_env(P, R), R, c, p)
            rec(res, j, "refuses %s" % label, where(P, f), "settings with %s can be accepted " % label)
            for e in I.events:
                if e["kind"] in ("oob", "nullderef"):
                    res.bad("no invalid access: %s" % label, e["at"], "with %s the validation itself makes an invalid access (%s)" % (label, e["kind"]))
    res.site(f.qn)
    return res


def defaults(P, tier):
    """Settings::Defaults(model) is accepted for every model that has the default frames, and copies the model's joint limits"""
    R = kin.Robot()
    ren = {"root": "root_link", "neck": "neck_2"}
    R.links = [ren.get(x, x) for x in R.links]
    R.frames = [ren.get(x, x) for x in R.frames]
    res = Res()
    I = Interp(P)
    D = P.find(NS + "Settings::Defaults")
    if not D:
        raise Broken("Settings::Defaults")
    s = I.call_fn(D[0], None, [kin.model_value(I, R)])
    wh = where(P, D[0])
    o = I.construct_default(NS + "Settings")
    ret = I.call_fn(setter(P), o, [s])
    if isinstance(ret, bool):
        res.decide(ret is True, "Defaults are accepted", wh, "the default settings are refused")
    else:
        # joint limits of the model are symbolic: lower <= upper is a fact about the model
        ats = T.atoms_of(ret)
        over = {}
        los = sorted({a.args[0] for a in ats})
        for a in los:
            if "lo" in a or "min" in a.lower():
                over[a] = sampler((-INF, 0.0), 1)
            elif "hi" in a or "up" in a or "max" in a.lower():
                over[a] = sampler((0.0, INF), 2)
        v = T.Valuation(7, over)(ret).astype(bool)
        res.decide(bool(v.all()), "Defaults are accepted", wh, "the default settings are refused for a model with proper joint limits")
    res.site(D[0].qn)
    return res


# ---------------------------------------------------------------- C30
REFS = {"targetCoMPositionTolerance": 1, "desiredCoMTrajectory": 3, "desiredCoMVelocityTrajectory": 3, "desiredRotationTrajectory": "R", "frameCostTimeVaryingWeight": 1,
        "desiredJointsTrajectory": "n", "desiredJointsVelocityTrajectory": "n", "desiredForceDerivativeTrajectory": 3, "desiredPointAccelerationTrajectory": 3,
        "meanPointPositionCostTimeVaryingWeight": 3, "desiredMeanPointPosition": 3, "desiredLeftFootYaw": 1, "desiredRightFootYaw": 1, "desiredBasePositionTrajectory": 3,
        "desiredBaseQuaternionTrajectory": "q", "desiredBaseLinearVelocityTrajectory": 3, "desiredBaseQuaternionVelocityTrajectory": 4}


def undefined(x):
    """the value depends on storage that was never written"""
    return (T.isn(x) and any(str(a.args[0]).startswith("uninit:") for a in T.atoms_of(x))) or x is None


def complete(P, tier, small, unlimited, after=False):
    """every field of Settings::Defaults(model) is defined; the given joints of the model have no limits; possibly after a call for another robot"""
    R = kin.Robot(small=small)
    ren = {"root": "root_link", "neck": "neck_2"}
    R.links = [ren.get(x, x) for x in R.links]
    R.frames = [ren.get(x, x) for x in R.frames]
    before = kin.Robot(small=small if after == "same" else not small)
    before.links = [ren.get(x, x) for x in before.links]
    before.frames = [ren.get(x, x) for x in before.frames]
    before.tag = "earlier "
    res = Res()
    I = Interp(P)
    D = P.find(NS + "Settings::Defaults")
    if not D:
        raise Broken("Settings::Defaults")
    wh = where(P, D[0])
    res.site(D[0].qn)
    I.opt["unlimited"] = [R.n + j if j < 0 else j for j in unlimited]
    if after:
        I.call_fn(D[0], None, [kin.model_value(I, before)])
    mv = kin.model_value(I, R)
    s = I.rd(I.call_fn(D[0], None, [mv]))
    seen = {}

    def leaf(key, x):
        x = I.rd(x)
        if isinstance(x, Ch) or T.has_top(x):
            res.undecided(key)
        else:
            res.decide(not undefined(x), key, wh, "it is left undefined")

    def walk_(key, v):
        v = I.rd(v)
        if isinstance(v, M):
            seen[key] = list(I.m_arr(v).ravel())
            for i, x in enumerate(seen[key]):
                leaf("%s[%d] is defined" % (key, i), x)
        elif isinstance(v, Lst):
            n = v.d["#n"]
            if not isinstance(n, int):
                res.undecided(key)
                return
            seen[key] = n
            for i in range(n):
                walk_("%s[%d]" % (key, i), v.d.get(i))
        elif isinstance(v, Obj):
            if v.cls.endswith("Model"):
                res.decide(I.rd(v.d.get("robot")) is R, "%s is the model given" % key, wh, "it is another model")
                return
            for k in v.d:
                if not str(k).startswith("#"):
                    walk_("%s.%s" % (key, k), v.d[k])
        elif isinstance(v, Ptr):
            if v.t is None:
                res.bad("%s is given" % key, wh, "it is left null")
                return
            got, ok = tv_get(I, v, T.atom("time"))
            res.decide(T.equal(ok, True), "%s is valid at all times" % key, wh, "it is not")
            want = REFS.get(key)
            n = {"n": R.n, "R": 9, "q": 4}.get(want, want)
            if n is not None:
                res.decide(len(got) == n, "%s has the size of its quantity" % key, wh, "its size is %d instead of %d" % (len(got), n))
            for i, x in enumerate(got):
                leaf("%s[%d] is defined" % (key, i), x)
            if want == "q" and len(got) == 4:
                res.decide(T.equal(sum_([T.mul(x, x) for x in got]), 1.0), "%s is a unit quaternion" % key, wh, "its norm is not one")
            if want == "R" and len(got) == 9:
                m = np.array(got, dtype=object).reshape(3, 3)
                for i in range(3):
                    for j in range(3):
                        res.decide(T.equal(sum_([T.mul(m[i, k], m[j, k]) for k in range(3)]), 1.0 if i == j else 0.0), "%s is a rotation" % key, wh, "it is not orthonormal")
        else:
            seen[key] = v
            if not isinstance(v, str):
                leaf("%s is defined" % key, v)
    for f in P.records[SS]["fields"]:
        if f["n"] not in s.d:
            raise Broken("SettingsStruct::" + f["n"])
        walk_(f["n"], s.d[f["n"]])

    def sign(key, xs, lo):
        for x in xs:
            if undefined(x):
                continue
            k = T.interval(T.le(lo, x), {}) if T.isn(x) else bool(x >= lo)
            res.decide(k if isinstance(k, bool) else None, "%s is not negative" % key, wh, "it is %s" % (x,))
    for k, v in seen.items():
        if k.endswith("Weight") or k.endswith("Weights") or k.endswith("Tolerance") or k in NONNEG:
            sign(k, v if isinstance(v, list) else [v], 0)
    g = seen.get("gravity")
    if g and not any(undefined(x) for x in g):
        res.decide(bool(T.equal(g[0], 0)) and bool(T.equal(g[1], 0)) and not T.isn(g[2]) and g[2] < 0, "gravity points down the vertical", wh, "it is %r" % (g,))
    nl, nr = seen.get("leftPointsPosition"), seen.get("rightPointsPosition")
    res.decide(nl == nr and nl > 0, "as many contact points on each foot", wh, "there are %r and %r" % (nl, nr))
    for f in ("desiredLeftRatios", "desiredRightRatios"):
        rs = [seen.get("%s[%d]" % (f, i)) for i in range(seen.get(f, 0))]
        res.decide(len(rs) == nl, "%s: one per contact point" % f, wh, "there are %d" % len(rs))
        if not any(undefined(x) for x in rs):
            sign(f, rs, 0)
            res.decide(T.equal(sum_(rs), 1.0), "%s sum to one" % f, wh, "they do not")
    for n in ("jointsLimits", "jointsVelocityLimits"):
        res.decide(seen.get(n) == R.n, "%s: one pair per joint" % n, wh, "there are %r" % seen.get(n))
    for i in range(min(R.n, seen.get("jointsLimits", 0))):
        for side in ("first", "second"):
            x = seen.get("jointsLimits[%d].%s" % (i, side))
            if undefined(x):
                continue
            if i in I.opt["unlimited"]:
                wide = isinstance(x, (int, float)) and (x <= -1e6 if side == "first" else x >= 1e6)
                res.decide(wide, "jointsLimits[%d] of a joint without limits are wide" % i, wh, "the %s one is %s" % (side, x))
            else:
                res.decide(T.equal(x, T.atom("joint%s[%d]" % ("Min" if side == "first" else "Max", i))), "jointsLimits[%d] are the model's" % i, wh, "the %s one is %s" % (side, x))
    return res


def sum_(xs):
    r = 0
    for x in xs:
        r = T.add(r, x)
    return r


def mixed(R, s, seed):
    """sample points of which about half break one condition"""
    allb = valid_env(None, R)
    inv = [(b, r) for _, b, r in invalid_boxes(R) if not any(isinstance(v, int) and not isinstance(v, bool) for v in r.values())]
    over = {}
    for k, (n, b) in enumerate(sorted(allb.items())):
        f = sampler(b, k + seed)
        over["%s:%s" % (s.stem, n)] = [f(i) for i in range(T.K)]
    for n in s.bools:
        over["%s:%s" % (s.stem, n)] = [T.rnd("fl", seed, n, i) > 0 for i in range(T.K)]
    for i in range(T.K):
        if T.rnd("which", seed, i) > 0:
            b, r = inv[(i * 13 + seed) % len(inv)]
            for n, box in b.items():
                over["%s:%s" % (s.stem, n)][i] = sampler(box, seed)(i)
            for n, v in r.items():
                over["%s:%s" % (s.stem, n)][i] = v
    return over


def chosen(v, i, val):
    """the value selected at sample point i"""
    while isinstance(v, Ch):
        v = v.a if bool(val(v.c)[i]) else v.b
    return v


def same(I, a, b, i, val):
    a, b = chosen(a, i, val), chosen(b, i, val)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        a, b = chosen(a.t if hasattr(a, "t") else a.v, i, val), chosen(b.t if hasattr(b, "t") else b.v, i, val)
        return a is b
    if isinstance(a, Lst) and isinstance(b, Lst):
        x, y = elements(a, i, val), elements(b, i, val)
        return len(x) == len(y) and all(same(I, p, q, i, val) for p, q in zip(x, y))
    if isinstance(a, M) and isinstance(b, M):
        x, y = entries(I, a, i, val), entries(I, b, i, val)
        return len(x) == len(y) and all(same(I, p, q, i, val) for p, q in zip(x, y))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls == b.cls and all(k in b.d and same(I, a.d[k], b.d[k], i, val) for k in a.d if not str(k).startswith("#"))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if T.isn(a) or T.isn(b) or isinstance(a, (int, float, bool)):
        x, y = val(a)[i], val(b)[i]
        return bool(abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(x))))
    return a is b


def integer(n, i, val):
    n = chosen(n, i, val)
    return int(val(n)[i]) if T.isn(n) else int(n)


def elements(l, i, val):
    return [l.d[k] for k in range(integer(l.d["#n"], i, val))]


def entries(I, m, i, val):
    if m.kind == "view":
        return list(I.m_arr(m).ravel())
    b = chosen(m.d["b"], i, val)
    return [b.d[k] for k in range(integer(m.d["r"], i, val) * integer(m.d["c"], i, val))]


def state(P, tier, seed):
    """what is stored after an accepted / a refused call that follows an earlier accepted / refused one"""
    R = kin.Robot()
    res = Res()
    f = setter(P)
    I = Interp(P)
    o = I.construct_default(NS + "Settings")
    names = {"floatingBaseName": "l2", "leftFrameName": "l1", "rightFrameName": "r1", "referenceFrameNameForFeetDistance": "l2",
             "otherFrameNameForFeetDistance": "l3", "frameForOrientationCost": "r_sole"}
    fresh = I.call_fn(P.method(NS + "Settings", "isValid")[0], o, [])
    res.decide(fresh is False, "a new Settings object is not valid", where(P, f), "a default-constructed Settings object claims to be valid")
    olds = S(P, I, R, dict(names, complementarity=1, planarComplementarity=2), "old")
    r0 = I.call_fn(f, o, [olds.o])
    news = S(P, I, R, dict(complementarity=3, planarComplementarity=1), "s")
    r1 = I.call_fn(f, o, [news.o])
    valid = I.call_fn(P.method(NS + "Settings", "isValid")[0], o, [])
    got = I.rd(I.call_fn(P.method(NS + "Settings", "getSettings")[0], o, []))
    ref_new = S(P, I, R, dict(complementarity=3, planarComplementarity=1), "s")
    ref_old = S(P, I, R, dict(names, complementarity=1, planarComplementarity=2), "old")
    for n in ref_new.ptrs:
        ref_new.o.d[n], ref_old.o.d[n] = news.o.d[n], olds.o.d[n]
    over = mixed(R, news, seed)
    over.update(mixed(R, olds, seed + 17))
    val = T.Valuation(seed, over)
    a0, a1, va = val(r0).astype(bool), val(r1).astype(bool), val(valid).astype(bool)
    kinds = {}
    bad = {}
    for i in range(T.K):
        if not (bool(va[i]) == bool(a0[i] or a1[i])):
            bad.setdefault("isValid", i)
        else:
            res.good()
        kinds[(bool(a0[i]), bool(a1[i]))] = kinds.get((bool(a0[i]), bool(a1[i])), 0) + 1
        if not (a0[i] or a1[i]):
            continue
        ref = ref_new if a1[i] else ref_old
        for n in ref.o.d:
            if n in bad:
                continue
            if same(I, got.d[n], ref.o.d[n], i, val):
                res.good()
            else:
                bad[n] = i
    for n, i in sorted(bad.items()):
        res.bad("settings stored correctly: " + n, where(P, f), "after %s then %s settings, %s" % (
            "accepted" if a0[i] else "refused", "accepted" if a1[i] else "refused",
            "isValid() is wrong" if n == "isValid" else "the field %s is not the one of the last accepted structure" % n))
    for k in ((True, True), (True, False), (False, True), (False, False)):
        res.count("sample points with first %s, second %s" % tuple("accepted" if x else "refused" for x in k), kinds.get(k, 0))
        if not kinds.get(k):
            res.undecided("no sample point of kind %r" % (k,))
    # the constructor taking a structure
    I = Interp(P)
    s1 = S(P, I, R)
    c = [x for x in P.methods(NS + "Settings") if x.ctor == "other" and len(x.params) == 1]
    if not c:
        raise Broken("Settings(const SettingsStruct&)")
    o = I.construct(c[0], NS + "Settings", [s1.o])
    v1 = I.call_fn(P.method(NS + "Settings", "isValid")[0], o, [])
    I2 = Interp(P)
    o2 = I2.construct_default(NS + "Settings")
    s2 = S(P, I2, R)
    r2 = I2.call_fn(f, o2, [s2.o])
    val = T.Valuation(seed, mixed(R, s2, seed))
    res.decide(bool((val(v1).astype(bool) == val(r2).astype(bool)).all()), "the constructed Settings object is valid iff the structure is accepted", where(P, c[0]),
               "validity of the constructed object and acceptance of the structure differ")
    for x in (f, c[0]):
        res.site(x.qn + "/%d" % len(x.params))
    return res


def tasks(P, pid, tier):
    out = []
    if pid == "C14":
        for c in COMPL.values():
            for p in PLANAR.values():
                out.append((accept, (c, p, "on")))
                out.append((accept, (c, p, "off")))
                out.append((reject_scalar, (c, p)))
        for m in NEEDS:
            out.append((accept, (0, 0, m)))
        n = len(structural(P))
        for i in range(0, n, 6):
            out.append((reject_structural, (i, i + 6)))
        out.append((defaults, ()))
    elif pid == "C30":
        out = [(complete, (x, un)) for x in (False, True) for un in ((), (0,), (1,), (-1,), (0, -1))] + [(complete, (x, (1,), y)) for x in (False, True) for y in ("same", "other")]
    else:
        out = [(state, (k,)) for k in range(4 if tier == "quick" else 16)]
    return out
