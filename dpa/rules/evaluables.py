"""Constraints, costs and dynamics: derivatives, sparsity, history independence."""
import numpy as np

from .. import terms as T
from ..report import Res
from ..world import ALL, FREE, KIN, Broken, make, NAMES, World
from ..interp import Abort, Wild, M, LRef, Obj

FRAMES = ["neck", "l_sole", "r_sole", "l2"]


def configs(name, tier):
    """(keyword arguments of make) exercised for a class"""
    b = ALL[name]
    kin = getattr(b, "kin", False)
    out = []
    if getattr(b, "per_point", False):
        combos = [("Right", 1, 0), ("Left", 0, 1)]
        if tier == "thorough":
            combos = [(f, i, o) for f in ("Right", "Left") for i in (0, 1) for o in (0, 1)]
        out = [dict(foot=f, idx=i, order=o) for f, i, o in combos]
    elif getattr(b, "per_foot", False):
        out = [dict(foot="Right", order=0), dict(foot="Left", order=1)]
    else:
        out = [dict(order=0), dict(order=1)]
    if name in ("FrameAngularVelocityCost", "FrameOrientationCost"):
        fr = FRAMES if tier == "thorough" else FRAMES[:2]
        out = [dict(order=i % 2, frame=f) for i, f in enumerate(fr)]
    if getattr(b, "counts", None):
        out = [dict(k, npts=b.counts[0]) for k in out] + [dict(out[0], npts=n) for n in b.counts[1:]]
    else:
        # the numbers of contact points per foot that are looked at
        for k in out:
            k["npts"] = (3 if k["order"] else 2) if kin else (5 if k["order"] else 4)
            if not kin and k.get("idx") == 0:
                k["idx"] = 3
    return out


def cname(name, kw):
    return "%s(%s)" % (name, ",".join("%s=%s" % x for x in sorted(kw.items())))


def where(e, what):
    f = e.fn(what)
    return "%s:%s" % (f.file, f.line)


def colname(w, axis, k):
    for name, d in (w.st if axis == "s" else w.ct):
        o = w.off[name][0]
        if o <= k < o + d:
            return name
    return "?"


def rowname(e, i):
    return colname(e.w, "s", i) if e.kind == "dyn" else "row %d" % i


def call(e, what, pt, res, key, out=None):
    """-> (ret, values) or None when the interpreter had to give up"""
    try:
        return e.call(what, pt, out)
    except Abort as x:
        oob = [ev for ev in e.w.I.events if ev["kind"] in ("oob", "shape")]
        if oob:
            res.bad(key + " out of range", where(e, what), "reads or writes outside a container: %s" % oob[-1].get("what", oob[-1]))
        else:
            res.undecided("%s: %s" % (key, x))
        return None


def build(P, name, kw, res):
    try:
        e = make(P, name, **kw)
        e.w.I.opt["valid_time"] = True      # a reference may be invalid at some times only
        return e
    except Wild:
        raise
    except Abort as x:
        raise Broken("%s: construction not analysable: %s" % (cname(name, kw), x))


def compare(res, e, what, got, want, cond, rows, cols, pid, text):
    """entrywise comparison of two matrices of terms"""
    bad = {}
    for i in range(got.shape[0]):
        for k in range(got.shape[1]):
            w = want(i, k)
            g = got[i, k]
            if g is w:
                res.good()
                continue
            v = T.equal_if(cond, g, w)
            if v is True:
                res.good()
            elif v is None:
                res.undecided("%s::%s (%s, %s)" % (e.name, NAMES[e.kind][what], rows(i), cols(k)))
            else:
                bad.setdefault((rows(i), cols(k)), []).append((i, k, g, w))
    for (r, c), l in bad.items():
        i, k, g, w = l[0]
        res.bad("%s::%s [%s, %s]" % (e.o.cls, NAMES[e.kind][what], r, c), where(e, what),
                "%s at (%d,%d)%s: computes %s, but %s" % (text[0], i, k, " and %d more entries" % (len(l) - 1) if len(l) > 1 else "",
                                                          show(g), text[1] % show(w)))


def show(t):
    s = T.show(t) if T.isn(t) else repr(t)
    return s if len(s) < 200 else s[:200] + "..."


# ------------------------------------------------------------------ first derivatives
def first(P, tier, name, kw):
    res = Res()
    e = build(P, name, kw, res)
    cn = cname(name, kw)
    pt = e.w.point()
    r = call(e, "value", pt, res, cn + " value")
    if r is None:
        return res
    rv, val = r
    val = val.ravel()
    for what, ats, ax in (("js", pt.xs, "s"), ("jc", pt.us, "c")):
        if not e.has(what):
            res.count("not provided")
            continue
        e2 = build(P, name, kw, res)
        key = "%s::%s" % (e2.o.cls, NAMES[e2.kind][what])
        r = call(e2, what, e2.w.point(), res, key)
        if r is None:
            continue
        rd, j = r
        res.site("%s %s %s" % (cn, NAMES[e.kind][what], where(e2, what)))
        if T.equal_if(rv, rd, True) is False:
            res.bad(key + " result", where(e2, what), "reports failure (%s) where the value is defined (%s)" % (show(rd), show(rv)))
        cond = T.land(rv, rd)
        compare(res, e2, what, j, lambda i, k: T.diff(val[i], ats[k]), cond, lambda i: rowname(e, i),
                lambda k: colname(e.w, ax, k), "C04", ("first derivative", "the value's derivative is %s"))
    return res


def second(P, tier, name, kw):
    res = Res()
    e = build(P, name, kw, res)
    cn = cname(name, kw)
    pt = e.w.point()
    if not any(e.has(x) for x in ("hss", "hcc", "hsc")):
        res.count("not provided")
        return res
    r = call(e, "value", pt, res, cn + " value")
    if r is None:
        return res
    rv, val = r
    val = val.ravel()
    lam = e.lam()
    L = 0
    for i in range(len(val)):
        L = T.add(L, T.mul(lam[i], val[i]) if e.kind != "cost" else val[i])
    for what, a, b, ax, bx in (("hss", pt.xs, pt.xs, "s", "s"), ("hcc", pt.us, pt.us, "c", "c"), ("hsc", pt.xs, pt.us, "s", "c")):
        if not e.has(what):
            res.count("not provided")
            continue
        e2 = build(P, name, kw, res)
        key = "%s::%s" % (e2.o.cls, NAMES[e2.kind][what])
        r = call(e2, what, e2.w.point(), res, key)
        if r is None:
            continue
        rd, h = r
        res.site("%s %s %s" % (cn, NAMES[e.kind][what], where(e2, what)))
        if T.equal_if(rv, rd, True) is False:
            res.bad(key + " result", where(e2, what), "reports failure (%s) where the value is defined (%s)" % (show(rd), show(rv)))
        cond = T.land(rv, rd)
        d1 = [T.diff(L, x) for x in a]
        compare(res, e2, what, h, lambda i, k: T.diff(d1[i], b[k]), cond, lambda i: colname(e.w, ax, i),
                lambda k: colname(e.w, bx, k), "C05", ("second derivative", "the value's second derivative is %s"))
    return res


# ------------------------------------------------------------------ sparsity
def sparsity(P, tier, name, kw):
    res = Res()
    cn = cname(name, kw)
    e = build(P, name, kw, res)
    for meth, n, of in (("expectedStateSpaceSize", len(e.w.state_atoms()), "state"), ("expectedControlSpaceSize", len(e.w.ctrl_atoms()), "control")):
        if not e.w.has(e.o, meth):
            continue
        f = P.method(e.o.cls, meth)[0]
        got = e.w.I.rd(e.w.call(e.o, meth, []))
        res.decide(T.equal(got, n) if not isinstance(got, bool) else False, "%s::%s" % (e.o.cls, meth), "%s:%s" % (f.file, f.line),
                   "%s entries are expected, but the %s has %d" % (show(got), of, n))
    for what, ax, bx in (("js", None, "s"), ("jc", None, "c"), ("hss", "s", "s"), ("hcc", "c", "c"), ("hsc", "s", "c")):
        e = build(P, name, kw, res)
        if not e.has(what):
            continue
        key = "%s::%s" % (e.o.cls, NAMES[e.kind][what])
        try:
            rs, sp = e.sparsity(what)
        except Abort as x:
            res.stopped(key + " sparsity", where(e, what), x)
            continue
        if sp is None:
            res.count("dense by default")
            continue
        if rs is not True:
            res.count("dense by default") if rs is False else res.undecided(key + " sparsity result")
            continue
        pt = e.w.point()
        r = call(e, what, pt, res, key)
        if r is None:
            continue
        ret, j = r
        res.site("%s %s" % (cn, key))
        d = e.dims(what)
        shape = d if what[0] == "h" or e.kind != "cost" else d
        bad = {}
        for i in range(j.shape[0]):
            for k in range(j.shape[1]):
                pos = (i, k)
                c = sp.d.get(pos, False) if hasattr(sp, "d") else sp.get(pos, False)
                if c is True:
                    res.good()
                    continue
                z = T.equal_if(ret, j[i, k], 0)
                if z is True:
                    res.good()
                elif z is None:
                    res.undecided("%s (%d,%d)" % (key, i, k))
                else:
                    rn = rowname(e, i) if ax is None else colname(e.w, ax, i)
                    bad.setdefault((rn, colname(e.w, bx, k)), []).append((i, k))
        for (rn, cnm), l in bad.items():
            res.bad("%s sparsity [%s, %s]" % (key, rn, cnm), where(e, what),
                    "entry %s can be nonzero but is missing from the declared sparsity pattern (%d entries)" % (l[0], len(l)))
        # declared entries lie inside the matrix
        ks = sp.d if hasattr(sp, "d") else sp
        for (i, k) in ks:
            if not (0 <= i < d[0] and 0 <= k < d[1]):
                res.bad("%s sparsity range" % key, where(e, what), "declared entry (%d,%d) lies outside the %dx%d matrix" % (i, k, d[0], d[1]))
                break
    return res


# ------------------------------------------------------------------ history
METH = ["value", "js", "jc", "hss", "hcc", "hsc"]


def history(P, tier, name, kw):
    res = Res()
    cn = cname(name, kw)
    b = ALL[name]
    kin = getattr(b, "kin", False)
    kw = dict(kw)
    if kin:
        kw["fresh"] = False
    fresh = {}
    e0 = build(P, name, kw, res)
    meths = [m for m in METH if e0.has(m)]
    p0 = e0.w.point("0")
    src = p0.xs + p0.us + [p0.t]
    for m in meths:
        e = build(P, name, kw, res)
        r = call(e, m, e.w.point("0"), res, "%s::%s" % (e.o.cls, NAMES[e.kind][m]))
        if r is not None:
            fresh[m] = r
    # a long history on one object: every call at a new point, output containers reused
    chain = meths + meths[::-1] if tier == "thorough" or not kin else meths + meths[::-1][:3]
    seqs = [[(m, ("h%d" % i, "h%d" % i, "h%d" % i)) for i, m in enumerate(chain)]]
    part = []
    for m in (meths if tier == "thorough" or not kin else [x for x in meths if x[0] != "h"]):
        part.append([(m, ("a", "a", "a")), (m, ("a", "b", "a")), (m, ("b", "b", "a")), (m, ("b", "b", "b")), (m, ("a", "b", "b"))])
    seqs += part
    # m at one point, o and then m at another: what o leaves behind must not be taken for m's own
    lm = meths if tier == "thorough" or not kin else [x for x in meths if x[0] != "h"]
    for m in lm:
        tri = []
        for o in meths if tier == "thorough" or not kin else lm:
            if o != m:
                i = len(tri)
                tri += [(m, ("p%d" % i,) * 3), (o, ("q%d" % i,) * 3), (m, ("q%d" % i,) * 3)]
        seqs.append(tri)
    for seq in seqs:
        e = build(P, name, kw, res)
        outs = {}
        for n, (m, (xt, ut, tt)) in enumerate(seq):
            if m not in fresh:
                break
            pt = e.w.point("", xt, ut, tt)
            key = "%s::%s" % (e.o.cls, NAMES[e.kind][m])
            if m not in outs:
                outs[m] = e.out(m)
            try:
                if kin and seq is seqs[0]:
                    disturb(e, n)
                r, v = e.call(m, pt, outs[m])
            except Abort as x:
                res.stopped(key + " history", where(e, m), x)
                break
            dst = pt.xs + pt.us + [pt.t]
            mp = {a: d for a, d in zip(src, dst)}
            memo = {}
            fr, fv = fresh[m]
            sub = lambda t: T.subst(t, mp, memo) if T.isn(t) else t
            cond = T.land(r, sub(fr))
            res.decide(T.equal(r, sub(fr)), key + " history result", where(e, m), "the reported success depends on earlier calls")
            v = np.array(v, dtype=object)
            bad = []
            for i in range(v.shape[0]):
                for k in range(v.shape[1]):
                    w = sub(fv[i, k])
                    q = True if v[i, k] is w else T.equal_if(cond, v[i, k], w)
                    if q is True:
                        res.good()
                    elif q is None:
                        res.undecided("%s history (%d,%d)" % (key, i, k))
                    else:
                        bad.append((i, k))
            if bad:
                res.bad(key + " history", where(e, m), "after the calls %s the result at entries %s differs from a fresh object's" % (
                    ["%s%s" % (NAMES[e.kind][a], t) for a, t in seq[:n]], bad[:5]))
                break
        res.site("%s: %d calls %s" % (cn, len(seq), seq[0][0] if len(seq) == 5 else "mixed"))
    # garbage
    for m, (r, v) in fresh.items():
        key = "%s::%s" % (e0.o.cls, NAMES[e0.kind][m])
        g = set()
        for t in list(v.ravel()) + [r]:
            if T.isn(t):
                un = set(a for a in T.atoms_of(t) if a.op in ("atom", "batom") and str(a.args[0]).startswith("uninit:"))
                if un and T.depends(t, un):
                    g |= un
        if g:
            res.bad(key + " uninitialised", where(e0, m), "result depends on storage never initialised: %s" % sorted(str(a.args[0]) for a in g)[:4])
        else:
            res.good()
    return res


def disturb(e, n):
    """another user of the shared kinematics moves it to a different configuration"""
    w = e.w
    I = w.I
    st = I.construct_default("DynamicalPlanner::Private::RobotState")
    from ..models import vec
    robot = w.robot
    tag = "dst%d" % n
    w.call(st, "operator()", []) if False else None
    d = st.d
    I.write(st, "s", vec(I, [T.atom("%s:s[%d]" % (tag, i)) for i in range(robot.n)], "dyn"))
    I.write(st, "s_dot", vec(I, [T.atom("%s:sd[%d]" % (tag, i)) for i in range(robot.n)], "dyn"))
    I.write(st, "base_quaternion", vec(I, [T.atom("%s:q[%d]" % (tag, i)) for i in range(4)]))
    I.write(st, "base_position", vec(I, [T.atom("%s:p[%d]" % (tag, i)) for i in range(3)], meta="pos") if False else d["base_position"])
    I.write(st, "base_linearVelocity", vec(I, [T.atom("%s:v[%d]" % (tag, i)) for i in range(3)]))
    I.write(st, "base_quaternionVelocity", vec(I, [T.atom("%s:qd[%d]" % (tag, i)) for i in range(4)]))
    sk = w.call(w.tskd.t, "get", [T.atom("time" + tag)])
    sk = I.rd(sk)
    w.call(sk.t, "updateRobotState", [st])
    if w.es is not None:
        w.call(w.es.t, "updateRobotState", [T.atom("time" + tag)])


# ------------------------------------------------------------------ failures
def fn_names(ts):
    """names of the functions of time a list of terms mentions"""
    seen, out, st = set(), set(), [t for t in ts if T.isn(t)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "fn":
            out.add(x.args[0])
        st += [y for y in x.args if T.isn(y)]
    return out


def failures(P, tier, name, kw):
    res = Res()
    cn = cname(name, kw)
    e0 = build(P, name, kw, res)
    for m in METH:
        if not e0.has(m):
            continue
        e = build(P, name, kw, res)
        key = "%s::%s" % (e.o.cls, NAMES[e.kind][m])
        r = call(e, m, e.w.point(), res, key)
        if r is None:
            continue
        ret, val = r
        res.site("%s %s" % (cn, key))
        names = {}
        for ev in e.w.I.events:
            if ev["kind"] == "tvget":
                names[ev["name"]] = T.lt(0, T.fn("valid:" + ev["name"], ev["time"]))
        ok = True
        flat = [x for x in np.array(val, dtype=object).ravel() if T.isn(x)]
        used = fn_names(flat)
        for n, v in sorted(names.items()):
            ok = T.land(ok, v)
            dep = {f: f + "'" for f in used if f == n or f.startswith((n + "[", n + "."))}
            if not dep or not any(T.equal(x, T.rename(x, {}, dep)) is False for x in flat):
                continue
            q = T.equal(T.land(ret, T.lnot(v)), False)
            res.decide(q, "%s invalid %s" % (key, n), where(e, m), "succeeds with the value of %s when that is not valid at the time" % n)
        q = T.equal(T.land(ok, T.lnot(ret)), False)
        res.decide(q, key + " fails", where(e, m), "can fail although every reference is valid: the result is %s" % show(ret))
    return res


def momentum_reference(P, tier):
    """the momentum reference made from a centre of mass velocity reference"""
    from .utils import U
    from ..models import tvo
    from ..interp import Ptr
    u = U(P)
    u.I.opt["valid_time"] = True
    for dims in (3, 2, 4, 0):
        ms = T.atom("mass")
        cs = [f for f in P.methods("LinearMomentumReference") if f.ctor == "other"]
        if not cs:
            raise Broken("LinearMomentumReference")
        o = u.I.construct(cs[0], "LinearMomentumReference", [ms])
        for name in ("v", "w"):
            u.call(o, "setLinearVelocityReference", [Ptr(tvo(u.I, name, "dyn", dims))])
            for t in (T.atom("t0"), T.atom("t1")):
                v, ok = u.get(Ptr(o), t)
                key = "LinearMomentumReference of a velocity with %d components" % dims
                f = P.method(o.cls, "get")[0]
                u.where = "%s:%s" % (f.file, f.line)
                want = T.lt(0, T.fn("valid:" + name, t)) if dims == 3 else False
                u.eq(key + ": validity", ok, want)
                if dims == 3:
                    u.eq(key + ": value", v, [T.mul(ms, T.fn("%s[%d]" % (name, i), t)) for i in range(3)], cond=want)
    return u.res


# ------------------------------------------------------------------ parameters
def positive(name):
    return T.add(0.01, T.mul(T.atom(name), T.atom(name)))


def _scal(name):
    new = positive("p:%s2" % name)
    return lambda w: new, {"p:" + name: new}, {}


def _tv(name, elt, dims=None):
    from ..interp import Ptr
    from ..models import tvo
    comp = [""] + ["[%d]" % i for i in range(dims or 0)] + ([".q%d" % i for i in range(4)] if elt == "rot" else [])
    fns = {name + c: name + "2" + c for c in comp}
    fns["valid:" + name] = "valid:%s2" % name
    return lambda w: Ptr(tvo(w.I, name + "2", elt, dims)), {}, fns


def _fixedrot():
    from ..models import rot_from_quat

    def new(w):
        q = [T.atom("rq%d" % i) for i in range(4)]
        n = 0
        for x in q:
            n = T.add(n, T.mul(x, x))
        return rot_from_quat(w.I, [T.div(x, T.f1("sqrt", n)) for x in q])
    return new, {}, {"desiredRotation.q%d" % i: "rqf%d" % i for i in range(4)}


def _vec(name, n, kind):
    from ..models import vec
    atoms = lambda k: [T.atom("p:%s2[%d]" % (name, i)) for i in range(k)]
    return (lambda w: vec(w.I, atoms(n), kind)), {"p:%s[%d]" % (name, i): a for i, a in enumerate(atoms(n))}, {}


def setters():
    """class -> (setter, (new value, atoms it replaces, functions it replaces), values that must be refused)"""
    from ..interp import NULL
    from ..models import vec
    vn = lambda k: lambda w: vec(w.I, [T.atom("bad[%d]" % i) for i in range(k)], "dyn")
    neg = lambda w: T.neg(positive("p:bad"))
    null = lambda w: NULL
    tol = [("setEqualityTolerance", _scal("tolerance"), [])]
    return {
        "ContactFrictionConstraint": [("setFrictionCoefficient", _scal("friction"), [("zero", lambda w: 0), ("a negative one", neg)])],
        "FeetLateralDistanceConstraint": [("setMinimumDistance", _scal("minDistance"), [("a negative one", neg)])],
        "StaticTorquesCost": [("setWeights", _vec("tw", 4, "dyn"), [("%d weights" % k, vn(k)) for k in (0, 3, 5)])],
        "FrameAngularVelocityCost": [("setDesiredRotationTrajectory", _tv("desiredRotation", "rot"), [("none", null)])],
        "FrameOrientationCost": [("setDesiredRotationTrajectory", _tv("desiredRotation", "rot"), [("none", null)]),
                                 ("setTimeVaryingWeight", _tv("weight", "double"), []),
                                 ("setDesiredRotation", _fixedrot(), [])],
        "MeanPointPositionCost": [("setDesiredPositionTrajectory", _tv("desiredPosition", "fix", 3), [("none", null)]),
                                  ("setTimeVaryingWeight", _tv("weight", "dyn", 3), [])],
        "FootYawCost": [("setDesiredYawTrajectory", _tv("desiredYaw", "double"), [])],
        "ForceRatioCost": [("setDesiredRatio", _scal("ratio"), [])],
        "CentroidalMomentumConstraint": tol, "CoMPositionConstraint": tol, "ContactPositionConsistencyConstraint": tol, "QuaternionNormConstraint": tol,
    }


def parameters(P, tier, name, kw, k):
    """a parameter set again counts from then on; one that is refused changes nothing"""
    from ..interp import Ptr
    res = Res()
    meth, (new, atoms, fns), bad = setters()[name][k]
    e = build(P, name, kw, res)
    w = e.w
    fs = P.method(e.o.cls, meth)
    if not fs:
        raise Broken("%s::%s" % (e.o.cls, meth))
    key0 = "%s::%s" % (e.o.cls, meth)
    wh = "%s:%s" % (fs[0].file, fs[0].line)
    res.site("%s (%s)" % (key0, cname(name, kw)))
    pt = w.point()
    meths = [m for m in METH if e.has(m)]

    def all_of(tag):
        out = {}
        for m in meths:
            r = call(e, m, pt, res, "%s %s: %s" % (key0, tag, NAMES[e.kind][m]))
            if r is not None:
                out[m] = (r[0], np.array(r[1], dtype=object))
        if e.kind == "constraint":
            b = e.bounds()
            out["bounds"] = (True, np.array([[w.I.rd(x) for x in list(b[1]) + list(b[3])] + [w.I.rd(b[0]), w.I.rd(b[2])]], dtype=object))
        return out

    fixed = {T.atom("rq%d" % i): T.fn("rqf%d" % i, pt.t) for i in range(4)}
    base = all_of("at first")
    ren = lambda t: T.rename(t, atoms, fns) if T.isn(t) else t
    want2 = {m: (ren(r), [[ren(x) for x in row] for row in v]) for m, (r, v) in base.items()}

    # what the parameter is for: some result must depend on it
    moved = [T.equal(x, want2[m][1][i][j]) for m, (r, v) in base.items() for (i, j), x in np.ndenumerate(v) if x is not want2[m][1][i][j]]
    res.decide(True if False in moved else (None if None in moved or not base else False), key0 + " has an effect", wh,
               "no evaluation or bound depends on the value that was set")

    def same(got, want, what):
        for m, (r, v) in got.items():
            if m not in want:
                continue
            nm = "bounds" if m == "bounds" else NAMES[e.kind][m]
            cond = T.land(r, want[m][0])
            diff = None
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    g, x = v[i, j], want[m][1][i][j]
                    if "setDesiredRotation" == meth:
                        g = T.subst(g, fixed) if T.isn(g) else g
                    q = True if g is x else T.equal_if(cond, g, x)
                    if q is True:
                        res.good()
                    elif q is None:
                        res.undecided("%s: %s %s" % (key0, what, nm))
                    elif diff is None:
                        diff = (i, j, g, x)
            if diff:
                res.bad("%s: %s, %s" % (key0, what, nm), wh, "entry (%d,%d) is %s instead of %s" % (diff[0], diff[1], show(diff[2]), show(diff[3])))

    def refuse(want, when):
        for text, b in bad:
            r = w.I.rd(w.call(e.o, meth, [b(w)]))
            q = T.equal(r, False) if T.isn(r) or isinstance(r, bool) else None
            res.decide(q, "%s refuses %s" % (key0, text), wh, "the result is %s" % show(r))
            same(all_of("after a refused call"), want, "after refusing %s%s" % (text, when))

    refuse(base, "")
    r = w.I.rd(w.call(e.o, meth, [new(w)]))
    if r is not None:
        res.decide(T.equal(r, True), key0 + " accepts", wh, "a valid value is refused")
    same(all_of("after a second call"), want2, "after setting another value")
    refuse({m: (r, v) for m, (r, v) in all_of("").items()}, " later")
    return res


# ------------------------------------------------------------------ tasks
def tasks(P, pid, tier):
    if pid == "C07":
        return [(parameters, (n, kw, k)) for n in sorted(setters()) for k in range(len(setters()[n])) for kw in configs(n, tier)]
    f = {"C04": first, "C05": second, "C03": sparsity, "C02": history, "C01": failures}[pid]
    out = [(momentum_reference, ())] if pid == "C01" else []
    names = sorted(ALL, key=lambda n: (n not in KIN, n))
    for n in names:
        for kw in configs(n, tier):
            if pid == "C02" and kw.get("order") and tier != "thorough":
                continue
            out.append((f, (n, kw)))
    return out
