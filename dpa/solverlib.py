"""Recording models of the optimal control framework the Solver hands its problem to.

Nothing is solved: the models keep what was registered, with the condition under which it was, and L2NormCost gets its
documented meaning, half the weighted squared distance of the selected variables from the reference.
"""
from . import terms as T
from .interp import Abort, Obj, Opq, M, Lst, Ptr, LRef, Ch
from .models import BASES, CT_EXT, OBJCLS, OBJM, OPAQUE, mm, vec, lst_from, NULL, ctor, model, le as _le  # noqa: F401

OC = "iDynTree::optimalcontrol::"
OCP, MSS = OC + "OptimalControlProblem", OC + "MultipleShootingSolver"
L2 = OC + "L2NormCost"
IPOPT = "iDynTree::optimization::IpoptInterface"
ITRAP = OC + "integrators::ImplicitTrapezoidal"


def log(I, o, what, **kw):
    """fallible library call: recorded, succeeds unless the analysis wants to follow its failure"""
    ok = True
    if I.opt.get("fallible"):
        I.opt["nfail"] = I.opt.get("nfail", 0) + 1
        ok = T.batom("ok%d:%s" % (I.opt["nfail"], what))
    I.event("ocp", what=what, obj=o, ok=ok, **kw)
    return ok


# ------------------------------------------------------------------ L2NormCost
def b_l2(I, o, args):
    o.d["#name"] = args[0] if args else "?"
    sel = {}
    if len(args) == 5:
        rs, ns, rc, nc = args[1:]
        for k, r, n in (("x", rs, ns), ("u", rc, nc)):
            off, size = (I.rd(r.d["offset"]), I.rd(r.d["size"])) if isinstance(r, Obj) else (None, None)
            if not isinstance(off, int) or not isinstance(size, int):
                raise Abort("L2NormCost selector %r %r" % (off, size))
            if off >= 0 and size >= 0 and n > 0:
                if off + size > n:
                    I.event("oob", what="L2NormCost selector [%d, +%d) of %d" % (off, size, n))
                sel[k] = (off, size)
    elif len(args) == 3 and isinstance(args[1], int):
        sel = {k: (0, n) for k, n in (("x", args[1]), ("u", args[2])) if n > 0}
    else:
        raise Abort("L2NormCost constructor")
    o.d["#l2"] = sel
    for k, (off, size) in sel.items():
        o.d["#w" + k] = vec(I, [1] * size, "dyn")
        o.d["#d" + k] = NULL
    return o


BASES[L2] = b_l2


def c_l2(I, t, a):
    o = Obj(L2, I.guard)
    return b_l2(I, o, [I.rd(x) for x in a])


CT_EXT[L2] = c_l2


@ctor(L2)
def ct_l2(I, e, c, cls):
    return b_l2(I, Obj(L2, I.guard), [I.rd(x) for x in I.args(e, c)])


def l2_weight(k):
    def f(I, th, a, n, c):
        o = I.rd(th)
        w = mm(I, a[0])
        if "#w" + k not in o.d:
            return False
        size = o.d["#l2"][k][1]
        r, cc = I.shape(w)
        if (r * cc != size) if cc == 1 or r == 1 else (r != size or cc != size):
            return False
        if cc != 1 and r != 1:
            raise Abort("L2NormCost matrix weight")
        I.assign_ent(o.d["#w" + k], w)
        return True
    return f


def l2_ref(k):
    def f(I, th, a, n, c):
        o = I.rd(th)
        if "#d" + k not in o.d:
            return False
        v = I.rd(a[0])
        if isinstance(v, M):
            t = Opq("tio", "iDynTree::optimalcontrol::TimeInvariantVector", I.guard)
            t.d["v"] = I.own(v)
            v = Ptr(t)
        I.write(o, "#d" + k, v)
        return True
    return f


L2M = {"setStateWeight": l2_weight("x"), "setControlWeight": l2_weight("u"), "setStateDesiredTrajectory": l2_ref("x"),
       "setControlDesiredTrajectory": l2_ref("u"), "setStateDesiredPoint": l2_ref("x"), "setControlDesiredPoint": l2_ref("u"),
       "name": lambda I, th, a, n, c: I.rd(th).d["#name"]}
OBJM.update({k: v for k, v in L2M.items() if k != "name"})


def l2_call(I, o, a, n, c):
    f = L2M.get(c.n)
    return f(I, o, a, n, c) if f else NotImplemented


OBJCLS[L2] = l2_call


class _C:
    def __init__(self, n, cls=None):
        self.n, self.qn, self.sqn, self.cls, self.ret, self.rm = n, n, n, cls, "", ""
        self.repo, self.virt, self.static, self.const, self.ta, self.pt, self.pm, self.usr = False, True, False, False, [], [], [], ""


def tv_get(I, p, t):
    """value and validity of a time varying object held by a pointer value"""
    v = I.rd(p)
    if isinstance(v, Ch):
        a, oka = tv_get(I, v.a, t)
        b, okb = tv_get(I, v.b, t)
        if a is None or b is None:
            return (b, T.land(T.lnot(v.c), okb)) if a is None else (a, T.land(v.c, oka))
        return [T.ite(v.c, x, y) for x, y in zip(a, b)], T.ite(v.c, oka, okb)
    if isinstance(v, Ptr):
        if v.t is None:
            return None, False
        v = v.t
    h = Obj("#h")
    h.d["v"] = False
    if isinstance(v, Opq):
        r = OPAQUE[v.kind](I, v, _C("get", v.info if isinstance(v.info, str) else ""), [t, LRef(h, "v")], {})
    elif isinstance(v, Obj):
        f = [x for x in I.P.method(v.cls, "get") if len(x.params) == 2]
        if not f:
            raise Abort("get of " + v.cls)
        r = I.call_fn(f[0], v, [t, LRef(h, "v")])
    else:
        raise Abort("time varying object %r" % (v,))
    r = I.rd(r)
    ok = I.rd(h.d["v"])
    if isinstance(r, Ch):
        def arr(x):
            x = I.rd(x)
            if isinstance(x, Ch):
                return [T.ite(x.c, p, q) for p, q in zip(arr(x.a), arr(x.b))]
            return list(I.m_arr(x).ravel())
        return arr(r), ok
    return (list(I.m_arr(r).ravel()) if isinstance(r, M) else [r]), ok


def l2_value(I, o, t, xs, us):
    tot, ok = 0, True
    for k, (off, size) in o.d["#l2"].items():
        v = (xs if k == "x" else us)[off:off + size]
        d = I.rd(o.d["#d" + k])
        ref = [0] * size
        if not (isinstance(d, Ptr) and d.t is None):
            ref, okd = tv_get(I, d, t)
            if ref is None or len(ref) != size:
                I.event("shape", what="reference of %s" % o.d["#name"])
                return T.top("reference size"), False
            ok = T.land(ok, okd)
        w = list(I.m_arr(o.d["#w" + k]).ravel())
        for x, y, z in zip(w, v, ref):
            e = T.sub(y, z)
            tot = T.add(tot, T.mul(x, T.mul(e, e)))
    return T.mul(0.5, tot), ok


# ------------------------------------------------------------------ problem, transcription, optimiser, integrator
def plain(cls):
    def c(I, t, a):
        o = Obj(cls, I.guard)
        o.d["#args"] = [I.rd(x) for x in a]
        I.event("ocp", what="new", obj=o, ok=True, args=o.d["#args"])
        return o
    CT_EXT[cls] = c

    @ctor(cls)
    def ct(I, e, cc, k):
        return c(I, cls, I.args(e, cc))


for _c in (OCP, MSS, IPOPT, ITRAP):
    plain(_c)


def own(I, v):
    """keep what an argument held at the time of the call"""
    v = I.rd(v)
    if isinstance(v, (M, Obj)):
        return I.copy(v) if isinstance(v, Obj) else I.own(v)
    return v


def ocp_call(I, o, a, n, c):
    if c.n in ("addLagrangeTerm", "addMayerTerm", "addConstraint", "addGroupOfConstraints", "setTimeHorizon", "setDynamicalSystemConstraint", "setStateBoxConstraints",
               "setControlBoxConstraints", "setStateLowerBound", "setStateUpperBound", "setControlLowerBound", "setControlUpperBound", "removeCost",
               "removeConstraint", "updateCostTimeRange", "removeGroupOfConstraints"):
        return log(I, o, c.n, args=[own(I, x) for x in a])
    return NotImplemented


OBJCLS[OCP] = ocp_call


def mss_call(I, o, a, n, c):
    if c.n in ("setStepSizeBounds", "setIntegrator", "setControlPeriod", "setOptimizer", "setInitialState", "setGuesses", "solve"):
        return log(I, o, c.n, args=[own(I, x) for x in a])
    if c.n in ("addConstraintsHessianRegularization", "disableConstraintsHessianRegularization", "addCostsHessianRegularization",
               "disableCostsHessianRegularization", "resetTranscription"):
        I.event("ocp", what=c.n, obj=o, ok=True, args=[own(I, x) for x in a])
        return None
    if c.n in ("getTimings", "getPossibleTimings", "getSolution"):
        h = I.opt.get("mss_" + c.n)
        ok = log(I, o, c.n, args=[])
        if h is not None:
            put = lambda: h(I, o, a)
            if ok is True:
                put()
            else:
                I.under(ok, put)
        return ok
    return NotImplemented


OBJCLS[MSS] = mss_call


def ipopt_call(I, o, a, n, c):
    if c.n == "isAvailable":
        return T.batom("optimizer available")
    if c.n == "plusInfinity":
        return T.atom("optimizer +inf")
    if c.n == "minusInfinity":
        return T.atom("optimizer -inf")
    return NotImplemented


OBJCLS[IPOPT] = ipopt_call


def ext_call(I, th, c, a, n):
    """an optimiser or integrator supplied by the caller"""
    if c.n in ("plusInfinity", "minusInfinity"):
        return T.atom("%s.%s" % (th.info, c.n))
    if c.n == "dynamicalSystem":
        return th.d.setdefault("#sys", Opq("weak", th.info, I.guard))
    if c.n == "isAvailable":
        return T.batom("%s available" % th.info)
    return NotImplemented


OPAQUE["ext"] = ext_call
OPAQUE["weak"] = lambda I, th, c, a, n: T.batom("%s.expired" % th.info) if c.n == "expired" else NotImplemented
