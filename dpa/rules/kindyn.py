"""C09, C10: the kinematic queries.

C10: SharedKinDynComputations is interpreted over the symbolic robot; every query is compared with the rigid-body quantity
of the state it is given (and the derivative queries with the derivative of that quantity), for every floating base.
C09: the same queries after other queries, updates and setters: the answer is that of an object which saw nothing else.
"""
import itertools
import numpy as np

from .. import terms as T
from ..report import Res, merge
from ..world import Broken, World, PNS
from ..interp import Abort, Lst, M, Obj, Ptr
from ..models import aew, amul, azero, lev_call, lst_from, lv_val, qmul, vec
from ..kin import ARRAYS, BODY, INERTIAL, MIXED, Robot, adj, col, kindyn_call, model_value, qrot, tmat, X as Xf, xid, xinv, xmul
from .. import kin

NS = PNS
SKD = NS + "SharedKinDynComputations"
REPS = {"BODY": BODY, "MIXED": MIXED, "INERTIAL": INERTIAL}
FIELDS = (("s", "s", "n"), ("sd", "s_dot", "n"), ("p", "base_position", 3), ("q", "base_quaternion", 4), ("v", "base_linearVelocity", 3),
          ("qd", "base_quaternionVelocity", 4))


class K:
    """SharedKinDynComputations over the symbolic robot"""

    def __init__(self, P, robot=None, base=None, res=None, fresh=False):
        self.P, self.res = P, res or Res()
        self.R = robot or Robot()
        self.w = World(P, robot=self.R)
        self.I = self.w.I
        self.I.opt["fail"] = None
        self.fails = set()
        if fresh:
            self.I.hooks[SKD + "::sameStatePrivate"] = lambda I, th, a, n, c: False
        self.where = SKD
        self.o = None

    def new(self, base=None, gravity="gravity", robot=None):
        o = self.I.construct_default(SKD)
        if self.call(o, "loadRobotModel", [model_value(self.I, robot or self.R)]) is False:
            raise Broken("loadRobotModel refused the model")
        if gravity:
            self.call(o, "setGravity", [self.w.pvec(gravity, 3)])
        if base:
            if self.call(o, "setFloatingBase", [base]) is False:
                raise Broken("setFloatingBase refused " + base)
        return o

    def call(self, o, name, args, sig=None):
        fs = [f for f in self.P.method(o.cls, name) if len(f.params) == len(args)]
        if sig:
            fs = [f for f in fs if sig(f)]
        if not fs:
            raise Broken("%s::%s" % (o.cls, name))
        self.where = "%s:%s" % (fs[0].file, fs[0].line)
        self.res.site("%s::%s" % (o.cls.replace(NS, ""), name))
        return self.I.rd(self.I.call_fn(fs[0], o, args))

    # ------------------------------------------------------------------------------------------ states
    def atoms(self, tag="", robot=None):
        r = robot or self.R
        return {k: [T.atom("%s%s[%d]" % (k, tag, i)) for i in range(r.n if d == "n" else d)] for k, _, d in FIELDS}

    def state(self, vals):
        I = self.I
        st = I.construct_default(NS + "RobotState")
        for k, f, d in FIELDS:
            m = st.d.get(f)
            if m is None:
                raise Broken("RobotState::" + f)
            I.m_assign(m, vec(I, list(vals[k]), "dyn" if d == "n" else "fix"))
        return st

    # ------------------------------------------------------------------------------------------ reference
    def lib(self, vals, base=None, robot=None):
        return Lib(self, vals, base, robot)


class C:
    def __init__(self, n):
        self.n = n


class Lib:
    """the rigid-body library in the given state"""

    def __init__(self, k, vals, base=None, robot=None):
        self.k, self.v, self.R = k, vals, robot or k.R
        self.b = self.R.links.index(base) if base else self.R.base
        nrm = T.f1("sqrt", sum_([T.mul(x, x) for x in vals["q"]]))
        self.q = tuple(T.div(x, nrm) for x in vals["q"])
        self.x = Xf(col(vals["p"]), qrot(self.q), self.q)
        conj = (self.q[0],) + tuple(T.neg(x) for x in self.q[1:])
        w = qmul(conj, tuple(vals["qd"]))
        self.vb = col(list(vals["v"]) + [T.mul(2.0, x) for x in w[1:]])
        self.s, self.sd = list(vals["s"]), col(vals["sd"])

    def world(self, f):
        return xmul(self.x, self.R.frameT(self.b, f, self.s))

    def twist(self, f, rep):
        return amul(kin.rep_mats(rep, self.world(f)), self.R.twist(f, self.s, self.vb, self.sd, self.b))

    def jac(self, f, rep):
        R = self.R
        J = azero(6, 6 + R.n)
        J[:, :6] = adj(R.frameT(f, self.b, self.s))
        J[:, 6:] = R.jrel(self.b, f, self.s)
        J = amul(kin.rep_mats(rep, self.world(f)), J)
        J[:, :6] = amul(J[:, :6], kin.minv(rep, self.x))
        return J

    def relj(self, f0, f1, rep):
        R = self.R
        J = R.jrel(f0, f1, self.s)
        return amul(kin.rep_mats(rep, R.frameT(f0, f1, self.s)), J)

    def com(self):
        return aew2(T.add, self.x.p, amul(self.x.R, self.R.com_in(self.b, self.s)))

    def lib(self, what, args, rep):
        """quantities only the library model defines (kin.kindyn_call)"""
        I = self.k.I
        o = Obj("iDynTree::KinDynComputations", I.guard)
        kindyn_call(I, o, [model_value(I, self.R)], None, C("loadRobotModel"))
        kindyn_call(I, o, [self.R.links[self.b]], None, C("setFloatingBase"))
        kindyn_call(I, o, [BODY], None, C("setFrameVelocityRepresentation"))
        kindyn_call(I, o, [tmat(I, self.x), vec(I, self.s, "dyn"), vec(I, list(self.vb.ravel())), vec(I, list(self.sd.ravel()), "dyn"), vec(I, [0.0, 0.0, 0.0])],
                    None, C("setRobotState"))
        kindyn_call(I, o, [rep], None, C("setFrameVelocityRepresentation"))
        n = len([e for e in I.events])
        out = mat(self.k)
        r = kindyn_call(I, o, list(args) + [out], None, C(what)) if what != "getLinearAngularMomentum" else kindyn_call(I, o, [], None, C(what))
        del I.events[n:]
        return I.m_arr(r if isinstance(r, M) else out)

    def statics(self, ext, g):
        """internal wrenches of the links and generalised torques that balance gravity and the link wrenches"""
        R = self.R
        order = R.traversal(self.b)
        a0 = col([T.neg(x) for x in amul(self.x.R.T.copy(), col(g)).ravel()] + [0.0] * 3)
        F = {}
        tau = [None] * R.n
        for l, p, j in reversed(order):
            f = aew2(T.sub, amul(R.inert[l], amul(adj(R.linkT(l, self.b, self.s)), a0)), col(ext[l]))
            for l2, p2, j2 in order:
                if p2 == l:
                    f = aew2(T.add, f, amul(adj(R.linkT(l, l2, self.s), True), F[l2]))
            F[l] = f
            if p is not None:
                tau[j] = amul(R.S(j, l, p).T.copy(), f)[0, 0]
        return F, tau


def sum_(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.add(r, x)
    return r


def aew2(f, a, b):
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        o[i] = f(a[i], b[i])
    return o


def jder(a, k, s):
    """derivative of a column of quantities with respect to the joints"""
    o = azero(a.shape[0], len(s))
    for i in range(a.shape[0]):
        for j, at in enumerate(s):
            o[i, j] = T.diff(a[i, 0], at) if T.isn(a[i, 0]) else 0.0
    return o


def is_string(f):
    return any("basic_string" in (p.get("lt") or p.get("t", "")) or "string" in p.get("t", "") for p in f.params)


# -------------------------------------------------------------------------------------------------- queries
class Q:
    """one query: how the code is asked and what it has to answer"""

    def __init__(self, key, ask, want, deriv=False):
        self.key, self.ask, self.want = key, ask, want


def mat(k):
    m = k.I.mzero(0, 0, "dyn", False)
    m.fresh = False
    return m


def parts(k, t):
    t = k.I.rd(t)
    return np.concatenate([k.I.m_arr(t.d["p"]), k.I.m_arr(t.d["R"])], axis=1)


def xparts(x):
    return np.concatenate([x.p, x.R], axis=1)


def out(k, o, name, st, args, rep=None, sig=None):
    m = mat(k)
    r = k.call(o, name, [st] + args + [m] + ([rep] if rep is not None else []), sig)
    if r is not True:
        return ("refused", r)
    return k.I.m_arr(m)


def links(k, tag="ext"):
    """one wrench per link"""
    r = k.R
    ext = [[T.atom("%s%d[%d]" % (tag, l, i)) for i in range(6)] for l in range(len(r.links))]
    return ext, fill_links(k, ext)


def fill_links(k, ext):
    o = Obj("iDynTree::LinkNetExternalWrenches", k.I.guard)
    kin.arr_resize(k.I, o, k.R)
    for l, e in enumerate(ext):
        k.I.m_store(o.d["l"].d[l], col(e))
    return o


def frame_queries(k, f, reps=REPS):
    name = k.R.frames[f]
    qs = []
    for kind, ref, sig in (("name", name, is_string), ("number", f, lambda x: not is_string(x))):
        qs.append(Q("getWorldTransform(%s by %s)" % (name, kind), lambda o, st, ref=ref, sig=sig: parts(k, k.call(o, "getWorldTransform", [st, ref], sig)),
                    lambda L: xparts(L.world(f))))
        for rn, rep in reps.items():
            qs.append(Q("getFrameVel(%s by %s, %s)" % (name, kind, rn), lambda o, st, ref=ref, sig=sig, rep=rep: k.I.m_arr(k.call(o, "getFrameVel", [st, ref, rep], sig)),
                        lambda L, rep=rep: L.twist(f, rep)))
            qs.append(Q("getFrameFreeFloatingJacobian(%s by %s, %s)" % (name, kind, rn), lambda o, st, ref=ref, sig=sig, rep=rep: out(
                k, o, "getFrameFreeFloatingJacobian", st, [ref], rep, sig), lambda L, rep=rep: L.jac(f, rep)))
    qs.append(Q("getFrameVelJointsDerivative(%s)" % name, lambda o, st: out(k, o, "getFrameVelJointsDerivative", st, [f]),
                lambda L: jder(L.twist(f, BODY), k, L.s)))
    return qs


def pair_queries(k, a, b, reps=REPS):
    na, nb = k.R.frames[a], k.R.frames[b]
    qs = [Q("getRelativeTransform(%s, %s by number)" % (na, nb), lambda o, st: parts(k, k.call(o, "getRelativeTransform", [st, a, b], lambda x: not is_string(x))),
            lambda L: xparts(L.R.frameT(a, b, L.s))),
          Q("getRelativeTransform(%s, %s by name)" % (na, nb), lambda o, st: parts(k, k.call(o, "getRelativeTransform", [st, na, nb], is_string)),
            lambda L: xparts(L.R.frameT(a, b, L.s)))]
    for rn, rep in reps.items():
        qs.append(Q("getRelativeJacobian(%s, %s, %s)" % (na, nb, rn), lambda o, st, rep=rep: out(k, o, "getRelativeJacobian", st, [a, b], rep),
                    lambda L, rep=rep: L.relj(a, b, rep)))
    return qs


def whole_queries(k, reps=REPS):
    qs = [Q("getBaseTransform", lambda o, st: parts(k, k.call(o, "getBaseTransform", [st])), lambda L: xparts(L.x)),
          Q("getCenterOfMassPosition", lambda o, st: k.I.m_arr(k.call(o, "getCenterOfMassPosition", [st])), lambda L: L.com()),
          Q("getLinearAngularMomentumJointsDerivative", lambda o, st: out(k, o, "getLinearAngularMomentumJointsDerivative", st, []),
            lambda L: jder(L.lib("getLinearAngularMomentum", [], BODY), k, L.s))]
    for rn, rep in reps.items():
        for nm in ("getCenterOfMassJacobian", "getLinearAngularMomentumJacobian", "getFreeFloatingMassMatrix"):
            qs.append(Q("%s(%s)" % (nm, rn), lambda o, st, rep=rep, nm=nm: out(k, o, nm, st, [], rep), lambda L, rep=rep, nm=nm: L.lib(nm, [], rep)))
        qs.append(Q("getLinearAngularMomentum(%s)" % rn, lambda o, st, rep=rep: k.I.m_arr(k.call(o, "getLinearAngularMomentum", [st, rep])),
                    lambda L, rep=rep: L.lib("getLinearAngularMomentum", [], rep)))
    return qs


def static_queries(k, g=None):
    g = g or [T.atom("p:gravity[%d]" % i) for i in range(3)]
    ext, eo = links(k)

    def torques(o, st, full):
        I = k.I
        t = I.construct_default("iDynTree::FreeFloatingGeneralizedTorques")
        kin.ff_call(I, t, [model_value(I, k.R)], None, C("resize"))
        if full:
            l = I.construct_default("iDynTree::LinkWrenches")
            kin.arr_resize(I, l, k.R)
            r = k.call(o, "getStaticForces", [st, eo, t, l])
        else:
            r = k.call(o, "getStaticForces", [st, eo, t])
        if r is not True:
            return ("refused", r)
        v = [I.m_arr(t.d["b"]), I.m_arr(t.d["j"])]
        if full:
            v += [I.m_arr(l.d["l"].d[i]) for i in range(len(k.R.links))]
        return np.concatenate(v, axis=0)

    def want(L, full):
        F, tau = L.statics(ext, g)
        v = [F[L.b], col(tau)]
        if full:
            v += [F[i] for i in range(len(k.R.links))]
        return np.concatenate(v, axis=0)

    return [Q("getStaticForces(torques)", lambda o, st: torques(o, st, False), lambda L: want(L, False)),
            Q("getStaticForces(torques, link wrenches)", lambda o, st: torques(o, st, True), lambda L: want(L, True)),
            Q("getStaticForcesJointsDerivative", lambda o, st: out(k, o, "getStaticForcesJointsDerivative", st, [eo]),
              lambda L: jder(col(L.statics(ext, g)[1]), k, L.s))]


def same(k, key, got, want, text=""):
    res = k.res
    if isinstance(got, tuple):
        res.bad(key, k.where, "%s: the query reports failure (%s) for a valid state%s" % (key, T.show(got[1], 3) if T.isn(got[1]) else got[1], text))
        return
    if got.shape != want.shape:
        res.bad(key + ":shape", k.where, "%s answers %dx%d values instead of %dx%d%s" % ((key,) + got.shape + want.shape + (text,)))
        return
    und = 0
    for i in np.ndindex(*got.shape):
        v = T.equal(got[i], want[i])
        if v is False:
            res.bad("%s[%d,%d]" % ((key,) + i), k.where, "%s%s: entry (%d,%d) is %s and should be %s" % (key, text, i[0], i[1], T.show(got[i], 3) if T.isn(got[i]) else got[i],
                                                                                                     T.show(want[i], 3) if T.isn(want[i]) else want[i]))
            return
        if v is None:
            und += 1
        else:
            res.good()
    if und:
        res.undecided(key)


def ask(k, q, o, st, want, text=""):
    try:
        got = q.ask(o, st)
    except Abort as e:
        k.res.stopped(q.key + text, k.where, e)
        return
    same(k, q.key, got, want, text)


# -------------------------------------------------------------------------------------------------- C10 tasks
def quantities(P, tier, base, group):
    k = K(P)
    o = k.new(base if base != "root" else None)
    vals = k.atoms()
    st = k.state(vals)
    L = k.lib(vals, base)
    F = range(len(k.R.frames))
    if group == "frames":
        qs = [q for f in F for q in frame_queries(k, f)]
    elif group == "pairs":
        qs = [q for a, b in itertools.product(F, F) for q in pair_queries(k, a, b)]
    elif group == "whole":
        qs = whole_queries(k)
    else:
        qs = static_queries(k)
    for q in qs:
        want = q.want(L)
        # asked again after a query in each representation: the answer never depends on the one used last
        for rn, rep in REPS.items():
            try:
                k.call(o, "getFrameVel", [st, 0, rep], lambda x: not is_string(x))
            except Abort as e:
                k.res.stopped("getFrameVel(%s)" % rn, k.where, e)
                return k.res
            ask(k, q, o, st, want, " with floating base %s, after a query in %s representation" % (base, rn))
    return k.res


def refused(P, tier):
    """requests that cannot be met are refused and change nothing"""
    k = K(P)
    res = k.res
    o = k.new("l1")
    vals = k.atoms()
    st = k.state(vals)
    k.call(o, "updateRobotState", [st])
    res.decide(k.call(o, "setFloatingBase", ["not a link"]) is False, "setFloatingBase(unknown)", k.where, "a floating base that is not a link is accepted")
    res.decide(k.call(o, "getFloatingBase", []) == "l1", "floating base after a refused one", k.where, "a refused floating base replaces the current one")
    for bad in (-1.0, -1e-300):
        res.decide(k.call(o, "setToleranceForUpdate", [bad]) is False, "setToleranceForUpdate(%g)" % bad, k.where, "a negative tolerance is accepted")
        res.decide(k.call(o, "getUpdateTolerance", []) == 1e-10, "tolerance after a refused one", k.where, "a refused tolerance is stored")
    res.decide(k.call(o, "setToleranceForUpdate", [0.25]) is True and k.call(o, "getUpdateTolerance", []) == 0.25, "setToleranceForUpdate", k.where,
               "an accepted tolerance is not the one in use")
    for f in (-1, len(k.R.frames)):
        n = len(k.I.events)
        r = k.call(o, "getFrameVelJointsDerivative", [st, f, mat(k)])
        del k.I.events[n:]
        res.decide(r is False, "getFrameVelJointsDerivative(frame %d)" % f, k.where, "a frame that does not exist is accepted")
    for q in [frame_queries(k, k.R.frames.index("l_sole"))[1], whole_queries(k)[0]] + static_queries(k):
        ask(k, q, o, st, q.want(k.lib(vals, "l1")), " after refused requests")
    return res


def empty(P, tier):
    """queries of an object without a model report failure"""
    k = K(P)
    st = k.state(k.atoms())
    ext, eo = links(k)
    for name, args in (("getFrameVelJointsDerivative", [0]), ("getLinearAngularMomentumJointsDerivative", []), ("getStaticForcesJointsDerivative", [eo]), ("getFreeFloatingMassMatrix", None)):
        o = k.I.construct_default(SKD)
        k.res.decide(k.call(o, "isValid", []) is False, "isValid without a model", k.where, "an object without a model calls itself valid")
        m = mat(k)
        try:
            r = k.call(o, name, [st, m, MIXED] if args is None else [st] + args + [m])
        except Abort as e:
            k.res.stopped(name + " without a model", k.where, e)
            continue
        k.res.decide(r is False, name + " without a model", k.where, "%s answers %s for an object without a model" % (name, r))
    return k.res


# -------------------------------------------------------------------------------------------------- C09 tasks
def probes(k):
    """queries which together read every part of the state"""
    f = k.R.frames.index("l_sole")
    rp = {"MIXED": MIXED}
    qs = [q for q in frame_queries(k, f, rp) if "number" in q.key or "Joints" in q.key]
    w = whole_queries(k, rp)
    return qs + w + [q for q in pair_queries(k, k.R.frames.index("r_sole"), f, rp) if "name" not in q.key] + static_queries(k)


def component(P, tier, small):
    """two states which differ in one component, asked one after the other"""
    k = K(P, Robot(small=True)) if small else K(P)
    n = k.R.n
    for key, field, d in FIELDS:
        for i in range(n if d == "n" else d):
            for a, b in ((0.25, 0.75), (0.5, 0.25), (0.125, 1000.0)) + (((0.25, 0.25 + 2e-10), (0.25 + 2e-10, 0.25)) if tier != "quick" else ()):
                A, B = k.atoms(), k.atoms()
                A[key][i], B[key][i] = a, b
                sa, sb = k.state(A), k.state(B)
                LB = k.lib(B)
                o = k.new()
                t = " asked after a state with another %s[%d]" % (field, i)
                k.call(o, "updateRobotState", [sa])
                k.res.decide(k.call(o, "sameState", [sa]) is True, "sameState(%s)" % field, k.where, "the current state is not recognised as such")
                k.res.decide(k.call(o, "sameState", [sb]) is False, "sameState(other %s[%d])" % (field, i), k.where,
                             "a state whose %s[%d] is %g is taken for the one where it is %g" % (field, i, b, a))
                f = k.R.frames.index("l_sole")
                for q in (whole_queries(k, {})[0], frame_queries(k, f, {"MIXED": MIXED})[4]):
                    o = k.new()
                    k.call(o, "updateRobotState", [sa])
                    ask(k, q, o, sb, q.want(LB), t)
    return k.res


def tolerance(P, tier):
    """states closer than the tolerance in every component are the same, farther in one are not; the tolerance in use is the last one set"""
    for small in (False,):
        k = K(P, Robot(small=True))
        for key, field, d in FIELDS:
            for i in range(k.R.n if d == "n" else d):
                for tol, delta, same_ in ((0.5, 0.25, True), (0.5, 0.75, False), (0.0625, 0.125, False), (0.0625, 0.03125, True)):
                    for sign in (1, -1):
                        A, B = k.atoms(), k.atoms()
                        A[key][i], B[key][i] = 1.0, 1.0 + sign * delta
                        o = k.new()
                        k.call(o, "updateRobotState", [k.state(A)])
                        k.call(o, "setToleranceForUpdate", [tol])
                        k.res.decide(k.call(o, "sameState", [k.state(B)]) is same_, "sameState(tolerance, %s)" % field, k.where,
                                     "with tolerance %g two states whose %s[%d] differ by %g are taken for %s" % (tol, field, i, delta, "different" if same_ else "the same"))
    return k.res


def order(P, tier, part, parts_):
    """every query after every other query, in another state and representation"""
    out = []
    for base in ("root",) + (("l1",) if tier != "quick" else ()):
        k = K(P, Robot(small=True))
        A, B = k.atoms(".a"), k.atoms(".b")
        # derivatives are taken with respect to every joint: the joints stay symbolic and the base position tells the states apart
        A["p"][1], B["p"][1] = 0.5, 0.25
        sa, sb = k.state(A), k.state(B)
        fs = [q for f in ("l_sole", "r1") for q in frame_queries(k, k.R.frames.index(f)) if "by name" not in q.key]
        qs = fs + whole_queries(k) + [q for q in pair_queries(k, k.R.frames.index("r_sole"), k.R.frames.index("l_sole")) if "by name" not in q.key] + static_queries(k)
        LA, LB = k.lib(A, base), k.lib(B, base)
        want = [q.want(LB) for q in qs]
        for first in range(part, len(qs), parts_):
            q0 = qs[first]
            own = q0.want(LA)
            for i, q in enumerate(qs):
                o = k.new(base if base != "root" else None)
                q0.ask(o, sa)
                ask(k, q, o, sb, want[i], " after " + q0.key)
                ask(k, q0, o, sa, own, " before and after " + q.key)
        out.append(k.res)
    return merge(out)


def setters(P, tier, what):
    """queries around a change of the object's settings"""
    k = K(P)
    A, B = k.atoms(".a"), k.atoms(".b")
    sa, sb = k.state(A), k.state(B)
    g2 = [T.atom("p:g2[%d]" % i) for i in range(3)]
    if what == "base":
        for b1, b2 in itertools.permutations(k.R.links, 2):
            o = k.new(b1 if b1 != "root" else None)
            k.call(o, "updateRobotState", [sa])
            L0 = k.lib(A, b1)
            ask(k, probes(k)[1], o, sa, probes(k)[1].want(L0), " with floating base " + b1)
            if k.call(o, "setFloatingBase", [b2]) is not True:
                k.res.bad("setFloatingBase", k.where, "setFloatingBase(%s) is refused" % b2)
                continue
            L = k.lib(A, b2)
            for q in probes(k):
                ask(k, q, o, sa, q.want(L), " after the floating base is changed from %s to %s" % (b1, b2))
    elif what == "gravity":
        for d in range(3):
            # both gravities differ in one component only
            ga, gb = [T.atom("p:g[%d]" % i) for i in range(3)], [T.atom("p:g[%d]" % i) for i in range(3)]
            ga[d], gb[d] = 0.5, -2.0
            o = k.new(gravity=None)
            k.call(o, "setGravity", [vec(k.I, ga)])
            k.call(o, "updateRobotState", [sa])
            for q in static_queries(k, ga):
                ask(k, q, o, sa, q.want(k.lib(A)), " with a gravity")
            k.call(o, "setGravity", [vec(k.I, gb)])
            same(k, "gravity", k.I.m_arr(k.call(o, "gravity", [])), col(gb), " after setGravity")
            for q in static_queries(k, gb) + probes(k)[:-3]:
                ask(k, q, o, sa, q.want(k.lib(A)), " after the gravity is changed")
        o = k.new(gravity=None)
        for q in static_queries(k, [0.0, 0.0, -9.81]):
            ask(k, q, o, sa, q.want(k.lib(A)), " with the default gravity")
    elif what == "reload":
        small = Robot(small=True)
        for first, second in ((k.R, k.R), (small, k.R), (k.R, small)):
            for zero in (False, True):
                va, vb = k.atoms(".a", first), k.atoms(".a" if zero else ".b", second)
                if zero:
                    for v in (va, vb):
                        v["s"], v["sd"] = [0.0] * len(v["s"]), [0.0] * len(v["sd"])
                for base in (None, "l1"):
                    k2 = K(P, first, res=k.res)
                    o = k2.new(base)
                    k2.call(o, "updateRobotState", [k2.state(va)])
                    for q in probes(k2)[:3]:
                        ask(k2, q, o, k2.state(va), q.want(k2.lib(va, base or "root")), " before another model is loaded")
                    k2.R = second
                    if k2.call(o, "loadRobotModel", [model_value(k2.I, second)]) is not True:
                        k.res.bad("loadRobotModel", k2.where, "a second model is refused")
                        continue
                    nb = k2.call(o, "getFloatingBase", [])
                    L = k2.lib(vb, nb)
                    t = " after a model with %d joints replaced one with %d" % (second.n, first.n) + (", joints at zero and base where it was" if zero else "")
                    for q in probes(k2):
                        if zero:
                            # derivatives with respect to joints held at zero are not expressible: values only
                            if "Derivative" in q.key:
                                continue
                        ask(k2, q, o, k2.state(vb), q.want(L), t)
    elif what == "copy":
        for base in ("root", "l3", "r1"):
            o = k.new(base if base != "root" else None)
            k.call(o, "setGravity", [vec(k.I, g2)])
            k.call(o, "setToleranceForUpdate", [0.25])
            k.call(o, "updateRobotState", [sa])
            fs = [f for f in P.methods(SKD) if f.ctor == "copy" and f.body] or [f for f in P.methods(SKD) if f.ctor and len(f.params) == 1 and "&&" not in f.params[0].get("t", "")]
            if not fs:
                raise Broken("copy constructor of SharedKinDynComputations")
            c = k.I.construct(fs[0], SKD, [o])
            k.where = "%s:%s" % (fs[0].file, fs[0].line)
            k.res.decide(k.call(c, "getFloatingBase", []) == base, "copied floating base", k.where, "a copy does not have the floating base of the original")
            k.res.decide(k.call(c, "getUpdateTolerance", []) == 0.25, "copied tolerance", k.where, "a copy does not have the tolerance of the original")
            same(k, "copied gravity", k.I.m_arr(k.call(c, "gravity", [])), col(g2))
            k.call(c, "setToleranceForUpdate", [1e-10])
            k.call(o, "setToleranceForUpdate", [1e-10])
            qs = probes(k)[:-3] + static_queries(k, g2)
            for q in qs:
                ask(k, q, c, sa, q.want(k.lib(A, base)), " asked of a copy")
            for q in qs:
                q.ask(c, sb)
                ask(k, q, o, sa, q.want(k.lib(A, base)), " asked of the original after its copy moved to another state")
                ask(k, q, c, sb, q.want(k.lib(B, base)), " asked of a copy after its original moved to another state")
    return k.res


def failure(P, tier):
    """an update which the library refuses is reported and leaves the object out of date, not wrongly up to date"""
    k = K(P, Robot(small=True))
    A, B = k.atoms(".a"), k.atoms(".b")
    A["p"][0], B["p"][0] = 0.5, 0.25
    sa, sb = k.state(A), k.state(B)
    fl = {"on": False}
    k.I.opt["fail"] = lambda I, what, o: not fl["on"]
    rp = {"MIXED": MIXED}
    f = k.R.frames.index("l_sole")
    qs = [q for q in frame_queries(k, f, rp) + whole_queries(k, rp) + pair_queries(k, f, k.R.frames.index("r_sole"), rp) + static_queries(k)]
    for q in qs:
        o = k.new()
        k.call(o, "updateRobotState", [sa])
        fl["on"] = True
        r = k.call(o, "updateRobotState", [sb])
        k.res.decide(r is False, "updateRobotState(refused)", k.where, "an update refused by the library is reported as done")
        if "Jacobian" in q.key or "Derivative" in q.key or "MassMatrix" in q.key or "Static" in q.key:
            try:
                got = q.ask(o, sb)
            except Abort as e:
                k.res.stopped(q.key + " (refused)", k.where, e)
                fl["on"] = False
                continue
            k.res.decide(isinstance(got, tuple) and got[1] is False, q.key + " (refused)", k.where, "%s answers although the state could not be set" % q.key)
        fl["on"] = False
        ask(k, q, o, sb, q.want(k.lib(B)), " after a refused update")
        ask(k, q, o, sa, q.want(k.lib(A)), " after a refused update and an accepted one")
    return k.res


def server(P, tier, hist):
    """the expression server's variables follow the instance of the requested time, whatever was set at other times"""
    from ..interp import Interp
    k = K(P, Robot(small=True))
    I, w = k.I, k.w
    t = I.construct_default(NS + "TimelySharedKinDynComputations")
    if w.call(t, "loadRobotModel", [model_value(I, k.R)]) is False:
        raise Broken("loadRobotModel refused the model")
    w.call(t, "setGravity", [w.pvec("gravity", 3)])
    if w.call(t, "setTimings", [lst_from(I, [0.0, 1.0, 2.0])]) is not True:
        raise Broken("setTimings refused the timings")
    es = w.ctor("ExpressionsServer", [Ptr(t)])
    vals = {n: k.atoms("." + n) for n in "ABC"}
    for n, x in zip("ABC", (0.5, 0.25, -2.0)):
        vals[n]["s"][1] = x
    st = {n: k.state(v) for n, v in vals.items()}
    at = {}
    names = (("s", "jointsPosition"), ("sd", "jointsVelocity"), ("p", "basePosition"), ("q", "baseQuaternion"), ("v", "baseLinearVelocity"), ("qd", "baseQuaternionVelocity"))
    text = []
    now = None
    for op, tm, n in hist:
        text.append("%s(t=%g%s)" % (op, tm, ", " + n if n else ""))
        key = "history " + " ".join(text)
        if op == "kinDyn":
            kd = k.call(t, "get", [tm])
            k.call(kd.t, "updateRobotState", [st[n]])
            at[tm] = n
            continue
        if op == "server":
            r = k.call(es, "updateRobotState", [tm, st[n]])
            at[tm] = n
        else:
            r = k.call(es, "updateRobotState", [tm])
        now = tm
        k.res.decide(r is True, key + ":accepted", k.where, "the state is refused after " + " ".join(text))
        want = vals[at[tm]]
        for f, acc in names:
            v = lv_val(I, k.call(es, acc, []))
            same(k, "%s: %s" % (key, acc), np.array(I.m_arr(I.rd(lev_call(I, v, "evaluate", []))), dtype=object) if not hasattr(v, "atoms") else var_value(I, v), col(want[f]))
        cs = k.call(es, "currentState", [])
        for f, fld, d in FIELDS:
            same(k, "%s: currentState().%s" % (key, fld), I.m_arr(cs.d[fld]), col(want[f]))
        kd = k.call(es, "currentKinDyn", [])
        cs = k.call(kd.t, "currentState", [])
        for f, fld, d in FIELDS:
            same(k, "%s: currentKinDyn()->currentState().%s" % (key, fld), I.m_arr(cs.d[fld]), col(want[f]))
    return k.res


def var_value(I, v):
    return col([I.rd(v.d[i]) if i in v.d else v.atoms[i] for i in range(v.dim)])


def histories(tier):
    ops = [("server", 0.0, "A"), ("server", 1.0, "B"), ("server", 0.0, "B"), ("server", 2.0, "C"), ("server", 1.0, "A")]
    out = []
    for n in (1, 2, 3) + ((4,) if tier != "quick" else ()):
        out += [h for h in itertools.product(ops, repeat=n)]
    k = [("kinDyn", 0.0, "A"), ("kinDyn", 1.0, "B"), ("kinDyn", 2.0, "C")]
    more = [("follow", 0.0, None), ("follow", 1.0, None), ("follow", 2.0, None), ("kinDyn", 1.0, "C"), ("kinDyn", 0.0, "B"), ("server", 1.0, "A"), ("server", 0.0, "C")]
    for n in (1, 2, 3) + ((4,) if tier != "quick" else ()):
        out += [tuple(k) + h for h in itertools.product(more, repeat=n) if h[-1][0] != "kinDyn"]
    return out


def servers(P, tier, part, parts_):
    parts_res = []
    hs = histories(tier)
    for i in range(part, len(hs), parts_):
        r = server(P, tier, hs[i])
        parts_res.append(r)
    return merge(parts_res)


def tasks(P, pid, tier):
    R = Robot()
    if pid == "C10":
        return [(quantities, (b, g)) for b in R.links for g in ("frames", "pairs", "whole", "statics")] + [(refused, ()), (empty, ())]
    out = [(component, (True,)), (tolerance, ()), (failure, ())] + [(setters, (w,)) for w in ("base", "gravity", "reload", "copy")]
    out += [(order, (i, 13)) for i in range(13)]
    n = 16 if tier == "quick" else 64
    out += [(servers, (i, n)) for i in range(n)]
    return out
