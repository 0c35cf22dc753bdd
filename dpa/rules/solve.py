"""C17 the solver's protocol, C19 what solve() sends and returns.

The Solver is interpreted with recording models of the optimal control framework: every call the framework may refuse is one
free condition, so all combinations of refusals are in one value graph.
"""
from .. import terms as T
from ..interp import Abort, Ch, Lst, M, Obj, Opq, Ptr, units
from ..models import lst_from, tvo, vec
from ..report import Res
from ..solverlib import tv_get
from ..world import Broken
from . import settings as SE
from .solver import Built, NPTS
from .utils import NS, ats, fill, show

A = T.atom
FEET = ("Left", "Right")


class Sol:
    """a Solver, its inputs and its outputs"""

    def __init__(self, P, res, prepare=True, opts=None, fallible=False, before=None, again=None):
        self.P, self.res = P, res
        self.prepare = prepare
        if prepare:
            self.b = Built(P, SE.COMPL["Dynamical"], SE.PLANAR["Tanh"], opts=opts, fallible=fallible, before=before, again=again)
        else:
            self.b = Bare(P, opts, fallible)
        self.I, self.w = self.b.I, self.b.w
        self.so = self.b.so
        self.n = self.w.robot.n
        self.mark = len(self.I.events)

    def call(self, name, *args):
        self.where = self.b.place(name)
        self.res.site("Solver::" + name)
        return self.I.rd(self.w.call(self.so, name, list(args)))

    def news(self, *what):
        ev = [e for e in self.I.events[self.mark:] if e["kind"] == "ocp" and (not what or e["what"] in what)]
        return ev

    def step(self):
        self.mark = len(self.I.events)

    def state(self, name, n=None, k=NPTS, kr=None):
        o = self.w.ctor(NS + "State", [self.n if n is None else n, k])
        fill(self.I, o, name, 0, 0)
        if kr is not None:
            l = o.d["rightContactPointsState"]
            self.I.assign(l, lst_from(self.I, [self.I.own(l.d[i]) for i in range(kr)]))
        return o

    def control(self, name, n=None, k=NPTS):
        o = self.w.ctor(NS + "Control", [self.n if n is None else n, k])
        fill(self.I, o, name, 0, 0)
        return o

    def flat(self, v):
        v = self.I.rd(v)
        if isinstance(v, Ch):
            a, b = self.flat(v.a), self.flat(v.b)
            if len(a) != len(b):
                raise Abort("size depends on a condition")
            return [T.ite(v.c, x, y) for x, y in zip(a, b)]
        return list(self.I.m_arr(v).ravel()) if isinstance(v, M) else [v]

    def points(self, o, foot, what):
        l = self.I.rd(o.d[foot.lower() + ("ContactPointsControl" if what.endswith("Control") else "ContactPointsState")])
        return [self.flat(self.I.rd(l.d[i]).d[what]) for i in range(l.d["#n"])]

    def parts(self, o, kind):
        """label -> values of a state or control"""
        out = {}
        names = (("ForcePoint", "pointForce"), ("PositionPoint", "pointPosition")) if kind == "S" else \
            (("ForceControlPoint", "pointForceControl"), ("VelocityControlPoint", "pointVelocityControl"))
        for f in FEET:
            for lab, fld in names:
                for i, v in enumerate(self.points(o, f, fld)):
                    out["%s%s%d" % (f, lab, i)] = v
        fs = (("Momentum", "momentumInCoM"), ("CoMPosition", "comPosition"), ("JointsPosition", "jointsConfiguration")) if kind == "S" else \
            (("BaseLinearVelocity", "baseLinearVelocity"), ("BaseQuaternionDerivative", "baseQuaternionDerivative"), ("JointsVelocity", "jointsVelocity"))
        for lab, fld in fs:
            out[lab] = self.flat(o.d[fld])
        return out

    def packed(self, key, vals, o, kind, text):
        """vals is the vector of o in the layout of the problem"""
        res, I = self.res, self.I
        want = self.parts(o, kind)
        off = self.b.w.off
        total = self.b.w.ns if kind == "S" else self.b.w.nc
        if len(vals) != total:
            res.bad(key + " size", self.where, "%s has %d entries instead of %d" % (text, len(vals), total))
            return
        if kind == "S":
            tr = o.d["worldToBaseTransform"]
            want["BasePosition"] = self.flat(self.I.rd(tr).d["p"])
            R = self.I.m_arr(self.I.rd(self.I.rd(tr).d["R"]))
            s, k = off["BaseQuaternion"]
            q = vals[s:s + k]
            # the packed quaternion represents the rotation
            for (i, j), v in rotq(q).items():
                r = T.equal(v, R[i, j])
                res.decide(r, key + " BaseQuaternion", self.where, "%s: the orientation entry (%d,%d) of the packed quaternion is %s" % (text, i, j, show(v)))
        seen = 0
        for lab, v in want.items():
            s, k = off[lab]
            seen += k
            if len(v) != k:
                res.bad(key + " " + lab, self.where, "%s: %s has %d values, room for %d" % (text, lab, len(v), k))
                continue
            for i in range(k):
                r = T.equal(vals[s + i], v[i])
                res.decide(r, "%s %s" % (key, lab), self.where, "%s: %s[%d] is %s instead of %s" % (text, lab, i, show(vals[s + i]), show(v[i])))


class Bare:
    """a Solver nothing was asked of"""

    def __init__(self, P, opts, fallible):
        from .. import ideal, kin
        from ..world import World
        self.P = P
        R = kin.Robot()
        w = self.w = World(P, npts=NPTS, robot=R)
        I = self.I = w.I
        ideal.install(w, ())
        I.opt.update(opts or {})
        if fallible:
            I.opt["fallible"] = True
        I.hooks[NS + "Settings::isValid"] = lambda I, th, a, n, c: I.opt.get("settings_valid", True)
        self.so = w.ctor(NS + "Solver", [])
        self.st = I.construct_default(NS + "Settings")

    place = Built.place


def rotq(q):
    w, x, y, z = q
    m = T.mul
    n2 = T.add(T.add(m(w, w), m(x, x)), T.add(m(y, y), m(z, z)))

    def d(v):
        return T.div(v, n2)
    return {(0, 0): d(T.sub(T.add(m(w, w), m(x, x)), T.add(m(y, y), m(z, z)))), (0, 1): d(m(2, T.sub(m(x, y), m(w, z)))), (0, 2): d(m(2, T.add(m(x, z), m(w, y)))),
            (1, 0): d(m(2, T.add(m(x, y), m(w, z)))), (1, 1): d(T.sub(T.add(m(w, w), m(y, y)), T.add(m(x, x), m(z, z)))), (1, 2): d(m(2, T.sub(m(y, z), m(w, x)))),
            (2, 0): d(m(2, T.sub(m(x, z), m(w, y)))), (2, 1): d(m(2, T.add(m(y, z), m(w, x)))), (2, 2): d(T.sub(T.add(m(w, w), m(z, z)), T.add(m(x, x), m(y, y))))}


def solution(nt=3, nu=2):
    """hooks: the framework reports symbolic instants and vectors"""
    def timings(I, o, a, put=None):
        I.assign(a[0], lst_from(I, [A("time of state %d.%d" % (I.opt.get("run", 0), i)) for i in range(nt)]))
        I.assign(a[1], lst_from(I, [A("time of control %d.%d" % (I.opt.get("run", 0), i)) for i in range(nu)]))

    def sol(I, o, a):
        k = I.opt.get("run", 0)
        ns, nc = I.opt["sizes"]
        I.assign(a[0], lst_from(I, [vec(I, ats("state %d.%d" % (k, i), ns), "dyn") for i in range(nt)]))
        I.assign(a[1], lst_from(I, [vec(I, ats("control %d.%d" % (k, i), nc), "dyn") for i in range(nu)]))
    return {"mss_getTimings": timings, "mss_getSolution": sol}


def outputs(s, ns=1, nc=1):
    I = s.I
    return (lst_from(I, [s.state("old state %d" % i) for i in range(ns)]), lst_from(I, [s.control("old control %d" % i) for i in range(nc)]))


def expect(s, key, got, want, text):
    got = s.I.rd(got)
    if got is want:
        s.res.good()
    elif T.isn(got) or isinstance(got, bool):
        s.res.bad(key, s.where, "%s: %s" % (text, show(got)))
    else:
        s.res.undecided(key)


# ---------------------------------------------------------------- C19
def exchange(P, tier):
    res = Res()
    s = Sol(P, res, opts=solution())
    I, w = s.I, s.w
    I.opt["sizes"] = (w.ns, w.nc)
    x0 = s.state("x0")
    s.step()
    expect(s, "setInitialState accepted", s.call("setInitialState", x0), True, "an initial state of the right size is refused")
    run(s, 0, x0, "default")
    # a second run: the framework continues from its previous solution
    I.opt["run"] = 1
    x1 = s.state("x1")
    expect(s, "setInitialState accepted", s.call("setInitialState", x1), True, "an initial state of the right size is refused")
    run(s, 1, x1, None)
    # guesses supplied by the caller are used once
    I.opt["run"] = 2
    g = guesses(s, "g")
    expect(s, "setGuesses accepted", s.call("setGuesses", *[Ptr(x) for x in g[:2]]), True, "guesses are refused")
    run(s, 2, x1, g)
    I.opt["run"] = 3
    run(s, 3, x1, None)
    return res


def respecified(P, tier, k):
    """new settings after a solve with others: nothing of the old problem is left"""
    def used(b):
        I, w = b.I, b.w
        I.opt["sizes"] = (w.ns, w.nc)
        I.opt["run"] = 7
        x = lst_from(I, [])
        u = lst_from(I, [])
        r = I.rd(w.call(b.so, "solve", [x, u]))
        if r is not True:
            raise Abort("the first problem is not solved")
        I.opt["run"] = 0
    res = Res()
    s = Sol(P, res, opts=solution(), again=(SE.COMPL["Secant"], SE.PLANAR["Classical"], k, used))
    I, w = s.I, s.w
    I.opt["sizes"] = (w.ns, w.nc)
    x0 = s.state("x0")
    expect(s, "setInitialState accepted", s.call("setInitialState", x0), True, "an initial state of the right size is refused")
    run(s, 0, x0, "default")
    I.opt["run"] = 1
    run(s, 1, x0, None)
    return res


def guesses(s, name):
    I = s.I
    box = {}
    x, u = s.state(name + ".x"), s.control(name + ".u")
    box["x"], box["u"] = x, u
    return tvo(I, name + " states", lambda I, t: I.copy(x)), tvo(I, name + " controls", lambda I, t: I.copy(u)), x, u


def run(s, k, x0, guess):
    I, res, w = s.I, s.res, s.w
    text = "run %d" % k
    s.step()
    X, U = outputs(s)
    ok = s.call("solve", X, U)
    expect(s, "solve succeeds", ok, True, "nothing was refused but solve() says")
    order = [e["what"] for e in s.news()]
    ev = {e["what"]: e for e in s.news()}
    for n in ("setInitialState", "setTimeHorizon", "solve", "getTimings", "getSolution"):
        if order.count(n) != 1:
            res.bad("calls of " + n, s.where, "%s: %s is called %d times" % (text, n, order.count(n)))
            return
        if ev[n]["guard"] is not True:
            res.undecided("condition of " + n)
    if order.index("solve") > min(order.index("getTimings"), order.index("getSolution")) or order.index("solve") < max(
            order.index(n) for n in ("setInitialState", "setTimeHorizon")):
        res.bad("order of calls", s.where, "%s: %s" % (text, ", ".join(order)))
    else:
        res.good()
    s.packed("initial state", s.flat(ev["setInitialState"]["args"][0]), x0, "S", "the initial state handed over")
    t0 = I.rd(x0.d["time"])
    h = ev["setTimeHorizon"]["args"]
    for i, v in enumerate((t0, T.add(t0, A("s:horizon") if "horizon" not in SQ() else T.mul(A("s:horizon"), A("s:horizon"))))):
        res.decide(T.equal(I.rd(h[i]), v), "horizon", s.where, "%s: %s of the horizon is %s instead of %s" % (text, ("start", "end")[i], show(I.rd(h[i])), show(v)))
    if guess is None:
        if "setGuesses" in order:
            res.bad("guesses", s.where, "%s: a guess replaces the previous solution" % text)
        else:
            res.good()
    else:
        if order.count("setGuesses") != 1 or order.index("setGuesses") > order.index("solve"):
            res.bad("guesses", s.where, "%s: guesses are handed over %d times" % (text, order.count("setGuesses")))
        else:
            a = ev["setGuesses"]["args"]
            t = A("instant")
            if guess == "default":
                zero = s.control("zero")
                wx, wu = x0, None
            else:
                wx, wu = guess[2], guess[3]
            for kind, p, wo in (("S", a[0], wx), ("C", a[1], wu)):
                v, okv = tv_get(I, p, t)
                need = True
                if guess != "default":
                    need = T.batom("valid(%s)" % guess[0 if kind == "S" else 1].info[0])
                    v = None if v is None else [T.subst(x, {need: True}) if T.isn(x) else x for x in v]
                if v is None:
                    res.bad("guesses", s.where, "%s: the guess handed over is empty" % text)
                    continue
                if okv is need or (T.isn(okv) and T.kleene(okv, {need: True}) is True and T.kleene(okv, {need: False}) is False):
                    res.good()
                else:
                    res.bad("guess validity", s.where, "%s: the guess is valid when %s" % (text, show(okv)))
                if wo is None:
                    for i, y in enumerate(v):
                        res.decide(T.equal(y, 0), "default control guess", s.where, "entry %d is %s" % (i, show(y)))
                else:
                    s.packed("guess", v, wo, kind, "the guess")
    off = w.off
    sv = [ats("state %d.%d" % (k, i), w.ns) for i in range(3)]
    cv = [ats("control %d.%d" % (k, i), w.nc) for i in range(2)]
    acc = {"S": s.I.rd(w.call(s.so, "optimalStates", [])), "C": s.I.rd(w.call(s.so, "optimalControls", []))}
    for kind, L, vs in (("S", X, sv), ("C", U, cv)):
        L = I.rd(L)
        what = "state" if kind == "S" else "control"
        for where, lst in (("returned ", L), ("stored ", acc[kind])):
            if not isinstance(lst, Lst) or lst.d["#n"] != len(vs):
                res.bad(where + what + "s", s.where, "%s: %s %ss for %d instants" % (text, getattr(lst, "d", {}).get("#n"), what, len(vs)))
                continue
            for i, v in enumerate(vs):
                o = I.rd(lst.d[i])
                s.packed(where + what, quat(v, off) if kind == "S" else v, o, kind, "%s%s %d" % (where, what, i))
                tt = A("time of %s %d.%d" % (what, k, i))
                res.decide(T.equal(I.rd(o.d["time"]), tt), where + what + " time", s.where, "time of %s %d is %s" % (what, i, show(I.rd(o.d["time"]))))


def quat(v, off):
    return v


def SQ():
    from .solver import SQUARED
    return SQUARED


def wrong_guesses(P, tier, kind):
    """guesses of the wrong size or not available are reported as such"""
    res = Res()
    s = Sol(P, res, opts=solution())
    I, w = s.I, s.w
    I.opt["sizes"] = (w.ns, w.nc)
    n = s.n
    cases = [("joints", n + 1, NPTS), ("joints", n - 1, NPTS), ("points", n, NPTS + 1), ("points", n, NPTS - 1)]
    for text, nn, kk in cases:
        x, u = s.state("x"), s.control("u")
        if kind == "S":
            x = s.state("x", nn, kk)
        else:
            u = s.control("u", nn, kk)
        s.call("setGuesses", Ptr(tvo(I, "X", lambda I, t: I.copy(x))), Ptr(tvo(I, "U", lambda I, t: I.copy(u))))
        s.step()
        X, U = outputs(s)
        s.call("solve", X, U)
        ev = s.news("setGuesses")
        if len(ev) != 1:
            res.bad("guesses", s.where, "guesses are handed over %d times" % len(ev))
            continue
        for nm, p, bad in (("state", ev[0]["args"][0], kind == "S"), ("control", ev[0]["args"][1], kind == "C")):
            v, ok = tv_get(I, p, A("instant"))
            if bad:
                expect(s, "wrong %s guess %s" % (nm, text), ok if not T.isn(ok) else {False: False}.get(T.kleene(ok, {T.batom("valid(X)"): True, T.batom("valid(U)"): True}), ok),
                       False, "a %s guess with the wrong number of %s counts as valid" % (nm, text))
    return res


# ---------------------------------------------------------------- C17
def unchanged(s, key, L, stem, kind):
    """the caller's vector is what it was"""
    I, res = s.I, s.res
    L = I.rd(L)
    if not isinstance(L, Lst) or L.d["#n"] != 1:
        res.bad(key, s.where, "the output vector is resized")
        return
    o = I.rd(L.d[0])
    ref = (s.state if kind == "S" else s.control)("old %s 0" % ("state" if kind == "S" else "control"))
    p, q = s.parts(o, kind), s.parts(ref, kind)
    for lab in q:
        for x, y in zip(p[lab], q[lab]):
            res.decide(T.equal(x, y), key, s.where, "the output %s is overwritten (%s)" % ("state" if kind == "S" else "control", lab))


def unprepared(P, tier, how):
    """before settings were accepted"""
    res = Res()
    s = Sol(P, res, prepare=False, opts=solution())
    I = s.I
    if how == "invalid":
        I.opt["settings_valid"] = False
        expect(s, "invalid settings", s.call("specifySettings", s.b.st), False, "settings that are not valid are accepted")
    X, U = outputs(s)
    s.step()
    expect(s, "solve unprepared", s.call("solve", X, U), False, "solve() without settings returns")
    unchanged(s, "outputs unprepared", X, "old", "S")
    unchanged(s, "outputs unprepared", U, "old", "C")
    expect(s, "setInitialState unprepared", s.call("setInitialState", s.state("x")), False, "setInitialState() without settings returns")
    g = guesses(s, "g")
    expect(s, "setGuesses unprepared", s.call("setGuesses", Ptr(g[0]), Ptr(g[1])), False, "setGuesses() without settings returns")
    bad = [e for e in s.news() if e["what"] != "new"]
    if bad:
        res.bad("requests unprepared", s.where, "%s is requested from the framework" % bad[0]["what"])
    else:
        res.good()
    from ..models import NULL
    expect(s, "null optimizer", s.call("setOptimizer", NULL), False, "an empty optimizer is accepted:")
    expect(s, "null integrator", s.call("setIntegrator", NULL), False, "an empty integrator is accepted:")
    expect(s, "optimizer", s.call("setOptimizer", Ptr(Opq("ext", "optimizer"))), True, "an optimizer is refused:")
    expect(s, "integrator", s.call("setIntegrator", Ptr(Opq("ext", "integrator"))), True, "an integrator is refused:")
    return res


def refused_inputs(P, tier):
    """after settings were accepted: wrong sizes and empty pointers change nothing"""
    from ..models import NULL
    res = Res()
    s = Sol(P, res, opts=solution())
    I, w = s.I, s.w
    I.opt["sizes"] = (w.ns, w.nc)
    x0 = s.state("x0")
    s.call("setInitialState", x0)
    g = guesses(s, "g")
    s.call("setGuesses", Ptr(g[0]), Ptr(g[1]))
    h = guesses(s, "h")
    for text, o in (("joint more", s.state("y", s.n + 1)), ("joint less", s.state("y", s.n - 1)), ("point more", s.state("y", None, NPTS + 1)),
                    ("point less", s.state("y", None, NPTS - 1)), ("point less on one foot", s.state("y", None, NPTS, NPTS - 1)),
                    ("point more than fits an empty state", s.state("y", 0, 0))):
        expect(s, "initial state one " + text, s.call("setInitialState", o), False, "an initial state with one %s is accepted:" % text)
    expect(s, "null state guesses", s.call("setGuesses", NULL, Ptr(h[1])), False, "empty state guesses are accepted:")
    expect(s, "null control guesses", s.call("setGuesses", Ptr(h[0]), NULL), False, "empty control guesses are accepted:")
    expect(s, "null optimizer", s.call("setOptimizer", NULL), False, "an empty optimizer is accepted:")
    expect(s, "null integrator", s.call("setIntegrator", NULL), False, "an empty integrator is accepted:")
    if [e for e in s.news() if e["what"] != "new"]:
        res.bad("requests for refused inputs", s.where, "a refused input reaches the framework")
    run(s, 0, x0, g)
    for n, nm in (("setOptimizer", "optimizer"), ("setIntegrator", "integrator")):
        s.step()
        expect(s, nm, s.call(n, Ptr(Opq("ext", nm))), True, "an %s is refused:" % nm)
        ev = s.news(n)
        if len(ev) == 1 and isinstance(I.rd(ev[0]["args"][0]), Ptr) and getattr(I.rd(ev[0]["args"][0]).t, "info", None) == nm:
            res.good()
        else:
            res.bad(n, s.where, "the %s does not reach the framework" % nm)
    # settings that are not valid leave the solver as it was
    I.opt["settings_valid"] = False
    s.step()
    expect(s, "invalid settings", s.call("specifySettings", s.b.st), False, "settings that are not valid are accepted:")
    if [e for e in s.news()]:
        res.bad("requests for invalid settings", s.where, "settings that are not valid change the problem")
    I.opt["settings_valid"] = True
    I.opt["run"] = 1
    run(s, 1, x0, None)
    return res


def failures(P, tier, where):
    """any refusal of the framework makes the request fail, and a failed solve() leaves the outputs alone"""
    res = Res()
    if where == "specifySettings":
        b = Built(P, SE.COMPL["Dynamical"], SE.PLANAR["Tanh"], fallible=True)
        I = b.I
        judge(res, I, b.where, b.ret, [e for e in I.events if e["kind"] == "ocp"], "specifySettings")
        return res
    o = solution(1, 1)
    # as many instants as possible were announced, so nothing is empty when an answer is ignored
    o["mss_getPossibleTimings"] = lambda I, o, a: [I.assign(I.rd(x), lst_from(I, [float(i) for i in range(1)])) for x in a]
    s = Sol(P, res, opts=o)
    I, w = s.I, s.w
    I.opt["sizes"] = (w.ns, w.nc)
    I.opt["fallible"] = True
    if where == "solve":
        for guess in (False, True):
            if guess:
                g = guesses(s, "g")
                s.call("setGuesses", Ptr(g[0]), Ptr(g[1]))
            s.step()
            X, U = outputs(s)
            try:
                r = s.call("solve", X, U)
            except Abort:
                if not wild(s):
                    raise
                return res
            ev = s.news()
            judge(res, I, s.where, r, ev, "solve")
            X, U = I.rd(X), I.rd(U)
            for e in ev:
                if not T.isn(e["ok"]):
                    continue
                for L, kind in ((X, "S"), (U, "C")):
                    what = "state" if kind == "S" else "control"
                    if not isinstance(L, Lst) or L.d["#n"] != 1:
                        res.undecided("output after " + e["what"])
                        continue
                    o = I.rd(L.d[0])
                    ref = (s.state if kind == "S" else s.control)("old %s 0" % what)
                    p, q = s.parts(o, kind), s.parts(ref, kind)
                    for lab in q:
                        for x, y in zip(p[lab], q[lab]):
                            x = T.subst(x, {e["ok"]: False}) if T.isn(x) else x
                            x = T.subst(x, {e["ok"]: False}) if T.isn(x) else x
                            res.decide(T.equal_if(T.subst(e["guard"], {e["ok"]: False}) if T.isn(e["guard"]) else True, x, y), "outputs after a failed " + e["what"], s.where,
                                       "%s of the output %s is %s when %s fails" % (lab, what, show(x), e["what"]))
        return res
    s.step()
    nm = "optimizer" if where == "setOptimizer" else "integrator"
    r = s.call(where, Ptr(Opq("ext", nm)))
    judge(res, I, s.where, r, s.news(), where)
    return res


def wild(s):
    """the analysis stopped at an access outside a container that is reached after a refusal"""
    I = s.I
    last = [e for e in I.events[s.mark:] if e["kind"] == "oob"][-1:]
    hit = False
    for e in s.news() if last and I.events[-1] is last[0] else ():
        if T.isn(e["ok"]) and T.isn(last[0]["guard"]) and T.kleene(last[0]["guard"], {e["ok"]: False}) is not False:
            hit = True
            s.res.bad("solve goes on after a failed " + e["what"], s.where, "after %s was refused, %s is accessed at %s" % (e["what"], last[0]["what"], last[0]["at"]))
    return hit


def judge(res, I, where, ret, ev, name):
    ret = I.rd(ret)
    n = 0
    for e in ev:
        if not T.isn(e["ok"]):
            continue
        n += 1
        g = e["guard"]
        # requested and refused: the result cannot be success
        env = T.literals(g) if T.isn(g) else {}
        env[e["ok"]] = False
        units(env, dict(env))
        v = T.kleene(ret, env) if T.isn(ret) else ret
        key = "%s ignores a failed %s" % (name, e["what"])
        if v is False:
            res.good()
            res.site("%s: %s" % (name, e["what"]))
            continue
        # success must at least be possible for this to be a violation: the result does not depend on the refusal
        rr = T.subst(ret, {e["ok"]: False}) if T.isn(ret) else ret
        m = {x: True for x in T.atoms_of(rr) if x.op == "batom" and x.args[0].startswith("ok")} if T.isn(rr) else {}
        m.pop(e["ok"], None)
        rr = T.subst(rr, m) if m else rr
        m[e["ok"]] = False
        gg = T.subst(g, m) if T.isn(g) else g
        if T.land(gg, rr) is False:
            res.undecided(key)
        else:
            res.bad(key, where, "%s() succeeds although %s was refused (%s)" % (name, e["what"], show(rr)))
    if not n:
        res.bad(name, where, "%s() asks nothing of the framework" % name)


def tasks(P, pid, tier):
    if pid == "C17":
        return [(unprepared, ("new",)), (unprepared, ("invalid",)), (refused_inputs, ())] + [
            (failures, (x,)) for x in ("specifySettings", "solve", "setOptimizer", "setIntegrator")]
    if pid == "C19":
        return [(exchange, ()), (respecified, (3,)), (respecified, (4,)), (wrong_guesses, ("S",)), (wrong_guesses, ("C",))]
    return []
