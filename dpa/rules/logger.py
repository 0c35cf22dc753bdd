"""C18: what the Logger writes to the file.

The Logger is interpreted with a recording model of matio-cpp: every write is an event holding the variable written, whose
elements are value graphs over the states, controls and settings handed in.
"""
import functools

import re

from .. import matiolib
from .. import terms as T
from ..interp import Abort, It, Lst, M, MapV, Obj, Ptr, Wild
from ..kin import Robot
from ..models import lst_from
from ..report import Res
from ..world import Broken
from . import settings as SE
from .utils import NS, U, fill

EXTRA = ["Logger"]
MC = matiolib.MC
# fields of the settings that have no counterpart in a file: references given as functions of time, and time ranges
FUNCTIONS = ("shared_ptr", "TimeRange")


def guard(f):
    @functools.wraps(f)
    def g(P, tier, *a):
        res = Res()
        try:
            f(P, tier, res, *a)
        except (Abort, Wild) as x:
            res.stopped("%s%r" % (f.__name__, a), getattr(x, "_at", "?"), x)
        return res
    return g


class L(U):
    def __init__(self, P, res, n):
        super().__init__(P, res)
        self.n = n

    def mk(self, cls, name, k):
        """an element with k = (left, right) contact points"""
        o = self.w.ctor(NS + cls, [self.n, max(k)])
        fill(self.I, o, name, 0, 0)
        for f, i in zip(("left", "right"), k):
            l = self.I.rd(o.d[f + "ContactPoints" + cls])
            for j in range(i, max(k)):
                del l.d[j]
            l.d["#n"] = i
        return o

    def save(self, sett, states, controls, times, costs):
        I = self.I
        f = self.P.find(NS + "Logger::saveSolutionVectorsToFile")
        if not f:
            raise Broken("Logger::saveSolutionVectorsToFile")
        self.where = "%s:%s" % (f[0].file, f[0].line)
        self.res.site("Logger::saveSolutionVectorsToFile")
        self.mark = len(I.events)
        I.call_fn(f[0], None, ["the.mat", sett, lst_from(I, states), lst_from(I, controls), lst_from(I, times), lst_from(I, costs)])
        return self.written()

    def written(self):
        out = []
        for e in self.I.events[self.mark:]:
            if e["kind"] != "matio" or e["what"] == "create":
                continue
            if e["what"] == "write":
                out.append((e, e["var"]))
                continue
            c = e["begin"].cont if isinstance(e["begin"], It) else None
            if not isinstance(c, (MapV, Lst)):
                raise Abort("range of variables written")
            ks = [k for k in c.d if not str(k).startswith("#")]
            for k in ks:
                out.append((e, self.I.rd(c.d[k])))
        return out


@guard
def vectors(P, tier, res, n, k, ns, nc, nt, nv):
    u = L(P, res, n)
    I = u.I
    sett = SE.S(P, I, Robot()).o
    k = k if isinstance(k, tuple) else (k, k)
    ss = [u.mk("State", "s%d" % i, k) for i in range(ns)]
    cs = [u.mk("Control", "c%d" % i, k) for i in range(nc)]
    ts = [T.atom("t%d" % i) for i in range(nt)]
    vs = [T.atom("v%d" % i) for i in range(nv)]
    ws = u.save(sett, ss, cs, ts, vs)
    d = lambda o, f: u.flat(o.d[f])
    want = {}

    def add(name, cols):
        want[name] = cols

    if ns:
        for f, m in zip(("left", "right"), k):
            for i in range(m):
                pts = [I.rd(s.d[f + "ContactPointsState"]).d[i] for s in ss]
                add("%sPoint%dForce" % (f, i), [d(I.rd(p), "pointForce") for p in pts])
                add("%sPoint%dPosition" % (f, i), [d(I.rd(p), "pointPosition") for p in pts])
        add("momentumInCoM", [d(s, "momentumInCoM") for s in ss])
        add("comPosition", [d(s, "comPosition") for s in ss])
        add("basePosition", [u.flat(I.rd(s.d["worldToBaseTransform"]).d["p"]) for s in ss])
        add("baseQuaternion", None)
        add("jointsConfiguraion", [d(s, "jointsConfiguration") for s in ss])
        add("stateTime", [d(s, "time") for s in ss])
    if nc:
        for f, m in zip(("left", "right"), k):
            for i in range(m):
                pts = [I.rd(s.d[f + "ContactPointsControl"]).d[i] for s in cs]
                add("%sPoint%dForceControl" % (f, i), [d(I.rd(p), "pointForceControl") for p in pts])
                add("%sPoint%dVelocityControl" % (f, i), [d(I.rd(p), "pointVelocityControl") for p in pts])
        add("baseLinearVelocity", [d(s, "baseLinearVelocity") for s in cs])
        add("baseQuaternionDerivative", [d(s, "baseQuaternionDerivative") for s in cs])
        add("jointsVelocity", [d(s, "jointsVelocity") for s in cs])
        add("controlTime", [d(s, "time") for s in cs])
    if nt:
        add("computationalTime", [[t] for t in ts])
    if nv:
        add("costValue", [[t] for t in vs])
    got = {}
    for e, v in ws:
        if not isinstance(v, Obj):
            raise Abort("variable written")
        if v.cls != MC + "MultiDimensionalArray":
            continue
        res.decide(v.d["name"] not in got, "once", e["at"], "%s is written twice" % v.d["name"])
        res.decide(T.equal(e["guard"], True), "written", e["at"], "%s is written under a condition" % v.d["name"])
        got[v.d["name"]] = (e, v)
    for nm, cols in want.items():
        if nm == "jointsConfiguraion" and nm not in got:
            nm = "jointsConfiguration"
        if nm not in got:
            res.bad("missing." + nm, u.where, "%s is not written" % nm)
            continue
        e, v = got.pop(nm)
        rows, m = v.d["r"], v.d["c"]
        if cols is None:
            cols = quaternions(u, ss)
        if rows != len(cols[0]) or m != len(cols):
            res.bad("size." + nm, e["at"], "%s is %dx%d instead of %dx%d" % (nm, rows, m, len(cols[0]), len(cols)))
            continue
        for j, col in enumerate(cols):
            u.eq("value." + nm, [I.rd(v.d["buf"].d[i + j * rows]) for i in range(rows)], col, "%s, instant %d" % (nm, j))
    for nm, (e, v) in got.items():
        if nm in ALLNAMES or re.fullmatch(r"(left|right)Point\d+(Force|Position)(Control)?|(left|right)Point\d+VelocityControl", str(nm)):
            res.bad("empty." + nm, e["at"], "%s is written although none were given" % nm)


ALLNAMES = ("momentumInCoM", "comPosition", "basePosition", "baseQuaternion", "jointsConfiguraion", "stateTime", "baseLinearVelocity",
            "baseQuaternionDerivative", "jointsVelocity", "controlTime", "computationalTime", "costValue")


def quaternions(u, ss):
    out = []
    for s in ss:
        R = u.I.rd(u.I.rd(s.d["worldToBaseTransform"]).d["R"])
        out.append(u.flat(R.quat) if R.quat is not None and isinstance(R.quat, M) else list(R.quat))
    return out


@guard
def fields(P, tier, res, comp, plan):
    u = L(P, res, 2)
    I = u.I
    s = SE.S(P, I, Robot(), {"complementarity": comp, "planarComplementarity": plan,
                             **{f["n"]: "name of " + f["n"] for f in P.records[SE.SS]["fields"] if "basic_string" in f["t"] or f["t"] in ("std::string", "string")}})
    ws = u.save(s.o, [], [], [], [])
    st = [(e, v) for e, v in ws if isinstance(v, Obj) and v.cls == MC + "Struct" and v.d["name"] == "settings"]
    if len(st) != 1:
        res.bad("settings", u.where, "the settings are written %d times" % len(st))
        return
    e, v = st[0]
    at = e["at"]
    l = v.d["fields"]
    got = {}
    for i in range(I.read(l, "#n")):
        x = I.rd(l.d[i])
        res.decide(x.d["name"] not in got, "settings.once", at, "two fields are called %s" % x.d["name"])
        got[x.d["name"]] = x
    u.where = at
    for f in P.records[SE.SS]["fields"]:
        n, t = f["n"], f["t"]
        if any(x in t or x in f.get("lt", "") for x in FUNCTIONS):
            continue
        key = "settings." + n
        if n not in got:
            res.bad(key, at, "the field %s is not written" % n)
            continue
        x = got[n]
        w = I.rd(s.o.d[n])
        if t.endswith("Model"):
            continue
        if n in ("complementarity", "planarComplementarity"):
            nm = (COMP if n[0] == "c" else PLAN)[w]
            res.decide(x.d["value"] == nm, key, at, "%s is written as %s instead of %s" % (n, x.d["value"], nm))
        elif isinstance(w, str):
            res.decide(x.d["value"] == w, key, at, "%s is written as %s" % (n, x.d["value"]))
        elif isinstance(w, Lst):
            elems(u, key, n, w, x)
        elif isinstance(w, M):
            u.eq(key, x.d["value"], u.flat(w), n)
        else:
            u.eq(key, [x.d["value"]], [w], n)


def elems(u, key, n, w, x):
    I, res = u.I, u.res
    k = w.d["#n"]
    y = x.d["value"]
    if not isinstance(y, Lst) or I.read(y, "#n") != k:
        res.bad(key, u.where, "%s has %s elements instead of %d" % (n, I.read(y, "#n") if isinstance(y, Lst) else "no", k))
        return
    if x.cls == MC + "CellArray":
        res.decide(x.d["dims"] == [k, 1], key, u.where, "%s has the dimensions %s" % (n, x.d["dims"]))
    for i in range(k):
        a, b = I.rd(w.d[i]), I.rd(y.d[i])
        if isinstance(a, M):
            u.eq(key, b.d["value"], u.flat(a), "%s, element %d" % (n, i))
        elif isinstance(a, Obj):       # limits
            fs = {}
            for j in range(I.read(b.d["fields"], "#n")):
                z = I.rd(b.d["fields"].d[j])
                fs[z.d["name"]] = z.d["value"]
            for m, c in (("min", "first"), ("max", "second")):
                if m not in fs:
                    res.bad(key, u.where, "%s, element %d: no %s" % (n, i, m))
                else:
                    u.eq(key, [fs[m]], [I.rd(a.d[c])], "%s of %s, element %d" % (m, n, i))
        else:
            u.eq(key, [b], [a], "%s, element %d" % (n, i))


COMP = {0: "HyperbolicSecantInequality", 1: "Dynamical", 2: "Classical", 3: "HyperbolicSecantInDynamics"}
PLAN = {0: "HyperbolicTangentInDynamics", 1: "HyperbolicTangentInequality", 2: "Classical"}


def tasks(P, pid, tier):
    out = [(vectors, a) for a in ((3, 2, 3, 3, 2, 2), (2, (1, 2), 2, 2, 0, 0), (2, (3, 2), 2, 2, 0, 0), (2, 1, 1, 2, 1, 3), (3, 4, 2, 1, 0, 0), (3, 2, 0, 2, 0, 1), (3, 2, 2, 0, 3, 0), (0, 0, 1, 1, 0, 0), (2, 2, 0, 0, 0, 0))]
    return out + [(fields, (c, p)) for c in range(4) for p in range(3) if c == 0 or p == 0]
