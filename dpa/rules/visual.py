"""C13: the pictures the Visualizer takes.

The Visualizer is interpreted with a recording model of the drawing library: every picture is an event holding the scene it
shows and the condition under which it is taken, so that one value graph covers every end time and every time stamp.
"""
import functools
import re

from .. import terms as T
from .. import vizlib
from ..interp import Abort, Ch, M, Obj, Opq, Wild
from ..models import lst_from, vec
from ..report import Res
from ..world import Broken
from .utils import NS, U, ats, fill, show

A = T.atom
CLS = NS + "Visualizer"
N = 3       # joints


class V(U):
    def __init__(self, P, res, load=True):
        super().__init__(P, res)
        I = self.I
        I.opt["tokens"] = {}
        I.opt["all_inputs"] = True
        I.opt["unroll"] = 64
        self.v = self.w.ctor(CLS, [])
        if load:
            if I.rd(self.w.call(self.v, "setModel", [Obj("iDynTree::Model", I.guard)])) is not True:
                raise Broken("Visualizer::setModel refuses a first model")
        self.mark = len(I.events)

    def state(self, name, k):
        o = self.w.ctor(NS + "State", [N, k])
        fill(self.I, o, name, 0, 0)
        return o

    def states(self, n, k, stem="s"):
        return [self.state("%s%d" % (stem, i), k) for i in range(n)]

    def lst(self, xs):
        return lst_from(self.I, xs)

    def events(self, *what):
        return [e for e in self.I.events[self.mark:] if e["kind"] == "viz" and e["what"] in what]

    def go(self, name, args, pick=None):
        self.mark = len(self.I.events)
        fs = [f for f in self.P.method(CLS, name) if len(f.params) == len(args)]
        if not fs:
            raise Broken("%s::%s" % (CLS, name))
        self.where = "%s:%s" % (fs[0].file, fs[0].line)
        self.res.site("Visualizer::" + name)
        return self.I.rd(self.I.call_fn(fs[0], self.v, args))

    def pick(self, x, f, cond):
        """numbers of a recorded value that may depend on conditions"""
        x = self.I.rd(x)
        if isinstance(x, Ch):
            if T.equal_if(cond, x.c, True):
                return self.pick(x.a, f, cond)
            if T.equal_if(cond, x.c, False):
                return self.pick(x.b, f, cond)
            return [T.ite(x.c, a, b) for a, b in zip(self.pick(x.a, f, cond), self.pick(x.b, f, cond))]
        return f(x)

    def nums(self, x, cond=True):
        def f(o):
            if isinstance(o, M):
                return list(self.I.m_arr(o).ravel())
            if isinstance(o, Obj):
                return [y for k in sorted(o.d) if not k.startswith("#") for y in self.nums(o.d[k], cond)]
            return [o]
        return self.pick(x, f, cond)

    def shows(self, key, e, s, k, text):
        """the scene of a picture is state s"""
        sc, g = e["scene"], e["guard"]
        if sc.get("pose") is None:
            self.res.bad(key, e["at"], text + ": the model has not been posed")
            return
        self.where = e["at"]
        self.eq(key + ".pose", self.nums(sc["pose"], g), self.nums(s.d["worldToBaseTransform"]) + self.nums(s.d["jointsConfiguration"]),
                text + ": pose of the model", g)
        want = []
        for foot in ("left", "right"):
            l = self.I.rd(s.d[foot + "ContactPointsState"])
            for i in range(l.d["#n"]):
                p = self.I.rd(l.d[i])
                want.append((foot, i, self.nums(p.d["pointPosition"]), self.nums(p.d["pointForce"])))
        got = sc["vectors"]
        if len(got) != len(want):
            self.res.bad(key + ".vectors", e["at"], "%s: %d vectors shown instead of %d" % (text, len(got), len(want)))
            return
        for (foot, i, p, f), v in zip(want, got):
            self.eq(key + ".vector", self.nums(v, g), f + p, "%s: %s point %d (force, position)" % (text, foot, i), g)

    def when(self, key, e, cond, text):
        self.res.decide(T.equal(e["guard"], cond), key, e["at"], "%s under %s instead of %s" % (text, show(e["guard"]), show(cond)))

    def camera(self):
        return vizlib.camera_of(self.I, self.I.rd(self.v.d["m_pimpl"]).t.d["viz"])

    def pos(self, name):
        return vec(self.I, ats(name, 3))


def flat(v, x):
    return v.nums(x)


def guard(f):
    @functools.wraps(f)
    def g(P, tier, *a):
        res = Res()
        try:
            f(P, tier, res, *a)
        except (Abort, Wild) as x:
            res.stopped("%s%r" % (f.__name__, a), getattr(x, "_at", "?"), x)
        return res

    return g


def calls(v, n, k):
    """every drawing entry point with valid arguments"""
    I = v.I
    ss = v.states(n, k)
    cam = lambda nm: Opq("fn", lambda I2, a: v.pos(nm), I.guard)
    return [("visualizeState", [ss[0]]), ("visualizeStates", [v.lst(ss), -1.0]),
            ("visualizeStates", [v.lst(ss), v.lst([v.pos("cp%d" % i) for i in range(n)]), v.lst([v.pos("ct%d" % i) for i in range(n)]), -1.0]),
            ("visualizeStatesAndSaveAnimation", [v.lst(ss), "dir", "name", "gif", -1.0]),
            ("visualizeMPCStatesAndSaveAnimation", [v.lst(ss), cam("a"), v.lst([v.lst(v.states(2, k, "f"))]), cam("b"), "dir", "name", "gif", 1.0, -1.0])]


DRAW = ("draw", "subDraw", "file", "window file", "command")


@guard
def model(P, tier, res):
    """no model, no picture; one model only; a refused model is not there"""
    v = V(P, res, load=False)
    for name, args in calls(v, 2, 1):
        r = v.go(name, args)
        key = "no model.%s/%d" % (name, len(args))
        res.decide(T.equal(r, False), key, v.where, "%s returns %s before a model is loaded" % (name, show(r)))
        ev = v.events(*DRAW)
        res.decide(not ev, key, v.where, "%s draws before a model is loaded" % name)
    v.I.opt["viz_fallible"] = True
    r = v.go("setModel", [Obj("iDynTree::Model", v.I.guard)])
    ok = T.batom("model accepted")
    res.decide(T.equal(r, ok), "setModel", v.where, "setModel returns %s when the library answers %s" % (show(r), show(ok)))
    v.I.opt["viz_fallible"] = False
    v2 = V(P, res)
    r = v2.go("setModel", [Obj("iDynTree::Model", v2.I.guard)])
    res.decide(T.equal(r, False), "second model", v2.where, "a second model is answered %s" % show(r))
    res.decide(not v2.events("addModel"), "second model", v2.where, "a second model is added")
    r = v2.go("visualizeState", [v2.state("s", 1)])
    res.decide(T.equal(r, True), "after a second model", v2.where, "visualizeState returns %s" % show(r))


@guard
def single(P, tier, res, k):
    """a state, then another one"""
    v = V(P, res)
    for s in v.states(3, k):
        r = v.go("visualizeState", [s])
        res.decide(T.equal(r, True), "visualizeState", v.where, "returns %s" % show(r))
        d = v.events("draw")
        if len(d) != 1:
            res.bad("visualizeState", v.where, "%d pictures drawn for one state" % len(d))
            continue
        v.when("visualizeState", d[0], True, "drawn")
        v.shows("visualizeState", d[0], s, k, "a state")


def limit(ss, v, i, end):
    """condition under which states 0..i are within the end time"""
    c = True
    for s in ss[:i + 1]:
        c = T.land(c, T.le(v.I.rd(s.d["time"]), end))
    return c


def ends(tier):
    return ("none", "positive")


def end_of(kind):
    """an end time of the kind, and the condition the analysis may assume about it"""
    if kind == "none":
        return T.neg(T.f1("exp", A("log end time"))), True
    return T.f1("exp", A("log end time")), True


@guard
def sequence(P, tier, res, n, k, kind, cameras):
    v = V(P, res)
    end, _ = end_of(kind)
    ss = v.states(n, k)
    args = [v.lst(ss)]
    home = [A("home%d" % i) for i in range(6)]
    w = v.w
    w.call(v.v, "setCameraPosition", [vec(v.I, home[:3])])
    w.call(v.v, "setCameraTarget", [vec(v.I, home[3:])])
    if cameras:
        cp, ct = [v.pos("cp%d" % i) for i in range(n)], [v.pos("ct%d" % i) for i in range(n)]
        args += [v.lst(cp), v.lst(ct)]
    args.append(end)
    r = v.go("visualizeStates", args)
    key = "visualizeStates" + (" with cameras" if cameras else "")
    res.decide(T.equal(r, True), key, v.where, "returns %s" % show(r))
    d = v.events("draw")
    if len(d) != n:
        res.bad(key, v.where, "%d pictures for %d states" % (len(d), n))
        return
    for i, (s, e) in enumerate(zip(ss, d)):
        v.when(key, e, limit(ss, v, i, end) if kind != "none" else True, "state %d of %d is drawn" % (i, n))
        v.shows(key, e, s, k, "state %d of %d" % (i, n))
        want = flat(v, cp[i]) + flat(v, ct[i]) if cameras else home
        cam = e["scene"]["camera"]
        v.where = e["at"]
        v.eq(key + ".camera", v.nums(cam["#pos"], e["guard"]) + v.nums(cam["#target"], e["guard"]), want, "camera of state %d" % i, e["guard"])
    cam = v.camera()
    v.eq(key + ".restored", v.nums(cam["#pos"]) + v.nums(cam["#target"]), home, "camera afterwards")


@guard
def mismatch(P, tier, res):
    """lists of camera positions of other lengths are refused"""
    for n, p, t in ((2, 1, 2), (2, 2, 1), (2, 3, 2), (2, 2, 3), (0, 1, 0), (0, 0, 1)):
        v = V(P, res)
        r = v.go("visualizeStates", [v.lst(v.states(n, 1)), v.lst([v.pos("cp%d" % i) for i in range(p)]), v.lst([v.pos("ct%d" % i) for i in range(t)]), -1.0])
        key = "camera lists %d/%d for %d states" % (p, t, n)
        res.decide(T.equal(r, False), key, v.where, "returns %s" % show(r))
        res.decide(not v.events(*DRAW), key, v.where, "draws")


@guard
def saved(P, tier, res, n, k, kind, ext):
    v = V(P, res)
    end, _ = end_of(kind)
    ss = v.states(n, k)
    r = v.go("visualizeStatesAndSaveAnimation", [v.lst(ss), "some/dir", "clip", ext, end])
    key = "visualizeStatesAndSaveAnimation"
    res.decide(T.equal(r, True), key, v.where, "returns %s" % show(r))
    d, fl, cm = v.events("draw"), v.events("file", "window file"), v.events("command")
    where = v.where
    if len(d) != n or len(fl) != n:
        res.bad(key, v.where, "%d pictures and %d images for %d states" % (len(d), len(fl), n))
        return
    order = [e["what"] for e in v.events("draw", "file", "window file")]
    res.decide(order == ["draw", "file"] * n, key + ".order", v.where, "not one image per picture: %s" % order[:6])
    digits = width(fl, n)
    conds = [limit(ss, v, i, end) if kind != "none" else True for i in range(n)]
    for i, s in enumerate(ss):
        for e in (d[i], fl[i]):
            v.when(key, e, conds[i], "state %d of %d is %s" % (i, n, "drawn" if e is d[i] else "saved"))
        v.shows(key, d[i], s, k, "state %d of %d" % (i, n))
        want = "some/dir/clip_img_%0*d.png" % (digits, i)
        res.decide(fl[i]["name"] == want if isinstance(fl[i]["name"], str) else None, key + ".name", fl[i]["at"], "image %d is called %s instead of %s" % (i, fl[i]["name"], want))
    if n == 0:
        res.decide(not cm, key + ".command", v.where, "a video of no image is made")
        return
    if len(cm) != 1:
        res.bad(key + ".command", v.where, "%d videos made" % len(cm))
        return
    v.when(key + ".command", cm[0], conds[0], "the video is made")
    command(v, res, key, cm[0], digits, ext)
    # frames per second: images over the time of the last one, rounded
    want = 0
    for i in range(n):
        want = T.ite(conds[i], T.div(i + 1, v.I.rd(ss[i].d["time"])), want)
    rate(v, res, key, cm[0], want, where)


def width(files, n):
    """digits of the numbers in the names of n images: those of the first, if they are enough"""
    t = re.fullmatch(r"some/dir/clip_img_(\d+)\.png", files[0]["name"]) if files and isinstance(files[0]["name"], str) else None
    need = len(str(max(n - 1, 0)))
    return max(need, len(t.group(1))) if t else need


def command(v, res, key, e, digits, ext):
    if not isinstance(e["cmd"], str):
        res.decide(None, key + ".command", e["at"], "text of the command")
        return
    words = e["cmd"].split()
    arg = lambda f: words[words.index(f) + 1] if f in words[:-1] else None
    for what, got, want in (("program", words[:1], ["ffmpeg"]), ("images", arg("-i"), "some/dir/clip_img_%%0%dd.png" % digits),
                            ("result", words[-1:], ["some/dir/clip." + ext])):
        res.decide(got == want, "%s.%s" % (key, what), e["at"], "the %s of the command is %s instead of %s" % (what, got, want))
    res.decide("-y" in words, key + ".overwrite", e["at"], "the command would ask before overwriting")
    if ext == "mp4":
        res.decide(arg("-pix_fmt") == "yuv420p", key + ".pixels", e["at"], "pixel format %s" % arg("-pix_fmt"))


def rate(v, res, key, e, want, where):
    if not isinstance(e["cmd"], str):
        return
    words = e["cmd"].split()
    t = words[words.index("-framerate") + 1] if "-framerate" in words[:-1] else None
    got = v.I.opt["tokens"].get(t)
    if got is None:
        res.bad(key + ".rate", e["at"], "frame rate %s" % t)
        return
    v.where = where
    w = T.f1("round", want)
    v.eq(key + ".rate", [got], [w], "frames per second", e["guard"])


@guard
def mpc(P, tier, res, n, m, f, k, kind, ext="gif"):
    """n executed states, m plans of f states"""
    v = V(P, res)
    end, _ = end_of(kind)
    I = v.I
    home = [A("home%d" % i) for i in range(6)]
    v.w.call(v.v, "setCameraPosition", [vec(I, home[:3])])
    v.w.call(v.v, "setCameraTarget", [vec(I, home[3:])])
    ss = v.states(n, k)
    plans = [v.states(f[j] if isinstance(f, tuple) else f, k, "plan%d." % j) for j in range(m)]

    def cam(nm):
        def look(I2, a):
            s = I2.rd(a[0])
            p = v.nums(s.d["comPosition"]) if isinstance(s, Obj) else v.pick(s, lambda o: v.nums(o.d["comPosition"]), I2.path())
            return vec(I2, [T.add(A("%s[%d]" % (nm, i)), p[i]) for i in range(3)])
        return Opq("fn", look, I.guard)

    where = lambda nm, s: [T.add(A("%s[%d]" % (nm, i)), x) for i, x in enumerate(v.nums(s.d["comPosition"]))]
    r = v.go("visualizeMPCStatesAndSaveAnimation", [v.lst(ss), cam("ca"), v.lst([v.lst(p) for p in plans]), cam("cb"), "some/dir", "clip", ext, A("speed"), end])
    key = "visualizeMPCStatesAndSaveAnimation"
    if n == 0 or m == 0:
        res.decide(T.equal(r, True), key, v.where, "returns %s for nothing to show" % show(r))
        res.decide(not v.events(*DRAW), key, v.where, "draws")
        return
    if n < m or (0 in f if isinstance(f, tuple) else f == 0):
        res.decide(T.equal(r, False), key, v.where, "returns %s with %s" % (show(r), "fewer states than plans" if n < m else "a plan without states"))
        res.decide(not v.events(*DRAW), key, v.where, "draws")
        return
    res.decide(T.equal(r, True), key, v.where, "returns %s" % show(r))
    inc = (n - 1) // m
    # what each picture shows: executed state, planned state, camera state
    seq, si, last, c = [], 1, ss[0], True
    for j in range(m):
        if kind != "none":
            c = T.land(c, T.le(I.rd(ss[si].d["time"]), end))
        for x in plans[j]:
            seq.append((c, last, x, last))
        for _ in range(inc):
            seq.append((c, ss[si], plans[j][-1], last))
            last = ss[si]
            si += 1
    d, sub, fl, ar, cm = v.events("draw"), v.events("subDraw"), v.events("file", "window file"), v.events("area"), v.events("command")
    if not len(d) == len(fl) == len(seq) or not len(sub) == len(ar) == 2 * len(seq):
        res.bad(key, v.where, "%d pictures, %d halves and %d images instead of %d" % (len(d), len(sub), len(fl), len(seq)))
        return
    order = [e["what"] for e in v.events("draw", "subDraw", "file", "window file", "area")]
    res.decide(order == ["area", "subDraw", "area", "subDraw", "draw", "file"] * len(seq), key + ".order", v.where, "order of the drawing calls: %s" % order[:8])
    digits = width(fl, len(seq))
    for i, (c, a, b, look) in enumerate(seq):
        for e in (sub[2 * i], sub[2 * i + 1], d[i], fl[i]):
            v.when(key, e, c, "picture %d" % i)
        v.shows(key + ".left", sub[2 * i], a, k, "left half of picture %d" % i)
        v.shows(key + ".right", sub[2 * i + 1], b, k, "right half of picture %d" % i)
        for e, nm in ((sub[2 * i], "ca"), (sub[2 * i + 1], "cb")):
            v.where = e["at"]
            v.eq(key + ".camera", v.nums(e["scene"]["camera"]["#pos"], e["guard"]), where(nm, look), "camera of picture %d" % i, e["guard"])
        for e, kind2 in ((sub[2 * i], "window"), (ar[2 * i], "texture"), (sub[2 * i + 1], "window"), (ar[2 * i + 1], "texture")):
            W, H = A(kind2 + ".width"), A(kind2 + ".height")
            half = T.idiv(W, 2)
            x0 = 0 if e is sub[2 * i] or e is ar[2 * i] else half
            v.where = e["at"]
            v.eq(key + ".half", e["args"], [x0, 0, half, H], "area of picture %d" % i, e["guard"])
        mt = re.fullmatch(r"some/dir/clip_img_(\d+)\.png", fl[i]["name"] if isinstance(fl[i]["name"], str) else "?")
        res.decide(None if not isinstance(fl[i]["name"], str) else bool(mt) and int(mt.group(1)) == i and len(mt.group(1)) == digits, key + ".name", fl[i]["at"],
                   "image %d of %d is called %s" % (i, len(seq), fl[i]["name"]))
    if len(cm) != 1:
        res.bad(key + ".command", v.where, "%d videos made" % len(cm))
        return
    command(v, res, key, cm[0], digits, ext)
    camn = v.camera()
    v.eq(key + ".restored", v.nums(camn["#pos"]) + v.nums(camn["#target"]), home, "camera afterwards")


@guard
def scenery(P, tier, res):
    """camera, light and world frame reach the window and the images"""
    v = V(P, res)
    r = v.go("setLightDirection", [vec(v.I, ats("dir", 3))])
    res.decide(T.equal(r, True), "setLightDirection", v.where, "returns %s" % show(r))
    ev = v.events("light")
    for w in ("window", "texture:screenshotSaver"):
        e = [x for x in ev if x["where"] == w]
        if not e:
            res.bad("setLightDirection", v.where, "the light of the %s is left as it was" % w)
        else:
            v.eq("setLightDirection", e[-1]["dir"], ats("dir", 3), w)
    for on in (True, False):
        v.go("visualizeWorldFrame", [on])
        ev = v.events("element")
        for w in ("window", "texture:screenshotSaver"):
            e = [x for x in ev if x["where"] == w and x["name"] == "world_frame"]
            res.decide(bool(e) and e[-1]["on"] is on, "visualizeWorldFrame", v.where, "world frame of the %s when %s" % (w, on))
    for nm, key in (("setCameraPosition", "#pos"), ("setCameraTarget", "#target")):
        v.go(nm, [vec(v.I, ats(nm, 3))])
        cam = v.camera()
        v.eq(nm, v.nums(cam[key]), ats(nm, 3))


def tasks(P, pid, tier):
    out = [(model, ()), (mismatch, ()), (scenery, ())]
    out += [(single, (k,)) for k in (0, 1, 4)]
    for kind in ends(tier):
        out += [(sequence, (n, k, kind, c)) for n in (0, 1, 3) for k in (1, 2) for c in (False, True)]
        out += [(saved, (n, 1, kind, "gif")) for n in (0, 1, 3, 11)] + [(saved, (2, 2, kind, "mp4"))]
        out += [(mpc, (n, m, f, 1, kind)) for n, m, f in ((2, 1, 1), (3, 1, 2), (5, 2, 2), (7, 3, 2), (6, 2, 3), (3, 2, 2), (2, 2, 2), (7, 3, (1, 3, 2)))]
        out += [(mpc, (4, 3, 1, 2, kind, "mp4"))]
    out += [(mpc, (n, m, 2, 1, "none")) for n, m in ((0, 1), (1, 0), (1, 2))]
    out += [(mpc, (n, m, f, 1, kind)) for kind in ("none", "positive") for n, m, f in ((3, 1, 0), (5, 2, (0, 2)), (5, 2, (2, 0)), (7, 3, (1, 0, 2)))]
    return out
