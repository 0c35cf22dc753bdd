"""Recording model of the drawing library the Visualizer drives, of the clock it waits on and of the commands it runs.

Nothing is drawn or executed: a scene is kept (model pose, vectors, camera, label), and every picture, image file and shell
command is an event holding what the scene contained and the condition under which it happens.
"""
from . import terms as T
from .interp import ROOT, Abort, M, Obj, Ptr
from .models import CT_EXT, CTORS, DEFAULTS, MODELS, OBJCLS, model

ID = "iDynTree::"
VIZ = ID + "Visualizer"


def part(I, o, key, cls, **d):
    """a component owned by the visualizer, made on first use"""
    if key not in o.d:
        p = Obj(ID + cls, ROOT)
        p.d["#name"] = key
        p.d["#viz"] = o
        p.d.update(d)
        o.d[key] = p
    return o.d[key]


def viz_new(I, t, a):
    o = Obj(VIZ, I.guard)
    o.d["#models"] = 0
    I.event("viz", what="new", obj=o)
    return o


def options(I, *a):
    o = Obj(ID + "VisualizerOptions", I.guard)
    o.d = {"verbose": False, "winWidth": 800, "winHeight": 600, "rootFrameArrowsDimension": 1.0}
    return o


CT_EXT[VIZ] = viz_new
DEFAULTS[VIZ] = lambda I, cl, stem: viz_new(I, VIZ, [])
CTORS[ID + "VisualizerOptions"] = options
CT_EXT[ID + "VisualizerOptions"] = options
DEFAULTS[ID + "VisualizerOptions"] = options


def ev(I, what, **kw):
    return I.event("viz", what=what, **kw)


def keep(I, x):
    x = I.rd(x)
    if isinstance(x, M):
        return list(I.m_arr(x).ravel())
    if isinstance(x, Obj):
        return {k: keep(I, v) for k, v in x.d.items() if isinstance(v, M)}
    return x


def scene(I, o):
    """what a picture taken here shows"""
    s = {}
    m = o.d.get("model")
    if m is not None:
        s["pose"] = I.read(m, "#pose") if "#pose" in m.d else None
    v = o.d.get("vectors")
    s["vectors"] = []
    if v is not None:
        n = I.read(v, "#nv")
        if not isinstance(n, int):
            raise Abort("number of vectors shown")
        s["vectors"] = [I.read(v, "v%d" % i) for i in range(n)]
    s["camera"] = camera_of(I, o)
    s["label"] = {k: I.read(x, "#visible") if "#visible" in x.d else None for k, x in o.d.items() if k.startswith("label:")}
    return s


def camera_of(I, o):
    c = o.d.get("camera")
    return {k: I.read(c, k) if c is not None and k in c.d else None for k in ("#pos", "#target")}


def viz_call(I, o, a, n, c):
    nm = c.n
    if nm == "init":
        return True
    if nm == "getNrOfVisualizedModels":
        return I.read(o, "#models")
    if nm == "addModel":
        ok = T.batom("model accepted") if I.opt.get("viz_fallible") else True
        ev(I, "addModel", model=a[0], name=I.rd(a[1]), ok=ok)
        k = I.read(o, "#models")
        I.write(o, "#models", T.add(k, 1) if ok is True else T.ite(ok, T.add(k, 1), k))
        return ok
    if nm == "modelViz":
        k = I.rd(a[0])
        if k not in (0, "DynamicalPlannerVisualizer"):
            raise Abort("model instance %r" % (k,))
        return part(I, o, "model", "IModelVisualization")
    if nm == "camera":
        return part(I, o, "camera", "ICamera")
    if nm in ("environment", "enviroment"):
        return part(I, o, "environment", "IEnvironment")
    if nm == "vectors":
        return part(I, o, "vectors", "IVectorsVisualization", **{"#nv": 0})
    if nm == "textures":
        return part(I, o, "textures", "ITexturesHandler")
    if nm == "getLabel":
        return part(I, o, "label:" + I.rd(a[0]), "ILabel")
    if nm in ("width", "height"):
        return T.atom("window." + nm)
    if nm in ("run", "isWindowActive"):
        return True
    if nm in ("draw", "subDraw"):
        ev(I, nm, args=[I.rd(x) for x in a], scene=scene(I, o))
        return None
    if nm == "drawToFile":
        ev(I, "window file", name=I.rd(a[0]))
        return True
    if nm == "close":
        return None
    return NotImplemented


OBJCLS[VIZ] = viz_call


def camera(I, o, a, n, c):
    if c.n in ("setPosition", "setTarget"):
        I.write(o, "#pos" if c.n == "setPosition" else "#target", pack(I, a[0]))
        return None
    return NotImplemented


OBJCLS[ID + "ICamera"] = camera


def pack(I, x):
    """a value kept by the library, independent of what the caller does with the argument later"""
    x = I.rd(x)
    return I.copy(x) if isinstance(x, (M, Obj)) else x


def vectors(I, o, a, n, c):
    if c.n == "getNrOfVectors":
        return I.read(o, "#nv")
    if c.n in ("addVector", "updateVector"):
        if len(a) != (2 if c.n == "addVector" else 3):
            raise Abort("vector by direction and modulus")
        if c.n == "addVector":
            k = I.read(o, "#nv")
            if not isinstance(k, int):
                raise Abort("number of vectors shown")
        else:
            k = I.rd(a[0])
            if not isinstance(k, int):
                raise Abort("index of a vector")
            a = a[1:]
            if "v%d" % k not in o.d:
                return False
        v = Obj("#vector", I.guard)
        v.d["origin"], v.d["force"] = pack(I, a[0]), pack(I, a[1])
        I.write(o, "v%d" % k, v, init="v%d" % k not in o.d)
        if c.n == "addVector":
            I.write(o, "#nv", k + 1)
            return k
        return True
    if c.n == "setVectorsAspect":
        return True
    return NotImplemented


OBJCLS[ID + "IVectorsVisualization"] = vectors


def model_viz(I, o, a, n, c):
    if c.n == "setPositions":
        v = Obj("#pose", I.guard)
        v.d["base"], v.d["joints"] = pack(I, a[0]), pack(I, a[1])
        I.write(o, "#pose", v, init="#pose" not in o.d)
        return True
    return NotImplemented


OBJCLS[ID + "IModelVisualization"] = model_viz


def textures(I, o, a, n, c):
    if c.n in ("add", "get"):
        return Ptr(part(I, o.d["#viz"], "texture:" + I.rd(a[0]), "ITexture"))
    return NotImplemented


OBJCLS[ID + "ITexturesHandler"] = textures


def texture(I, o, a, n, c):
    if c.n == "environment":
        return part(I, o, "environment", "IEnvironment")
    if c.n in ("width", "height"):
        return T.atom("texture." + c.n)
    if c.n == "setSubDrawArea":
        ev(I, "area", args=[I.rd(x) for x in a])
        return True
    if c.n == "drawToFile":
        ev(I, "file", name=I.rd(a[0]))
        return True
    if c.n == "enableDraw":
        return None
    return NotImplemented


OBJCLS[ID + "ITexture"] = texture


def environment(I, o, a, n, c):
    if c.n == "lightViz":
        return part(I, o, "light:" + I.rd(a[0]), "ILight")
    if c.n == "setElementVisibility":
        ev(I, "element", where=o.d["#viz"].d.get("#name", "window"), name=I.rd(a[0]), on=I.rd(a[1]))
        return True
    return NotImplemented


OBJCLS[ID + "IEnvironment"] = environment


def light(I, o, a, n, c):
    if c.n == "setDirection":
        e = o.d["#viz"]
        ev(I, "light", where=e.d["#viz"].d.get("#name", "window"), name=o.d["#name"], dir=keep(I, a[0]))
        return None
    return NotImplemented


OBJCLS[ID + "ILight"] = light


def label(I, o, a, n, c):
    if c.n == "setVisible":
        I.write(o, "#visible", I.rd(a[0]) if a else True)
        return None
    if c.n in ("setText", "setPosition", "setSize", "setColor"):
        return None
    return NotImplemented


OBJCLS[ID + "ILabel"] = label


# ------------------------------------------------------------------ clock and commands

@model("system", "std::system")
def m_system(I, th, a, n, c):
    ev(I, "command", cmd=I.rd(a[0]))
    return 0


def now(I, th, a, n, c):
    I.opt["nclock"] = I.opt.get("nclock", 0) + 1
    return T.atom("clock%d" % I.opt["nclock"])


for _n in ("std::chrono::steady_clock::now", "std::chrono::_V2::steady_clock::now", "std::chrono::system_clock::now", "std::chrono::_V2::system_clock::now"):
    MODELS[_n] = now


def plain(I, th, a, n, c):
    return I.rd(a[0])


@model("std::chrono::operator-")
def minus(I, th, a, n, c):
    return T.sub(I.rd(a[0]), I.rd(a[1]))


@model("std::chrono::operator<")
def less(I, th, a, n, c):
    return T.lt(I.rd(a[0]), I.rd(a[1]))


MODELS["std::chrono::duration_cast"] = plain


def number(I, e, c, cls):
    a = I.args(e, c)
    return I.rd(a[0]) if a else 0


CTORS["std::chrono::duration"] = number
CTORS["std::chrono::time_point"] = number
