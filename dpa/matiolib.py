"""Recording model of matio-cpp: variables keep their name and content, writing one is an event."""
from .interp import Abort, Buf, LRef, Lst, M, Obj, Ptr
from .models import CT_EXT, CTORS, DEFAULTS, OBJCLS, lst_from, model
from .program import strip_targs

MC = "matioCpp::"


def var(I, cls, name):
    o = Obj(MC + cls, I.guard)
    o.d["name"] = name
    return o


def value(I, x):
    x = I.rd(x)
    return I.copy(x) if isinstance(x, (M, Obj, Lst)) else x


def c_array(I, name, dims):
    o = var(I, "MultiDimensionalArray", name)
    n = [I.rd(dims.d[i]) for i in range(dims.d["#n"])] if isinstance(dims, Lst) else [0, 0]
    if len(n) != 2 or not all(isinstance(x, int) for x in n):
        raise Abort("array of dimensions %r" % (n,))
    b = Buf(I.guard)
    for i in range(n[0] * n[1]):
        b.d[i] = I.uninit("%s[%d,%d]" % (name, i % max(1, n[0]), i // max(1, n[0])))
    o.d["buf"], o.d["r"], o.d["c"] = b, n[0], n[1]
    return o


def make(I, cls, args):
    a = [I.rd(x) for x in args]
    k = strip_targs(cls).split("::")[-1]
    if k == "MultiDimensionalArray":
        return c_array(I, a[0] if a else "unnamed_multidimensional_array", a[1] if a else None)
    if k == "Logical":
        return a[0]
    o = var(I, k, a[0] if a else "")
    if k in ("Element", "String", "Vector"):
        o.d["value"] = value(I, a[1])
    elif k == "CellArray":
        o.d["value"] = value(I, a[2])
        o.d["dims"] = [I.rd(a[1].d[i]) for i in range(a[1].d["#n"])]
    elif k == "Struct":
        o.d["fields"] = lst_from(I, [])
        o.d["fields"].fresh = False
    elif k == "File":
        pass
    elif k != "Variable":
        raise Abort("matio " + cls)
    return o


def c_make(I, e, c, cls):
    return make(I, cls, I.args(e, c))


for _k in ("MultiDimensionalArray", "Logical", "Element", "String", "Vector", "CellArray", "Struct", "Variable", "File"):
    CTORS[MC + _k] = c_make
    CT_EXT[MC + _k] = lambda I, t, a: make(I, t, a)
    DEFAULTS[MC + _k] = lambda I, cl, stem: make(I, cl, [])


def m_array(I, o, a, n, c):
    if c.n == "data":
        return Ptr(LRef(o.d["buf"], 0))
    if c.n == "dimensions":
        return lst_from(I, [o.d["r"], o.d["c"]])
    if c.n == "operator()":
        l = I.rd(a[0])
        k = [I.rd(l.d[i]) for i in range(l.d["#n"])]
        if len(k) != 2 or not all(isinstance(x, int) for x in k):
            raise Abort("element %r" % (k,))
        if not (0 <= k[0] < o.d["r"] and 0 <= k[1] < o.d["c"]):
            I.wild("oob", "element %s of %s, which is %d x %d" % (k, o.d["name"], o.d["r"], o.d["c"]), "array index")
        return LRef(o.d["buf"], k[0] + k[1] * o.d["r"])
    if c.n == "name":
        return o.d["name"]
    return NotImplemented


OBJCLS[MC + "MultiDimensionalArray"] = m_array


def m_struct(I, o, a, n, c):
    if c.n == "setField":
        l = o.d["fields"]
        k = I.read(l, "#n")
        if not isinstance(k, int):
            raise Abort("field set under a condition")
        v = value(I, a[0])
        for i in range(k):          # a field of the same name is replaced
            if l.d[i].d["name"] == v.d["name"]:
                I.write(l, i, v)
                return True
        I.write(l, k, v, init=True)
        I.write(l, "#n", k + 1)
        return True
    return NotImplemented


OBJCLS[MC + "Struct"] = m_struct


@model(MC + "File::Create")
def create(I, th, a, n, c):
    o = var(I, "File", I.rd(a[0]))
    I.event("matio", what="create", name=I.rd(a[0]))
    return o


def m_file(I, o, a, n, c):
    if c.n == "write":
        if len(a) == 1:
            I.event("matio", what="write", file=o.d["name"], var=value(I, a[0]))
            return True
        p, q = I.rd(a[0]), I.rd(a[1])
        I.event("matio", what="write all", file=o.d["name"], begin=p, end=q)
        return True
    return NotImplemented


OBJCLS[MC + "File"] = m_file


def assignable(f):
    def g(I, o, a, n, c):
        if c.n == "operator=":
            s = I.copy(I.rd(a[0]))
            for k, v in s.d.items():
                I.write(o, k, v, init=k not in o.d)
            return o
        if c.n == "name":
            return I.read(o, "name")
        return f(I, o, a, n, c)
    return g


for _k in ("MultiDimensionalArray", "Element", "String", "Vector", "CellArray", "Struct", "Variable"):
    OBJCLS[MC + _k] = assignable(OBJCLS.get(MC + _k, lambda I, o, a, n, c: NotImplemented))
