"""C31: levi's operators.

Every operator of extern/levi is a class template; the instantiations listed in frontend.LEVI_INST are analysed as the compiler
sees them. The operands are levi expressions by contract (a value and its exact derivative); what is decided is that the
operator built on them has the declared shape, the value, the rows, columns and elements, and the derivative of the operation.
"""
import functools
import zlib

import numpy as np

from .. import frontend
from .. import models as MO
from .. import terms as T
from ..interp import Abort, Ch, LE, LVar, Lst, M, Obj, Wild
from ..report import Res
from ..world import Broken
from .utils import U

UNITS = ["levi"]
FIXED = {"S": (1, 1), "V3": (3, 1), "M3": (3, 3), "M34": (3, 4), "R3": (1, 3)}
PARTS = ("Row", "Col", "Element", "Block", "Cast")
CAT = ("ConstructorByRows", "ConstructorByCols", "Horzcat", "Vertcat")
BIN = ("Sum", "Subtraction", "Product", "Division", "MatrixProductDerivative")


def guard(f):
    @functools.wraps(f)
    def g(P, tier, *a):
        res = Res()
        try:
            f(P, tier, res, *a)
        except (Abort, Wild) as x:
            res.stopped("%s%r" % (f.__name__, a), getattr(x, "_at", "?"), x)
        return res
    return g


def shapes(op, kinds, tier):
    """shapes of the operands"""
    k = kinds
    fx = [FIXED.get(x) for x in k]
    dyn = [s for s in ((2, 3), (3, 1), (1, 1), (3, 2)) if s != (1, 1) or tier == "thorough"]
    if op in ("Sum", "Subtraction"):
        for s in ([fx[0] or fx[1]] if any(fx) else [(2, 3), (1, 1), (3, 2)]):
            yield s, s
    elif op == "Product":
        if all(fx):
            yield fx[0], fx[1]
        elif k[0] == "S":
            for s in ((2, 3), (1, 1), (3, 1)):
                yield fx[0], s
        elif k[1] == "S":
            for s in ((2, 3), (1, 1), (1, 2)):
                yield s, fx[1]
        else:
            for a in (((2, 3), (3, 2)), ((2, 2), (2, 1)), ((1, 3), (3, 1))):
                yield a
    elif op == "MatrixProductDerivative":
        if all(fx):
            yield fx[0], fx[1]
        else:
            yield (2, 3), (3, 1)
            yield (1, 2), (2, 1)
            yield (2, 1), (1, 1)
    elif op == "Division":
        for s in ([fx[0]] if fx[0] else [(2, 3), (3, 1), (1, 1)]):
            yield s, (1, 1)
    elif op in ("ConstructorByRows", "ConstructorByCols"):
        row = op.endswith("Rows")
        for w in ([fx[0]] if fx[0] else [(1, 3), (1, 2)] if row else [(3, 1), (2, 1)]):
            yield w, w
    elif op == "Horzcat":
        if any(fx):
            yield fx[0], fx[1]
        else:
            for w in (((2, 3), (2, 2)), ((3, 1), (3, 2)), ((1, 1), (1, 2))):
                yield w
    elif op == "Vertcat":
        if k == ["X", "X"]:
            for w in (((2, 3), (1, 3)), ((3, 1), (2, 1)), ((1, 2), (2, 2))):
                yield w
        else:
            yield fx[0], fx[1] or (2, 1)
    elif op == "Cast":
        f = fx[0] if fx[0] else fx[1]
        for w in [f] if f else [(2, 3), (3, 1)]:
            yield (w,)
    elif op in PARTS and k[0] == "V":
        for w in ((3, 1), (2, 1)):
            yield (w,)
    elif op == "Skew":
        yield ((3, 1),)
    elif op == "Vee":
        yield ((3, 3),)
    elif op == "Pow":
        yield ((1, 1),)
    else:
        for s in ([fx[0]] if fx[0] else [(2, 3), (1, 3), (2, 1)]):
            yield (s,)


def operand(I, name, shape, v):
    """general expression of the variable: constants, linear and quadratic terms"""
    a = np.empty(shape, dtype=object)
    for i in range(shape[0]):
        for j in range(shape[1]):
            t = T.atom("%s_%d%d_k" % (name, i, j))
            if v is not None:
                for q, at in enumerate(v.atoms):
                    t = T.add(t, T.mul(T.atom("%s_%d%d_l%d" % (name, i, j, q)), at))
                t = T.add(t, T.mul(T.atom("%s_%d%d_q" % (name, i, j)), T.mul(v.atoms[0], v.atoms[-1])))
            a[i, j] = t
    return LE(a, [v] if v is not None else [], name)


def value(op, xs, extra):
    """what the operation denotes"""
    a = [x.a for x in xs]
    if op == "Sum":
        return MO.aadd(a[0], a[1])
    if op == "Subtraction":
        return MO.asub(a[0], a[1])
    if op == "SignInverted":
        return MO.aew(T.neg, a[0])
    if op == "Product":
        if extra[0] or extra[1]:
            return MO.ascale(a[1], a[0][0, 0]) if extra[0] else MO.ascale(a[0], a[1][0, 0])
        return MO.amul(a[0], a[1])
    if op == "Division":
        return MO.aew(lambda t: T.div(t, a[1][0, 0]), a[0])
    if op == "Pow":
        return MO.aew(lambda t: T.pw(t, extra), a[0])
    if op == "Skew":
        return MO.skew3(list(a[0].ravel()))
    if op == "Transpose":
        return a[0].T
    if op == "Vee":
        x = a[0]
        return np.array([[x[2, 1]], [x[0, 2]], [x[1, 0]]], dtype=object)
    if op == "MatrixProductDerivative":
        v = extra
        out = np.empty((a[0].shape[0], v.dim), dtype=object)
        for i in range(out.shape[0]):
            for j, at in enumerate(v.atoms):
                t = 0.0
                for q in range(a[0].shape[1]):
                    t = T.add(t, T.mul(T.diff(a[0][i, q], at), a[1][q, 0]))
                out[i, j] = t
        return out
    raise Broken(op)


def cuts(op, shape, kind, out):
    """the parts of an expression: (row, column, rows, columns, arguments)"""
    r, c = shape
    if op == "Row":
        return [(i, 0, 1, c, (i,)) for i in range(r)]
    if op == "Col":
        return [(0, j, r, 1, (j,)) for j in range(c)]
    if op == "Element":
        return [(i, j, 1, 1, (i, j)) for i in range(r) for j in range(c)]
    if op == "Cast":
        return [(0, 0, r, c, ())]
    if kind == "S":
        return [(0, 0, 1, 1, (0, 0, 1, 1))]
    sizes = [(2, 2)] if "2, 2" in out else [(1, 1), (2, 1), (1, 2), (2, 2), (r, c)]
    return [(i, j, a, b, (i, j, a, b)) for a, b in sizes for i in range(r - a + 1) for j in range(c - b + 1)]


def part(P, tier, res, op, kinds, cls, extra, which):
    ks = kinds.split()
    src = ks[-1]
    for sh in shapes(op, ks, tier):
        for cut in cuts(op, sh[0], src, extra):
            i, j, r, c, args = cut
            built(P, tier, res, op, "%s%s of %s %dx%d" % (op, "(%s)" % ", ".join(map(str, args)) if args else " to %s" % ks[0], src, sh[0][0], sh[0][1]), cls, sh, which,
                  lambda xs, I: list(xs[:1]) + list(args), lambda xs: xs[0].a[i:i + r, j:j + c])


def composed(P, tier, res, op, kinds, cls, extra, which):
    for sh in shapes(op, kinds.split(), tier):
        by = op.startswith("ConstructorBy")
        built(P, tier, res, op, "%s of %s %s (%s)" % (op, kinds, " ".join("%dx%d" % s for s in sh), " ".join(which)), cls, sh, which,
              lambda xs, I: [MO.lst_from(I, xs), "n"] if by else list(xs) + ["n"],
              lambda xs: np.concatenate([x.a for x in xs], axis=0 if op in ("ConstructorByRows", "Vertcat") else 1))


def derivative(col, v):
    out = np.empty((len(col), v.dim), dtype=object)
    for i, t in enumerate(col):
        for j, at in enumerate(v.atoms):
            d = T.diff(t, at) if T.isn(t) else 0.0
            out[i, j] = float(d) if T.num(d) else d
    return out


class L(U):
    def le(self, v):
        v = MO.lv_val(self.I, v)
        return MO.le(self.I, v)

    def same(self, key, text, got, want):
        """the expression got has the shape and the value want"""
        a = got.a if isinstance(got, LE) else got
        if a.shape != want.shape:
            if any(T.isn(t) and T.has_top(t) for t in a.flat):
                self.res.undecided(key + ": " + T.show(next(t for t in a.flat if T.isn(t) and T.has_top(t)), 3))
                return
            self.res.bad(key, self.where, "%s is %dx%d instead of %dx%d" % ((text,) + a.shape + want.shape))
            return
        self.eq(key, a, want, text)


def find(P, name, kinds, extra=""):
    want = canon(frontend.levi_class(name, kinds, extra))
    for c in P.records:
        if c.startswith(want.split("<")[0] + "<") and canon(c) == want:
            return c
    raise Broken(frontend.levi_class(name, kinds, extra))


def canon(t):
    for a, b in (("Eigen::MatrixXd", "Eigen::Matrix<double,-1,-1>"), ("Eigen::VectorXd", "Eigen::Matrix<double,-1,1>"), ("Eigen::Vector3d", "Eigen::Matrix<double,3,1>"),
                 ("Eigen::Matrix3d", "Eigen::Matrix<double,3,3>"), ("Eigen::Dynamic", "-1")):
        t = t.replace(a, b)
    return t.replace(" ", "").replace(",void", "")


def one(P, tier, res, op, kinds, cls, sh, which, exponent):
    made = {}

    def args(xs, I):
        out = list(xs)
        if op == "Pow":
            out.append(T.atom("p") if exponent is None else exponent)
        elif op in ("SignInverted", "Skew", "Transpose", "Vee"):
            out.append(0)
        elif op == "MatrixProductDerivative":
            out.append(made["X"])
        return out

    def want(xs):
        extra = None
        if op == "Product":
            extra = [k == "S" for k in kinds]
        elif op == "Pow":
            extra = T.atom("p") if exponent is None else exponent
        elif op == "MatrixProductDerivative":
            extra = made["X"]
        return value(op, xs, extra)

    label = "%s of %s" % (op, " and ".join("%s %dx%d(%s)" % (k, s[0], s[1], w) for k, s, w in zip(kinds, sh, which))) + (" to %s" % exponent if exponent is not None else "")
    built(P, tier, res, op, label, cls, sh, which, args, want, made)


def built(P, tier, res, op, label, cls, sh, which, arguments, meaning, made=None):
    """the operator cls constructed with arguments(operands, interpreter), against meaning(operands)"""
    u = L(P, res)
    I = u.I
    I.opt["levi_atoms"] = True
    X, Y = LVar("x", 3, I.guard), LVar("y", 2, I.guard)
    if made is not None:
        made["X"] = X
    xs = [operand(I, "ab"[q], s, {"x": X, "y": Y, "-": None}[which[q]]) for q, s in enumerate(sh)]
    args = arguments(xs, I)
    want = meaning(xs)
    fs = [f for f in P.methods(cls) if f.ctor == "other" and len(f.params) == len(args)]
    if not fs:
        raise Broken("constructor of " + cls)
    u.where = fs[0].where
    res.site("levi::%s" % op)
    o = I.construct(fs[0], cls, args)
    o.fresh = False
    shape = tuple(MO.lv_shape(I, o))
    res.decide(shape == want.shape, label + " shape", u.where, "%s is declared %dx%d instead of %dx%d" % ((label,) + shape + want.shape))
    vs = set()
    for x in xs:
        vs |= x.vars
    deps = o.d["#deps"]
    if op != "MatrixProductDerivative":
        res.decide(vs <= set(deps), label + " dependencies", u.where, "%s does not depend on the variables of its operands" % label)
    keep = [x.a for x in xs]
    # evaluated twice, the operands having changed in between
    for turn in (0, 1):
        if turn:
            for q, x in enumerate(xs):
                ats = set().union(*[T.atoms_of(t) for t in x.a.flat if T.isn(t)]) - set(X.atoms) - set(Y.atoms)
                m = {at: T.atom("w%d_%d" % (q, i)) for i, at in enumerate(sorted(ats, key=T.show))}
                memo = {}
                x.a = MO.aew(lambda t: T.subst(t, m, memo) if T.isn(t) else t, x.a)
        f = P.method(cls, "evaluate")[0]
        u.where = f.where
        v = I.rd(I.call_fn(f, o, []))
        got = np.array(I.m_arr(v), dtype=object, copy=True) if isinstance(v, M) else np.array([[v]], dtype=object)
        u.same(label + " value", label + ("" if not turn else ", evaluated again"), got, meaning(xs))
        if op == "MatrixProductDerivative":
            break
    for x, a in zip(xs, keep):
        x.a = a
    for w in (X, Y):
        if w not in vs or w not in deps:
            continue
        for col in range(want.shape[1]):
            f = P.method(cls, "getNewColumnDerivative")
            if not f:
                raise Broken("getNewColumnDerivative of " + cls)
            u.where = f[0].where
            d = u.le(I.call_fn(f[0], o, [col, w]))
            u.same(label + " derivative", "derivative of column %d of %s with respect to %s" % (col, label, w.name), d, derivative(want[:, col], w))
    for part, cells in (("row", [(i,) for i in range(want.shape[0])]), ("col", [(j,) for j in range(want.shape[1])]),
                        ("element", [(i, j) for i in range(want.shape[0]) for j in range(want.shape[1])])):
        fs = [f for f in P.methods(cls) if f.n == part]
        for c in cells if fs else []:
            u.where = fs[0].where
            e = u.le(I.call_fn(fs[0], o, list(c)))
            w = want[c[0]:c[0] + 1, :] if part == "row" else want[:, c[0]:c[0] + 1] if part == "col" else want[c[0]:c[0] + 1, c[1]:c[1] + 1]
            u.same(label + " " + part, "%s %s of %s" % (part, "(%s)" % ", ".join(map(str, c)), label), e, w)


@guard
def operator(P, tier, res, n, op, kinds, which, exponent=None):
    cls = find(P, op, kinds)
    for sh in shapes(op, kinds.split(), tier):
        one(P, tier, res, op, kinds.split(), cls, sh, which, exponent)


@guard
def accessor(P, tier, res, n, op, kinds, extra, which):
    cls = find(P, op, kinds, extra)
    (part if op in PARTS else composed)(P, tier, res, op, kinds, cls, extra, which)


def tasks(P, pid, tier):
    out = []
    for n, (op, kinds) in enumerate(frontend.LEVI_INST):
        two = op in BIN
        for which in ((("x", "x"), ("x", "y"), ("x", "-"), ("-", "x")) if two else (("x",),)):
            if op == "Pow":
                for e in (2.0, -1.0, 1.0, 0.5, 3.0):
                    out.append((operator, (n, op, kinds, which, e)))
            else:
                out.append((operator, (n, op, kinds, which)))
    for n, (op, kinds, extra) in enumerate(frontend.LEVI_PARTS):
        for which in ((("x", "x"), ("x", "y"), ("x", "-"), ("-", "x")) if op in CAT else (("x",),)):
            out.append((accessor, (n, op, kinds, extra, which)))
    return out
