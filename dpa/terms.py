"""Value numbers: hash-consed gated terms.

A node stands for the value an expression has as a function of the analysis'
atoms (inputs, configuration, unknown history). Two program expressions get the
same value number if their terms are equal; equality of terms that are not
syntactically the same is decided by evaluating both terms (never the program) at
several points (polynomial identity testing, as in Gulwani & Necula's random
interpretation). Joins of control flow are `ite` nodes (gated phi functions).
"""
import hashlib
import math
import struct
import numpy as np

np.seterr(all="ignore")
K = 192


class N:
    __slots__ = ("op", "args", "id", "top", "atoms")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *args):
    key = (op,) + tuple(("#", a.id) if isinstance(a, N) else a for a in args)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.args = args
        _cnt[0] += 1
        n.id = _cnt[0]
        n.top = op == "top" or any(isinstance(a, N) and a.top for a in args)
        n.atoms = None
        _tab[key] = n
    return n


def atom(name):
    return mk("atom", name)


def batom(name):
    return mk("batom", name)


def top(why="?"):
    return mk("top", why)


def isn(x):
    return isinstance(x, N)


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def has_top(x):
    return isn(x) and x.top


BOOLOPS = ("batom", "not", "and", "or", "lt", "le", "eq", "bite", "beq")


def isbool(x):
    return isinstance(x, bool) or (isn(x) and x.op in BOOLOPS)


# ---------------------------------------------------------------- arithmetic
def tonum(a):
    if isinstance(a, bool):
        return 1 if a else 0
    if isn(a) and a.op in BOOLOPS:
        return ite(a, 1, 0)
    return a


def add(a, b):
    a, b = tonum(a), tonum(b)
    if num(a) and num(b):
        return a + b
    if num(a) and a == 0:
        return b
    if num(b) and b == 0:
        return a
    return mk("add", a, b)


def neg(a):
    a = tonum(a)
    if num(a):
        return -a
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def sub(a, b):
    a, b = tonum(a), tonum(b)
    if num(a) and num(b):
        return a - b
    if num(b) and b == 0:
        return a
    if num(a) and a == 0:
        return neg(b)
    if a is b:
        return 0
    return mk("sub", a, b)


def mul(a, b):
    a, b = tonum(a), tonum(b)
    if num(a) and num(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if num(p):
            if p == 0:
                return 0
            if p == 1:
                return q
            if p == -1:
                return neg(q)
    return mk("mul", a, b)


def div(a, b):
    a, b = tonum(a), tonum(b)
    if num(b):
        if b == 1:
            return a
        if b == 0:
            return top("division by zero") if not num(a) else top("division by zero")
        if num(a):
            return a / b
    if num(a) and a == 0:
        return 0
    return mk("div", a, b)


def idiv(a, b):
    a, b = tonum(a), tonum(b)
    if num(a) and num(b):
        if b == 0:
            return top("division by zero")
        q = abs(int(a)) // abs(int(b))
        return q if (a >= 0) == (b >= 0) else -q
    return mk("idiv", a, b)


def imod(a, b):
    if num(a) and num(b) and b:
        return int(math.fmod(a, b))
    return mk("imod", a, b)


_f1 = {
    "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh, "cosh": np.cosh, "sinh": np.sinh,
    "exp": np.exp, "log": np.log, "abs": np.abs, "acosh": np.arccosh, "atanh": np.arctanh, "acos": np.arccos,
    "asin": np.arcsin, "atan": np.arctan, "floor": np.floor, "ceil": np.ceil, "asinh": np.arcsinh, "round": np.round, "log10": np.log10, "trunc": np.trunc,
}


def f1(name, a):
    a = tonum(a)
    if num(a):
        v = float(_f1[name](float(a)))
        if v == v and abs(v) != math.inf:
            return int(v) if v == int(v) and abs(v) < 1e9 and isinstance(a, int) and name in ("abs",) else v
    return mk("f1", name, a)


def pw(a, b):
    a, b = tonum(a), tonum(b)
    if num(a) and num(b):
        try:
            r = a ** b
            if not isinstance(r, complex):
                return r
        except Exception:
            return top("pow")
    if num(b):
        if b == 0:
            return 1
        if b == 1:
            return a
        if b == 2:
            return mul(a, a)
        if b == 0.5:
            return f1("sqrt", a)
    return mk("pow", a, b)


def atan2(a, b):
    if num(a) and num(b):
        return math.atan2(a, b)
    return mk("atan2", a, b)


def fn(name, *args):
    return mk("fn", name, *args)


# ---------------------------------------------------------------- booleans
def tobool(a):
    if isinstance(a, bool):
        return a
    if num(a):
        return a != 0
    if isn(a):
        if a.op in BOOLOPS:
            return a
        if a.op == "top":
            return mk("batom", "top:" + str(a.args[0])) if False else mk("beq", a, 1)
        return lnot(eq(a, 0))
    return a


def lnot(a):
    a = tobool(a)
    if isinstance(a, bool):
        return not a
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def land(a, b):
    a, b = tobool(a), tobool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    if lnot(a) is b:
        return False
    return mk("and", a, b)


def lor(a, b):
    return lnot(land(lnot(a), lnot(b)))


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isn(a) and a.op in BOOLOPS) or (isn(b) and b.op in BOOLOPS):
        a, b = tobool(a), tobool(b)
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b else lnot(a)
        if a is b:
            return True
        return mk("beq", a, b)
    if num(a) and num(b):
        return a == b
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isn(a) and isn(b) and a.id > b.id:
        a, b = b, a
    if not isn(a):
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b):
    if num(a) and num(b):
        return a < b
    if a is b:
        return False
    return mk("lt", a, b)


def le(a, b):
    # not (b < a); NaN aside the same, and validation rules look at NaN separately
    if num(a) and num(b):
        return a <= b
    if a is b:
        return True
    return mk("le", a, b)


def ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (num(a) and num(b) and a == b):
        return a
    if isbool(a) and isbool(b):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return lnot(c)
        if b is False:
            return land(c, a)
        if a is True:
            return lor(c, b)
        if a is False:
            return land(lnot(c), b)
        if b is True:
            return lor(lnot(c), a)
        return mk("bite", c, a, b)
    if isn(c) and c.op == "not":
        return ite(c.args[0], b, a)
    if isn(a) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isn(b) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return mk("ite", c, a, b)


# ---------------------------------------------------------------- structure
def atoms_of(n):
    """frozenset of atom nodes in n"""
    if not isn(n):
        return frozenset()
    if n.atoms is not None:
        return n.atoms
    stack = [n]
    while stack:
        x = stack[-1]
        if x.atoms is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isn(a) and a.atoms is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op in ("atom", "batom", "top"):
            x.atoms = frozenset([x])
        else:
            s = frozenset()
            for a in x.args:
                if isn(a):
                    s = s | a.atoms
            x.atoms = s
        stack.pop()
    return n.atoms


def show(n, depth=6):
    if not isn(n):
        return repr(n)
    if n.op in ("atom", "batom"):
        return n.args[0]
    if n.op == "top":
        return "?(%s)" % n.args[0]
    if depth == 0:
        return "…"
    s = [show(a, depth - 1) if isn(a) else str(a) for a in n.args]
    o = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "and": "&&"}.get(n.op)
    if o:
        return "(" + (" %s " % o).join(s) + ")"
    if n.op == "neg":
        return "-" + s[0]
    if n.op == "not":
        return "!" + s[0]
    if n.op == "ite" or n.op == "bite":
        return "(%s ? %s : %s)" % tuple(s)
    if n.op in ("f1", "fn"):
        return "%s(%s)" % (s[0], ", ".join(s[1:]))
    return "%s(%s)" % (n.op, ", ".join(s))


# ---------------------------------------------------------------- evaluation
def _h(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()


def rnd(*parts):
    """deterministic value in +-[0.2, 1.8]"""
    v = struct.unpack("<Q", _h(*parts))[0]
    s = 1.0 if v & 1 else -1.0
    return s * (0.2 + 1.6 * ((v >> 1) / float(1 << 63)))


class Valuation:
    def __init__(self, seed=0, over=None, k=K):
        self.seed = seed
        self.k = k
        self.memo = {}
        self.over = over or {}  # atom name -> list/array/scalar or bool

    def atomval(self, n):
        name = n.args[0]
        if name in self.over:
            v = self.over[name]
            if callable(v):
                return np.array([v(i) for i in range(self.k)])
            if isinstance(v, (list, tuple, np.ndarray)):
                return np.array(v)
            return np.array([v] * self.k)
        if n.op == "batom":
            return np.array([rnd("b", self.seed, name, i) > 0 for i in range(self.k)])
        return np.array([rnd("a", self.seed, name, i) for i in range(self.k)])

    def __call__(self, n):
        if not isn(n):
            if isinstance(n, bool):
                return np.array([n] * self.k)
            if isinstance(n, (int, float)):
                return np.full(self.k, float(n))
            return np.full(self.k, float("nan"))
        memo = self.memo
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op in ("atom", "batom"):
                memo[x.id] = self.atomval(x)
                stack.pop()
                continue
            if x.op == "top":
                memo[x.id] = np.full(self.k, float("nan"))
                stack.pop()
                continue
            todo = [a for a in x.args if isn(a) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x.id] = self.apply(x)
            stack.pop()
        return memo[n.id]

    def v(self, a):
        if isn(a):
            return self.memo[a.id]
        if isinstance(a, bool):
            return np.array([a] * self.k)
        return np.full(self.k, float(a)) if isinstance(a, (int, float)) else a

    def apply(self, x):
        op = x.op
        a = [self.v(y) for y in x.args]
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "neg":
            return -a[0]
        if op == "idiv":
            return np.trunc(a[0] / a[1])
        if op == "imod":
            return np.fmod(a[0], a[1])
        if op == "f1":
            return _f1[x.args[0]](a[1].astype(float))
        if op == "pow":
            return np.power(a[0], a[1])
        if op == "atan2":
            return np.arctan2(a[0], a[1])
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "eq":
            if isinstance(a[0], str) or isinstance(a[1], str):
                r = []
                for i in range(self.k):
                    r.append(rnd("seq", self.seed, x.id, i) > 0)
                return np.array(r)
            return np.abs(a[0] - a[1]) <= 1e-12
        if op == "beq":
            return (a[0] != 0) == (a[1] != 0)
        if op == "not":
            return ~(a[0].astype(bool))
        if op == "and":
            return a[0].astype(bool) & a[1].astype(bool)
        if op in ("ite", "bite"):
            if isinstance(a[1], str) or isinstance(a[2], str) or not hasattr(a[1], "dtype") or not hasattr(a[2], "dtype"):
                return np.full(self.k, float("nan"))
            return np.where(a[0].astype(bool), a[1], a[2])
        if op == "fn":
            r = np.empty(self.k)
            for i in range(self.k):
                key = []
                nan = False
                for y in a[1:]:
                    if isinstance(y, np.ndarray):
                        q = float(y[i])
                        if q != q:
                            nan = True
                        key.append("%.6g" % (q + 0.0))
                    else:
                        key.append(str(y))
                r[i] = float("nan") if nan else rnd("f", x.args[0], tuple(key))
            return r
        raise KeyError(op)


V0 = Valuation(0)


def reset_valuations():
    V0.memo.clear()


def close(x, y, tol=1e-7):
    x = x.astype(float)
    y = y.astype(float)
    ok = np.isfinite(x) & np.isfinite(y)
    d = np.abs(x - y) <= tol * (1 + np.abs(x) + np.abs(y))
    return ok, d


def equal(a, b, val=None):
    """True / False / None (undecided)."""
    if a is b:
        return True
    if not isn(a) and not isn(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) <= 1e-12 * (1 + abs(a) + abs(b))
        return a == b
    if has_top(a) or has_top(b):
        return None
    val = val or V0
    ok, d = close(val(a), val(b))
    if (ok & ~d).any():
        return False
    if ok.sum() < 1:
        return None
    return True


def equal_if(cond, a, b):
    """equality wherever cond holds; None when no sampled point satisfies cond (a vacuous comparison decides nothing)"""
    if cond is True:
        return equal(a, b)
    if a is b:
        return True
    if has_top(a) or has_top(b) or has_top(cond):
        return None
    ws = [V0]
    c = V0(cond).astype(bool)
    if c.sum() < 8:
        # steer: the free truth values as they have to be, where that is decidable
        over = {}
        for x in atoms_of(cond):
            if x.op == "batom":
                k = kleene(cond, {x: False})
                if k is False:
                    over[x.args[0]] = True
                elif kleene(cond, {x: True}) is False:
                    over[x.args[0]] = False
        ws = [Valuation(sd, over) for sd in range(3)]
    n = 0
    for w in ws:
        c = w(cond).astype(bool)
        ok, d = close(w(a), w(b))
        if (c & ok & ~d).any():
            return False
        n += int((c & ok).sum())
    return True if n else None


def is_zero(a):
    return equal(a, 0)


def depends(n, names, seeds=(1, 2)):
    """does n's value depend on any of the atoms? names: set of atom nodes"""
    inter = [a for a in atoms_of(n) if a in names]
    if not inter:
        return False
    base = V0(n)
    for s in seeds:
        over = {}
        for a in inter:
            if a.op == "batom":
                over[a.args[0]] = [rnd("ob", s, a.args[0], i) > 0 for i in range(K)]
            elif a.op == "atom":
                over[a.args[0]] = [rnd("oa", s, a.args[0], i) for i in range(K)]
        w = Valuation(0, over)(n)
        ok, d = close(base, w)
        if (ok & ~d).any():
            return True
    return False


# ---------------------------------------------------------------- differentiation
_dm = {}


def diff(n, x):
    """partial derivative of n w.r.t. atom x"""
    if not isn(n) or x not in atoms_of(n):
        return 0
    key = (n.id, x.id)
    r = _dm.get(key)
    if r is not None:
        return r
    # iterative over DAG in topological order
    order = []
    seen = set()
    stack = [(n, 0)]
    while stack:
        y, st = stack.pop()
        if st == 0:
            if y.id in seen or (y.id, x.id) in _dm or x not in atoms_of(y):
                continue
            seen.add(y.id)
            stack.append((y, 1))
            for a in y.args:
                if isn(a):
                    stack.append((a, 0))
        else:
            order.append(y)
    for y in order:
        _dm[(y.id, x.id)] = _diff1(y, x)
    return _dm[key]


def _d(a, x):
    if not isn(a) or x not in atoms_of(a):
        return 0
    return _dm[(a.id, x.id)]


def _diff1(y, x):
    op, a = y.op, y.args
    if y is x:
        return 1
    if op == "add":
        return add(_d(a[0], x), _d(a[1], x))
    if op == "sub":
        return sub(_d(a[0], x), _d(a[1], x))
    if op == "neg":
        return neg(_d(a[0], x))
    if op == "mul":
        return add(mul(_d(a[0], x), a[1]), mul(a[0], _d(a[1], x)))
    if op == "div":
        return sub(div(_d(a[0], x), a[1]), mul(div(a[0], mul(a[1], a[1])), _d(a[1], x)))
    if op == "ite":
        return ite(a[0], _d(a[1], x), _d(a[2], x))
    if op == "f1":
        u, du = a[1], _d(a[1], x)
        f = a[0]
        if f == "sqrt":
            return div(du, mul(2, y))
        if f == "sin":
            return mul(f1("cos", u), du)
        if f == "cos":
            return neg(mul(f1("sin", u), du))
        if f == "tanh":
            return mul(sub(1, mul(y, y)), du)
        if f == "sinh":
            return mul(f1("cosh", u), du)
        if f == "cosh":
            return mul(f1("sinh", u), du)
        if f == "exp":
            return mul(y, du)
        if f == "log":
            return div(du, u)
        if f == "abs":
            return mul(ite(lt(u, 0), -1, 1), du)
        if f == "tan":
            return mul(add(1, mul(y, y)), du)
        if f == "atan":
            return div(du, add(1, mul(u, u)))
        if f == "acosh":
            return div(du, f1("sqrt", sub(mul(u, u), 1)))
        if f == "atanh":
            return div(du, sub(1, mul(u, u)))
        return top("d" + f)
    if op == "pow":
        u, e = a
        if num(e):
            return mul(mul(e, pw(u, e - 1)), _d(u, x))
        return mul(y, add(mul(_d(e, x), f1("log", u)), mul(e, div(_d(u, x), u))))
    if op == "atan2":
        p, q = a
        den = add(mul(p, p), mul(q, q))
        return div(sub(mul(q, _d(p, x)), mul(p, _d(q, x))), den)
    if op == "fn":
        r = 0
        name = a[0]
        base, _, ds = name.partition("#d")
        cur = [int(z) for z in ds.split(",")] if ds else []
        for i, u in enumerate(a[1:]):
            d = _d(u, x)
            if num(d) and d == 0:
                continue
            nn = base + "#d" + ",".join(str(z) for z in sorted(cur + [i]))
            r = add(r, mul(mk("fn", nn, *a[1:]), d))
        return r
    if op in ("lt", "le", "eq"):
        return 0
    return top("d " + op)


def subst(n, m, memo=None):
    """replace atoms (dict atom-node -> value)"""
    if memo is None:
        memo = {}
    if not isn(n):
        return n
    keys = set(m)
    stack = [n]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        if y in m:
            memo[y.id] = m[y]
            stack.pop()
            continue
        if not (atoms_of(y) & keys):
            memo[y.id] = y
            stack.pop()
            continue
        todo = [a for a in y.args if isn(a) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[y.id] = rebuild(y.op, [memo[a.id] if isn(a) else a for a in y.args])
        stack.pop()
    return memo[n.id]


def rebuild(op, a):
    f = {"add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "ite": ite, "bite": ite, "lt": lt, "le": le, "eq": eq,
         "not": lnot, "and": land, "pow": pw, "atan2": atan2, "f1": f1, "idiv": idiv, "imod": imod, "beq": eq}.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


# ---------------------------------------------------------------- three-valued evaluation of boolean terms
def kleene(n, env, memo=None):
    """env: dict node -> bool for literals; returns True/False/None"""
    if memo is None:
        memo = {}
    if isinstance(n, bool):
        return n
    if not isn(n):
        return None
    stack = [n]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        if y in env:
            memo[y.id] = env[y]
            stack.pop()
            continue
        kids = [a for a in y.args if isn(a)]
        todo = [a for a in kids if a.id not in memo] if y.op in ("not", "and", "bite", "beq") else []
        if todo:
            stack.extend(todo)
            continue

        def g(a):
            return a if isinstance(a, bool) else (memo[a.id] if isn(a) else None)
        r = None
        if y.op == "not":
            v = g(y.args[0])
            r = None if v is None else not v
        elif y.op == "and":
            p, q = g(y.args[0]), g(y.args[1])
            r = False if (p is False or q is False) else (True if p and q else None)
        elif y.op == "bite":
            c, p, q = (g(z) for z in y.args)
            r = p if c is True else q if c is False else (p if p is not None and p == q else None)
        elif y.op == "beq":
            p, q = g(y.args[0]), g(y.args[1])
            r = None if p is None or q is None else p == q
        memo[y.id] = r
        stack.pop()
    return memo[n.id]


def literals(c, pos=True, out=None):
    """conjuncts implied by c==pos, as {node: bool}"""
    if out is None:
        out = {}
    if isinstance(c, bool) or not isn(c):
        return out
    if c.op == "not":
        return literals(c.args[0], not pos, out)
    out[c] = pos
    if c.op == "and" and pos:
        literals(c.args[0], True, out)
        literals(c.args[1], True, out)
    return out


# ---------------------------------------------------------------- intervals
_BOUNDED = {"sin": (-1.0, 1.0), "cos": (-1.0, 1.0), "tanh": (-1.0, 1.0), "exp": (0.0, float("inf")), "cosh": (1.0, float("inf")),
            "sqrt": (0.0, float("inf")), "abs": (0.0, float("inf")), "fabs": (0.0, float("inf"))}


def interval(n, env):
    """abstract value of a graph: (lo, hi) for numbers, True/False/None for conditions.
    env: atom name -> (lo, hi) or bool; unnamed atoms are unknown"""
    inf = float("inf")
    memo = {}

    def g(a):
        if isinstance(a, bool):
            return a
        if isinstance(a, (int, float)):
            return (float(a), float(a))
        if isn(a):
            return memo[a.id]
        return None

    def bl(v):
        if v is None or isinstance(v, bool):
            return v
        if v[0] > 0 or v[1] < 0:
            return True
        return False if v == (0.0, 0.0) else None

    def iv(v):
        if v is None:
            return (-inf, inf)
        if isinstance(v, bool):
            return (1.0, 1.0) if v else (0.0, 0.0)
        return v

    def fin(lo, hi):
        return (-inf if lo != lo else lo, inf if hi != hi else hi)

    def step(x):
        op = x.op
        if op == "atom":
            return env.get(x.args[0], (-inf, inf))
        if op == "batom":
            return env.get(x.args[0])
        if op in ("add", "sub", "mul", "neg", "div"):
            a = iv(g(x.args[0]))
            if op == "neg":
                return (-a[1], -a[0])
            b = iv(g(x.args[1]))
            if op == "add":
                return fin(a[0] + b[0], a[1] + b[1])
            if op == "sub":
                return fin(a[0] - b[1], a[1] - b[0])
            if op == "div":
                if b[0] <= 0 <= b[1]:
                    return (-inf, inf)
                b = (1 / b[1], 1 / b[0])
            p = [0.0 if (u == 0 or w == 0) else u * w for u in a for w in b]
            return (min(p), max(p))
        if op == "f1":
            a = iv(g(x.args[1]))
            if x.args[0] in ("abs", "fabs"):
                return (max(0.0, a[0], -a[1]), max(-a[0], a[1]))
            return _BOUNDED.get(x.args[0], (-inf, inf))
        if op in ("lt", "le", "eq"):
            if any(isinstance(y, str) for y in x.args):
                return None
            a, b = iv(g(x.args[0])), iv(g(x.args[1]))
            if op == "lt":
                return True if a[1] < b[0] else False if a[0] >= b[1] else None
            if op == "le":
                return True if a[1] <= b[0] else False if a[0] > b[1] else None
            if a[1] < b[0] or b[1] < a[0]:
                return False
            return True if a[0] == a[1] == b[0] == b[1] else None
        if op == "not":
            a = bl(g(x.args[0]))
            return None if a is None else not a
        if op == "and":
            a, b = bl(g(x.args[0])), bl(g(x.args[1]))
            return False if a is False or b is False else True if a and b else None
        if op == "beq":
            a, b = bl(g(x.args[0])), bl(g(x.args[1]))
            return None if a is None or b is None else a == b
        if op in ("bite", "ite"):
            c, a, b = bl(g(x.args[0])), g(x.args[1]), g(x.args[2])
            if c is not None:
                return a if c else b
            if op == "bite":
                a, b = bl(a), bl(b)
                return a if a is not None and a == b else None
            a, b = iv(a), iv(b)
            return (min(a[0], b[0]), max(a[1], b[1]))
        return None
    if not isn(n):
        return g(n)
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if isn(a) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = step(x)
        stack.pop()
    return memo[n.id]


def rename(n, atoms, fns):
    """replace atoms by name (name -> value) and time functions by name (name -> name)"""
    memo = {}

    def go(y):
        stack = [y]
        while stack:
            z = stack[-1]
            if z.id in memo:
                stack.pop()
                continue
            todo = [a for a in z.args if isn(a) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            if z.op in ("atom", "batom"):
                memo[z.id] = atoms.get(z.args[0], z)
                continue
            a = [memo[x.id] if isn(x) else x for x in z.args]
            if z.op == "fn":
                a[0] = fns.get(a[0], a[0])
            memo[z.id] = rebuild(z.op, a)
        return memo[y.id]
    return go(n) if isn(n) else n
