"""A symbolic kinematic tree and the meaning of the iDynTree kinematics classes over it.

The tree has fixed generic parameters; joint positions, velocities and the base pose are
terms. Every quantity (relative transforms, Jacobians, centre of mass, momentum, static
torques) is derived from the same joint transforms, so the derivative of one is another
exactly when the corresponding rigid-body identity holds.
"""
import numpy as np

from . import terms as T
from .interp import Abort, Lst, M, Obj, Opq, Ptr, NULL, Ch
from .models import (OBJM, OPAQUE, OBJCLS, DEFAULTS, CTORS, aadd, aew, amul, ascale, asub, azero, crf, crm, ctor, eye, lst_at, mm, model, qmul, qrot,
                     rot_from_quat, skew3, tr_adj, tr_parts, transform, vec, res)


def col(v):
    a = np.empty((len(v), 1), dtype=object)
    for i, x in enumerate(v):
        a[i, 0] = x
    return a


class X:
    """rigid transform a_X_b: position, rotation matrix, quaternion"""
    __slots__ = ("p", "R", "q")

    def __init__(self, p, R, q):
        self.p, self.R, self.q = p, R, q


def xid():
    return X(azero(3, 1), eye(3), (1.0, 0.0, 0.0, 0.0))


def xmul(a, b):
    return X(aadd(a.p, amul(a.R, b.p)), amul(a.R, b.R), qmul(a.q, b.q) if a.q and b.q else None)


def xinv(a):
    Rt = a.R.T.copy()
    return X(aew(T.neg, amul(Rt, a.p)), Rt, (a.q[0],) + tuple(T.neg(x) for x in a.q[1:]) if a.q else None)


def xnum(p, axis, ang):
    ax = np.array(axis, dtype=float)
    ax = ax / np.linalg.norm(ax)
    q = (float(np.cos(ang / 2)),) + tuple(float(x) for x in np.sin(ang / 2) * ax)
    return X(col([float(x) for x in p]), qrot(q), q)


def adj(x, wrench=False):
    return tr_adj(x.p, x.R, wrench)


class Robot:
    """root carries two chains; link, joint and frame numbers are deliberately unaligned"""

    def __init__(self, small=False, links=None, joints=None):
        self.name = "robot"
        if links:
            self.links, self.joints = links, joints
        elif small:
            self.links = ["root", "l2", "r1", "l1"]
            self.joints = [("jr", 0, 2), ("jl1", 0, 3), ("jl2", 3, 1)]
        else:
            self.links = ["root", "l3", "l2", "r1", "l1"]
            self.joints = [("jl2", 4, 2), ("jr", 0, 3), ("jl1", 0, 4), ("jl3", 2, 1)]
        rng = np.random.RandomState(7)
        self.rest, self.axis, self.off = [], [], []
        for _ in self.joints:
            self.rest.append(xnum(np.round(rng.uniform(-0.5, 0.5, 3), 2), np.round(rng.uniform(-1, 1, 3), 2), round(rng.uniform(0.3, 1.2), 2)))
            a = rng.uniform(-1, 1, 3)
            a /= np.linalg.norm(a)
            self.axis.append([float(x) for x in a])
            self.off.append([float(x) for x in np.round(rng.uniform(-0.2, 0.2, 3), 2)])
        self.mass, self.com, self.inert = [], [], []
        for _ in self.links:
            m = float(round(rng.uniform(1.0, 4.0), 2))
            c = np.round(rng.uniform(-0.3, 0.3, 3), 2)
            A = rng.uniform(-0.3, 0.3, (3, 3))
            Ic = A @ A.T + 0.2 * np.eye(3)
            S = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
            I6 = np.zeros((6, 6))
            I6[:3, :3] = m * np.eye(3)
            I6[:3, 3:] = -m * S
            I6[3:, :3] = m * S
            I6[3:, 3:] = Ic - m * S @ S
            o = np.empty((6, 6), dtype=object)
            for i in np.ndindex(6, 6):
                o[i] = float(I6[i])
            self.mass.append(m)
            self.com.append([float(x) for x in c])
            self.inert.append(o)
        self.total = float(sum(self.mass))
        left = 1 if links else self.links.index("l2" if small else "l3")
        self.extra = [] if links else [("l_sole", left, xnum((0.05, -0.02, -0.1), (0.2, 1.0, 0.3), 0.4)),
                      ("r_sole", self.links.index("r1"), xnum((-0.03, 0.04, -0.12), (1.0, 0.1, -0.4), 0.7)),
                      ("neck", 0, xnum((0.02, 0.01, 0.3), (0.3, -0.2, 1.0), 0.5))]
        self.frames = list(self.links) + [e[0] for e in self.extra]
        self.flink = list(range(len(self.links))) + [e[1] for e in self.extra]
        self.fX = [xid() for _ in self.links] + [e[2] for e in self.extra]
        self.n = len(self.joints)
        self.base = 0
        self.ents = {}

    # structure ------------------------------------------------------------
    def neighbours(self, l):
        out = []
        for j, (_, p, c) in enumerate(self.joints):
            if p == l:
                out.append((j, c))
            if c == l:
                out.append((j, p))
        return out

    def traversal(self, base):
        """[(link, parent link, joint)] in visiting order"""
        order = [(base, None, None)]
        seen = {base}
        i = 0
        while i < len(order):
            l = order[i][0]
            for j, o in self.neighbours(l):
                if o not in seen:
                    seen.add(o)
                    order.append((o, l, j))
            i += 1
        return order

    def path(self, a, b):
        """joints from link a to link b: [(joint, from, to)]"""
        par = {l: (p, j) for l, p, j in self.traversal(a)}
        out = []
        l = b
        while l != a:
            p, j = par[l]
            out.append((j, p, l))
            l = p
        return out[::-1]

    # transforms -----------------------------------------------------------
    def jT(self, j, s):
        """parent_X_child"""
        half = T.mul(0.5, s[j])
        sn, cs = T.f1("sin", half), T.f1("cos", half)
        q = (cs,) + tuple(T.mul(sn, a) for a in self.axis[j])
        o = col(self.off[j])
        R = qrot(q)
        rot = X(asub(o, amul(R, o)), R, q)
        return xmul(self.rest[j], rot)

    def linkT(self, a, b, s):
        x = xid()
        first = True
        for j, p, c in self.path(a, b):
            y = self.jT(j, s)
            if self.joints[j][1] != p:
                y = xinv(y)
            x = y if first else xmul(x, y)
            first = False
        return x

    def frameT(self, a, b, s):
        if a == b:
            return xid()
        x = self.linkT(self.flink[a], self.flink[b], s)
        if a >= len(self.links):
            x = xmul(xinv(self.fX[a]), x) if self.flink[a] != self.flink[b] else xinv(self.fX[a])
        if b >= len(self.links):
            x = xmul(x, self.fX[b]) if (self.flink[a] != self.flink[b] or a >= len(self.links)) else self.fX[b]
        return x

    def S(self, j, child, parent):
        """motion of child with respect to parent, in child's frame"""
        _, p, c = self.joints[j]
        a, o = self.axis[j], self.off[j]
        v = [o[1] * a[2] - o[2] * a[1], o[2] * a[0] - o[0] * a[2], o[0] * a[1] - o[1] * a[0]]
        s = col([float(x) for x in v] + list(a))
        if (child, parent) == (c, p):
            return s
        if (child, parent) == (p, c):
            return aew(T.neg, amul(adj(self.rest[j]), s))
        return None

    # velocities -----------------------------------------------------------
    def jrel(self, a, b, s):
        """left-trivialised Jacobian of frame b relative to frame a"""
        out = azero(6, self.n)
        for j, p, c in self.path(self.flink[a], self.flink[b]):
            x = self.frameT(b, c, s)
            out[:, j:j + 1] = amul(adj(x), self.S(j, c, p))
        return out

    def twist(self, f, s, vb, sd, base=None):
        b = self.base if base is None else base
        v = amul(adj(self.frameT(f, b, s)), vb)
        return aadd(v, amul(self.jrel(b, f, s), sd))

    def com_in(self, f, s):
        out = azero(3, 1)
        for l in range(len(self.links)):
            x = self.frameT(f, l, s)
            out = aadd(out, ascale(aadd(x.p, amul(x.R, col(self.com[l]))), self.mass[l] / self.total))
        return out

    def com_jac(self, f, s):
        """derivative of com_in(f) with respect to the joints"""
        out = azero(3, self.n)
        for l in range(len(self.links)):
            x = self.frameT(f, l, s)
            J = self.jrel(f, l, s)
            A = azero(3, 6)
            A[:, :3] = x.R
            A[:, 3:] = aew(T.neg, amul(x.R, skew3(self.com[l])))
            out = aadd(out, ascale(amul(A, J), self.mass[l] / self.total))
        return out

    def crbi(self, s, base=None):
        b = self.base if base is None else base
        out = azero(6, 6)
        for l in range(len(self.links)):
            x = self.frameT(b, l, s)
            out = aadd(out, amul(adj(x, True), amul(self.inert[l], adj(xinv(x)))))
        return out

    def momentum(self, s, vb, sd, base=None):
        b = self.base if base is None else base
        out = azero(6, 1)
        for l in range(len(self.links)):
            out = aadd(out, amul(adj(self.frameT(b, l, s), True), amul(self.inert[l], self.twist(l, s, vb, sd, b))))
        return out

    def momentum_jac(self, s, base=None):
        b = self.base if base is None else base
        out = azero(6, 6 + self.n)
        out[:, :6] = self.crbi(s, b)
        for l in range(len(self.links)):
            out[:, 6:] = aadd(out[:, 6:], amul(adj(self.frameT(b, l, s), True), amul(self.inert[l], self.jrel(b, l, s))))
        return out

    # entities -------------------------------------------------------------
    def ent(self, kind, i):
        k = (kind, i)
        if k not in self.ents:
            o = Opq(kind, (self, i))
            o.fresh = False
            self.ents[k] = o
        return self.ents[k]


def xof(I, t):
    p, R = tr_parts(I, t)
    return X(p, I.m_arr(R), R.quat)


def tmat(I, x):
    R = I.mnew(x.R.copy(), "fix", False)
    R.quat = x.q
    return transform(I, I.mnew(x.p.copy(), "fix", True), R)


def cint(I, x):
    v = I.rd(x)
    if isinstance(v, bool) or not isinstance(v, int):
        if isinstance(v, float) and v == int(v):
            return int(v)
        raise Abort("symbolic index")
    return v


def robot_of(I, x):
    v = I.rd(x)
    if isinstance(v, Ptr):
        v = v.t
    r = v.d.get("robot") if isinstance(v, (Obj, Opq)) else None
    if isinstance(r, Robot):
        return r
    raise Abort("no robot model")


# ---------------------------------------------------------------------- model
def model_value(I, robot):
    o = Obj("iDynTree::Model", I.guard)
    o.d["robot"] = robot
    return o


def model_call(I, th, a, n, c):
    o = I.rd(th)
    if c.n == "operator=":
        I.write(o, "robot", I.rd(a[0]).d.get("robot"))
        return o
    r = o.d.get("robot")
    k = c.n
    if not isinstance(r, Robot):
        if k in ("getNrOfDOFs", "getNrOfLinks", "getNrOfJoints", "getNrOfFrames"):
            return 0
        if k in ("getFrameIndex", "getLinkIndex", "getJointIndex"):
            return -1
        if k in ("isFrameNameUsed", "isLinkNameUsed"):
            return False
        raise Abort("empty model")
    if k in ("getNrOfDOFs", "getNrOfJoints", "getNrOfPosCoords"):
        return r.n
    if k == "getNrOfLinks":
        return len(r.links)
    if k == "getNrOfFrames":
        return len(r.frames)
    if k in ("getFrameIndex", "getLinkIndex", "getJointIndex", "isFrameNameUsed", "isLinkNameUsed"):
        s = I.rd(a[0])
        if not isinstance(s, str):
            raise Abort("symbolic name")
        tab = {"getFrameIndex": r.frames, "getLinkIndex": r.links, "getJointIndex": [j[0] for j in r.joints], "isFrameNameUsed": r.frames,
               "isLinkNameUsed": r.links}[k]
        if k.startswith("is"):
            return s in tab
        return tab.index(s) if s in tab else -1
    if k in ("isValidLinkIndex", "isValidJointIndex", "isValidFrameIndex"):
        i = cint(I, a[0])
        return 0 <= i < {"isValidLinkIndex": len(r.links), "isValidJointIndex": r.n, "isValidFrameIndex": len(r.frames)}[k]
    if k == "getDefaultBaseLink":
        return r.base
    if k == "getTotalMass":
        return r.total
    if k == "toString":
        return "text of the model"
    if k == "computeFullTreeTraversal":
        t = I.rd(a[0])
        b = cint(I, a[1]) if len(a) > 1 else r.base
        if not 0 <= b < len(r.links):
            return False
        I.write(t, "robot", r)
        I.write(t, "base", b)
        return True
    i = cint(I, a[0])
    lim = {"getFrameLink": len(r.frames), "getFrameName": len(r.frames), "getFrameTransform": len(r.frames), "getJoint": r.n, "getJointName": r.n,
           "getLink": len(r.links), "getLinkName": len(r.links)}.get(k)
    if lim is None:
        return NotImplemented
    if not 0 <= i < lim:
        I.event("oob", what="model.%s(%d)" % (k, i))
        if k == "getFrameLink":
            return -1
        raise Abort("model index")
    if k == "getFrameLink":
        return r.flink[i]
    if k == "getFrameName":
        return r.frames[i]
    if k == "getLinkName":
        return r.links[i]
    if k == "getJointName":
        return r.joints[i][0]
    if k == "getFrameTransform":
        return tmat(I, r.fX[i])
    if k == "getJoint":
        return Ptr(r.ent("#joint", i))
    if k == "getLink":
        return Ptr(r.ent("#link", i))


def trav(I, o):
    o = I.rd(o)
    r, b = o.d.get("robot"), o.d.get("base")
    if not isinstance(r, Robot) or not isinstance(b, int):
        raise Abort("traversal not computed")
    return r, b


def trav_call(I, th, a, n, c):
    o = I.rd(th)
    if c.n == "operator=":
        for k in ("robot", "base"):
            I.write(o, k, I.rd(a[0]).d.get(k))
        return o
    r, b = trav(I, o)
    order = r.traversal(b)
    k = c.n
    if k == "getNrOfVisitedLinks":
        return len(order)
    if k in ("getParentJointFromLinkIndex", "getParentLinkFromLinkIndex"):
        l = cint(I, a[0])
        for li, p, j in order:
            if li == l:
                if p is None:
                    return NULL
                return Ptr(r.ent("#joint", j)) if "Joint" in k else Ptr(r.ent("#link", p))
        I.event("oob", what="traversal." + k)
        raise Abort("traversal index")
    if k in ("getChildLinkIndexFromJointIndex", "getParentLinkIndexFromJointIndex"):
        j = cint(I, a[1])
        for li, p, jj in order:
            if jj == j:
                return li if "Child" in k else p
        return -1
    i = cint(I, a[0])
    if not 0 <= i < len(order):
        I.event("oob", what="traversal.%s(%d)" % (k, i))
        raise Abort("traversal index")
    li, p, j = order[i]
    if k == "getLink":
        return Ptr(r.ent("#link", li))
    if k == "getParentJoint":
        return NULL if j is None else Ptr(r.ent("#joint", j))
    if k == "getParentLink":
        return NULL if p is None else Ptr(r.ent("#link", p))
    return NotImplemented


def link_call(I, th, c, a, n):
    r, l = th.info
    if c.n == "getIndex":
        return l
    if c.n in ("getInertia", "inertia"):
        o = Obj("iDynTree::SpatialInertia", I.guard)
        o.d["l"] = (r, l)
        return o
    return NotImplemented


def joint_call(I, th, c, a, n):
    r, j = th.info
    if c.n == "getIndex":
        return j
    if c.n == "getNrOfDOFs":
        return 1
    if c.n == "getDOFsOffset" or c.n == "getPosCoordsOffset":
        return j
    if c.n == "getMotionSubspaceVector":
        child, parent = cint(I, a[1]), cint(I, a[2])
        s = r.S(j, child, parent)
        if s is None:
            I.event("oob", what="motion subspace of joint %s for links %d,%d" % (r.joints[j][0], child, parent))
            raise Abort("joint does not connect the links")
        return vec(I, list(s.ravel()))
    if c.n == "getTransform":
        s = [x for x in I.m_arr(mm(I, a[0])).ravel()]
        p, ch = cint(I, a[1]), cint(I, a[2])
        x = r.jT(j, s)
        return tmat(I, x if (p, ch) == r.joints[j][1:] else xinv(x))
    tag = getattr(r, "tag", "")
    free = not tag and j in (I.opt.get("unlimited") or ())
    if c.n == "hasPosLimits":
        return not free
    if c.n == "getMinPosLimit":
        return T.atom("%sjointMin[%d]" % (tag, j)) if not free else T.atom("min of the unlimited joint %d" % j)
    if c.n == "getMaxPosLimit":
        return T.atom("%sjointMax[%d]" % (tag, j)) if not free else T.atom("max of the unlimited joint %d" % j)
    if c.n == "getPosLimits":
        if free:
            return False              # and the two values stay as they are
        I.assign(a[1], T.atom("%sjointMin[%d]" % (tag, j)))
        I.assign(a[2], T.atom("%sjointMax[%d]" % (tag, j)))
        return True
    return NotImplemented


def inertia_call(I, th, a, n, c):
    o = I.rd(th)
    if c.n == "operator=":
        I.write(o, "l", I.rd(a[0]).d.get("l"))
        return o
    v = o.d.get("l")
    if not isinstance(v, tuple):
        raise Abort("inertia")
    r, l = v
    if c.n == "asMatrix":
        return I.mnew(r.inert[l].copy(), "fix", False)
    if c.n == "getMass":
        return r.mass[l]
    if c.n == "getCenterOfMass":
        return vec(I, list(r.com[l]))
    if c.n == "operator*":
        return res(I, amul(r.inert[l], I.m_arr(mm(I, a[0]))))
    return NotImplemented


# ---------------------------------------------------------------------- KinDynComputations
BODY, MIXED, INERTIAL = 1, 2, 0


def kd_rep(I, o):
    v = o.d.get("rep", MIXED)
    v = I.reduce(v)
    if not isinstance(v, int):
        raise Abort("velocity representation unknown")
    return v


def kd_frame(I, r, x):
    v = I.rd(x)
    if isinstance(v, str):
        if v not in r.frames:
            I.event("oob", what="unknown frame " + v)
            raise Abort("unknown frame")
        return r.frames.index(v)
    i = cint(I, x)
    if not 0 <= i < len(r.frames):
        I.event("oob", what="frame index %d" % i)
        raise Abort("frame index")
    return i


def blkR(R):
    a = azero(6, 6)
    a[:3, :3] = R
    a[3:, 3:] = R
    return a


def kd_vals(I, o):
    r = o.d.get("robot")
    if not isinstance(r, Robot):
        raise Abort("kindyn without model")
    t = o.d.get("T")
    if t is None:
        raise Abort("kindyn without state")
    s = list(I.m_arr(o.d["s"]).ravel())
    b = o.d.get("base", r.base)
    if not isinstance(b, int):
        raise Abort("symbolic base")
    return r, b, xof(I, t), s, I.m_arr(o.d["v"]), I.m_arr(o.d["sd"])


def rep_mats(rep, x):
    """rep quantity = M * body quantity for a frame with pose x"""
    if rep == BODY:
        return eye(6)
    if rep == MIXED:
        return blkR(x.R)
    return adj(x)


def kd_state(I, o, r, n):
    """slots of a fresh computation object"""
    o.d["robot"] = r
    o.d["base"] = r.base
    o.d["T"] = tmat(I, xid())
    o.d["s"] = I.mzero(r.n, 1, "dyn", True)
    o.d["v"] = I.mzero(6, 1, "fix", True)
    o.d["sd"] = I.mzero(r.n, 1, "dyn", True)
    o.d["g"] = I.mzero(3, 1, "fix", True)


def kindyn_call(I, th, a, n, c):
    o = I.rd(th)
    k = c.n
    fail = I.opt.get("fail") if hasattr(I, "opt") else None
    if k == "loadRobotModel":
        r = robot_of(I, a[0])
        if "robot" not in o.d:
            kd_state(I, o, r, n)
        else:
            I.write(o, "robot", r)
            I.write(o, "base", r.base)
            I.write(o, "model", model_value(I, r))
            # the state of a freshly loaded model: base in the origin, joints at zero, no velocity
            for nm, v in (("T", tmat(I, xid())), ("s", I.mzero(r.n, 1, "dyn", True)), ("v", I.mzero(6, 1, "fix", True)),
                          ("sd", I.mzero(r.n, 1, "dyn", True)), ("g", I.mzero(3, 1, "fix", True))):
                v.fresh = False
                I.write(o, nm, v)
        return True if not fail else fail(I, "loadRobotModel", o)
    if k == "isValid":
        return isinstance(o.d.get("robot"), Robot)
    if k in ("model", "getRobotModel"):
        if "model" not in o.d:
            o.d["model"] = model_value(I, o.d.get("robot"))
        m = o.d["model"]
        m.d["robot"] = o.d.get("robot")
        return m
    if k == "setFrameVelocityRepresentation":
        I.write(o, "rep", I.rd(a[0]))
        return True
    if k == "getFrameVelocityRepresentation":
        return o.d.get("rep", MIXED)
    r = o.d.get("robot")
    if not isinstance(r, Robot):
        raise Abort("kindyn without model")
    if k == "getNrOfDegreesOfFreedom":
        return r.n
    if k == "getNrOfLinks":
        return len(r.links)
    if k == "setFloatingBase":
        s = I.rd(a[0])
        if not isinstance(s, str):
            raise Abort("symbolic base name")
        if s not in r.links:
            return False
        if o.d.get("base") != r.links.index(s) and "T" in o.d:
            # the library keeps the link poses computed for the previous base until the next setRobotState
            p, R = o.d["T"].d["p"], o.d["T"].d["R"]
            for m in (p, R, o.d["s"], o.d["v"], o.d["sd"]):
                sh = I.shape(m)
                a = np.empty(sh, dtype=object)
                for i in np.ndindex(*sh):
                    a[i] = I.uninit("state of the previous floating base")
                I.m_store(m, a)
        I.write(o, "base", r.links.index(s))
        return True if not fail else fail(I, "setFloatingBase", o)
    if k == "getFloatingBase":
        b = o.d.get("base", r.base)
        if not isinstance(b, int):
            raise Abort("symbolic base")
        return r.links[b]
    if k == "setRobotState":
        rep = kd_rep(I, o)
        t, s, v, sd, g = [mm(I, x) for x in a[:5]]
        if isinstance(t, M):
            raise Abort("matrix base transform")
        if I.shape(s)[0] != r.n or I.shape(sd)[0] != r.n:
            I.event("shape", what="setRobotState with %d joints, %d joint velocities" % (I.shape(s)[0], I.shape(sd)[0]))
            return False
        x = xof(I, t)
        va = I.m_arr(v)
        if rep == MIXED:
            va = amul(blkR(x.R.T.copy()), va)
        elif rep == INERTIAL:
            va = amul(adj(xinv(x)), va)
        I.event("kd_set", obj=o)

        def put():
            I.assign_ent(o.d["T"].d["p"], I.mnew(x.p.copy(), "fix", True))
            I.assign_ent(o.d["T"].d["R"], mm(I, t).d["R"])
            I.m_store(o.d["s"], I.m_arr(s))
            I.m_store(o.d["v"], va)
            I.m_store(o.d["sd"], I.m_arr(sd))
            I.m_store(o.d["g"], I.m_arr(g))
        ok = True if not fail else fail(I, "setRobotState", o)
        if ok is True:
            put()
        else:
            I.under(ok, put)
        return ok
    r, b, x, s, vb, sd = kd_vals(I, o)
    I.event("kd_query", obj=o, what=k)
    if k == "getWorldBaseTransform":
        return tmat(I, x)
    if k == "getWorldTransform":
        f = kd_frame(I, r, a[0])
        return tmat(I, xmul(x, r.frameT(b, f, s)))
    if k == "getRelativeTransform":
        return tmat(I, r.frameT(kd_frame(I, r, a[0]), kd_frame(I, r, a[1]), s))
    if k == "getFrameVel":
        f = kd_frame(I, r, a[0])
        rep = kd_rep(I, o)
        return vec(I, list(amul(rep_mats(rep, xmul(x, r.frameT(b, f, s))), r.twist(f, s, vb, sd, b)).ravel()))
    if k == "getFrameFreeFloatingJacobian":
        f = kd_frame(I, r, a[0])
        rep = kd_rep(I, o)
        J = azero(6, 6 + r.n)
        J[:, :6] = adj(r.frameT(f, b, s))
        J[:, 6:] = r.jrel(b, f, s)
        L = rep_mats(rep, xmul(x, r.frameT(b, f, s)))
        J = amul(L, J)
        J[:, :6] = amul(J[:, :6], minv(rep, x))
        return put_mat(I, a[1], J)
    if k == "getRelativeJacobian":
        f0, f1 = kd_frame(I, r, a[0]), kd_frame(I, r, a[1])
        rep = kd_rep(I, o)
        if rep == MIXED:
            J = amul(blkR(r.frameT(f0, f1, s).R), r.jrel(f0, f1, s))
        elif rep == INERTIAL:
            J = amul(adj(r.frameT(f0, f1, s)), r.jrel(f0, f1, s))
        else:
            J = r.jrel(f0, f1, s)
        return put_mat(I, a[2], J)
    if k == "getCenterOfMassPosition":
        return vec(I, list(aadd(x.p, amul(x.R, r.com_in(b, s))).ravel()))
    if k == "getCenterOfMassJacobian":
        rep = kd_rep(I, o)
        c0 = r.com_in(b, s)
        J = azero(3, 6 + r.n)
        # body-fixed base twist to the world velocity of the centre of mass
        J[:, :3] = x.R
        J[:, 3:6] = aew(T.neg, amul(x.R, skew3(list(c0.ravel()))))
        J[:, 6:] = amul(x.R, r.com_jac(b, s))
        J[:, :6] = amul(J[:, :6], minv(rep, x))
        if rep == BODY:
            J = amul(x.R.T.copy(), J)
        return put_mat(I, a[0], J)
    if k in ("getLinearAngularMomentum", "getLinearAngularMomentumJacobian"):
        rep = kd_rep(I, o)
        W = eye(6) if rep == BODY else (blkR(x.R) if rep == MIXED else adj(x, True))
        if k == "getLinearAngularMomentum":
            return vec(I, list(amul(W, r.momentum(s, vb, sd, b)).ravel()))
        J = amul(W, r.momentum_jac(s, b))
        J[:, :6] = amul(J[:, :6], minv(rep, x))
        return put_mat(I, a[0], J)
    if k == "getCentroidalTotalMomentum":
        h = r.momentum(s, vb, sd, b)
        cm = X(r.com_in(b, s), x.R.T.copy(), None)     # base_X_com with world orientation
        return vec(I, list(amul(adj(xinv(cm), True), h).ravel()))
    if k == "getFreeFloatingMassMatrix":
        rep = kd_rep(I, o)
        H = azero(6 + r.n, 6 + r.n)
        for l in range(len(r.links)):
            J = azero(6, 6 + r.n)
            J[:, :6] = adj(r.frameT(l, b, s))
            J[:, 6:] = r.jrel(b, l, s)
            H = aadd(H, amul(J.T.copy(), amul(r.inert[l], J)))
        if rep != BODY:
            L = eye(6 + r.n)
            L[:6, :6] = minv(rep, x)
            H = amul(L.T.copy(), amul(H, L))
        return put_mat(I, a[0], H)
    return NotImplemented


def minv(rep, x):
    """body base velocity = M * base velocity in the representation"""
    if rep == BODY:
        return eye(6)
    if rep == MIXED:
        return blkR(x.R.T.copy())
    return adj(xinv(x))


def put_mat(I, a, J):
    m = mm(I, a)
    if m.kind != "view":
        I.m_assign(m, I.mnew(J, "dyn", False))
    else:
        I.m_store(m, J)
    return True


# ---------------------------------------------------------------------- arrays and inverse dynamics
ARRAYS = ("iDynTree::LinkWrenches", "iDynTree::LinkVelArray", "iDynTree::LinkAccArray", "iDynTree::LinkNetExternalWrenches", "iDynTree::LinkInternalWrenches",
          "iDynTree::LinkProperAccArray")


def arr_resize(I, o, r):
    old = o.d.get("l")
    if isinstance(old, Lst) and old.d.get("#n") == len(r.links):
        return
    l = Lst("", I.guard)
    for i in range(len(r.links)):
        m = I.mfill(6, 1, lambda i: 0.0, "fix", True)
        m.fresh = False
        l.d[i] = m
    l.d["#n"] = len(r.links)
    l.fresh = False
    I.write(o, "l", l)


def array_call(I, th, a, n, c):
    o = I.rd(th)
    if c.n == "resize":
        v = I.rd(a[0])
        arr_resize(I, o, robot_of(I, v))
        return None
    if c.n == "operator=":
        src = I.rd(a[0])
        if "l" in o.d and "l" in src.d and isinstance(o.d["l"], Lst):
            I.assign_ent(o.d["l"], src.d["l"])
        else:
            I.write(o, "l", I.copy(src.d.get("l")))
        return o
    l = o.d.get("l")
    if c.n == "operator()":
        i = cint(I, a[0])
        if not isinstance(l, Lst) or not 0 <= i < l.d["#n"]:
            I.event("oob", what="link array index %d" % i)
            raise Abort("link array")
        return l.d[i]
    if c.n == "getNrOfLinks":
        return l.d["#n"] if isinstance(l, Lst) else 0
    if c.n == "zero":
        for i in range(l.d["#n"]):
            I.m_store(l.d[i], azero(6, 1))
        return None
    return NotImplemented


def ff_call(I, th, a, n, c):
    """free-floating position, velocity, acceleration, torque containers"""
    o = I.rd(th)
    k = c.n
    if k == "resize":
        r = robot_of(I, a[0])
        for nm in ("b", "j"):
            m = I.mzero(6 if nm == "b" else r.n, 1, "fix" if nm == "b" else "dyn", True)
            m.fresh = False
            I.write(o, nm, m)
        return None
    if k == "operator=":
        src = I.rd(a[0])
        for nm in ("b", "j", "T"):
            if nm in src.d:
                if isinstance(o.d.get(nm), M):
                    I.assign_ent(o.d[nm], src.d[nm])
                else:
                    I.write(o, nm, I.copy(src.d[nm]))
        return o
    if k == "worldBasePos":
        if "T" not in o.d:
            t = tmat(I, xid())
            t.fresh = False
            o.d["T"] = t
        return o.d["T"]
    if k in ("baseVel", "baseAcc", "baseWrench"):
        return ff_slot(I, o, "b")
    if k in ("jointPos", "jointVel", "jointAcc", "jointTorques"):
        return ff_slot(I, o, "j")
    return NotImplemented


def ff_slot(I, o, k):
    m = o.d.get(k)
    if not isinstance(m, M):
        raise Abort("container not sized")
    return m


def arr(I, x):
    o = I.rd(x)
    l = o.d.get("l")
    if not isinstance(l, Lst):
        raise Abort("link array not sized")
    return l


@model("iDynTree::ForwardAccKinematics")
def fwd_acc(I, th, a, n, c):
    r = robot_of(I, a[0])
    _, b = trav(I, a[1])
    pos, vel, acc = I.rd(a[2]), I.rd(a[3]), I.rd(a[4])
    lv, out = arr(I, a[5]), arr(I, a[6])
    s = list(I.m_arr(ff_slot(I, pos, "j")).ravel())
    sd = I.m_arr(ff_slot(I, vel, "j"))
    sdd = I.m_arr(ff_slot(I, acc, "j"))
    A = {}
    for l, p, j in r.traversal(b):
        if p is None:
            A[l] = I.m_arr(ff_slot(I, acc, "b"))
        else:
            S = r.S(j, l, p)
            v = list(I.m_arr(lv.d[l]).ravel())
            A[l] = aadd(amul(adj(r.linkT(l, p, s)), A[p]), aadd(ascale(S, sdd[j, 0]), amul(crm(v), ascale(S, sd[j, 0]))))
        I.m_store(out.d[l], A[l])
    return bool_result(I, "ForwardAccKinematics")


def bool_result(I, what):
    fail = I.opt.get("fail") if hasattr(I, "opt") else None
    return True if not fail else fail(I, what, None)


@model("iDynTree::RNEADynamicPhase")
def rnea(I, th, a, n, c):
    r = robot_of(I, a[0])
    _, b = trav(I, a[1])
    s = list(I.m_arr(mm(I, a[2])).ravel())
    lv, la, ext, out = arr(I, a[3]), arr(I, a[4]), arr(I, a[5]), arr(I, a[6])
    tq = I.rd(a[7])
    order = r.traversal(b)
    F = {}
    for l, p, j in reversed(order):
        v = I.m_arr(lv.d[l])
        f = aadd(amul(r.inert[l], I.m_arr(la.d[l])), amul(crf(list(v.ravel())), amul(r.inert[l], v)))
        f = asub(f, I.m_arr(ext.d[l]))
        for l2, p2, j2 in order:
            if p2 == l:
                f = aadd(f, amul(adj(r.linkT(l, l2, s), True), F[l2]))
        F[l] = f
    for l, p, j in order:
        I.m_store(out.d[l], F[l])
        if p is None:
            I.m_store(ff_slot(I, tq, "b"), F[l])
        else:
            t = amul(r.S(j, l, p).T.copy(), F[l])[0, 0]
            I.assign(I.m_ref(ff_slot(I, tq, "j"), j), t)
    return bool_result(I, "RNEADynamicPhase")


def fresh_obj(kind):
    def f(I, cl, stem):
        return Obj(kind, I.guard)
    return f


for _k, _h in {"iDynTree::Model": model_call, "iDynTree::Traversal": trav_call, "iDynTree::SpatialInertia": inertia_call,
               "iDynTree::KinDynComputations": kindyn_call, "iDynTree::FreeFloatingPos": ff_call, "iDynTree::FreeFloatingVel": ff_call,
               "iDynTree::FreeFloatingAcc": ff_call, "iDynTree::FreeFloatingGeneralizedTorques": ff_call}.items():
    OBJCLS[_k] = _h
    DEFAULTS[_k] = fresh_obj(_k)
for _k in ARRAYS:
    OBJCLS[_k] = array_call
    DEFAULTS[_k] = fresh_obj(_k)
OPAQUE["#link"] = link_call
OPAQUE["#joint"] = joint_call


def sized_ctor(kind):
    def f(I, e, c, cls):
        args = [I.rd(x) for x in I.args(e, c)]
        o = Obj(kind, I.guard)
        if args and isinstance(args[0], Obj) and "robot" in args[0].d:
            OBJCLS[kind](I, o, [args[0]], e, type("C", (), {"n": "resize"})())
        return o
    return f


for _k in ARRAYS + ("iDynTree::FreeFloatingPos", "iDynTree::FreeFloatingVel", "iDynTree::FreeFloatingAcc", "iDynTree::FreeFloatingGeneralizedTorques"):
    CTORS[_k] = sized_ctor(_k)
