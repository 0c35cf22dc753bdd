"""What the planner's kinematic expression factories stand for.

Each factory function DynamicalPlanner::Private::<X>Expression is specified by the
rigid-body quantity it denotes, as a function of the expression variables (joint
positions and velocities, base quaternion, base twist). Consumers of the factories are
analysed against these meanings; the classes behind the factories are compared with the
same meanings separately, one at a time (compositional checking).
"""
import numpy as np

from . import terms as T
from .interp import LE, LVar, Ptr, Abort
from .models import lv_val, le, le_expand, amul, aew, azero, qmul, qrot, aadd
from .kin import col, adj, xinv

NS = "DynamicalPlanner::Private::"
ES = NS + "ExpressionsServer"


class Ideal:
    def __init__(self, world):
        self.w = world
        self.r = world.robot
        self.I = world.I

    def acc(self, es, name):
        f = self.w.P.method(ES, name)
        if not f:
            raise Abort("ExpressionsServer::" + name)
        return lv_val(self.I, self.I.call_fn(f[0], es, []))

    def es(self, x):
        x = self.I.rd(x)
        return x.t if isinstance(x, Ptr) else x

    def frame(self, x):
        n = self.I.rd(x)
        if not isinstance(n, str) or n not in self.r.frames:
            raise Abort("frame %r" % (n,))
        return self.r.frames.index(n)

    def s(self, es):
        return self.acc(es, "jointsPosition")

    def sd(self, es):
        return self.acc(es, "jointsVelocity")

    def base(self):
        return self.r.frames.index(self.basename)

    basename = "root"

    # -------------------------------------------------- quantities as LE
    def AdjointTransformExpression(self, es, a, b):
        es = self.es(es)
        s = self.s(es)
        return LE(adj(self.r.frameT(self.frame(a), self.frame(b), s.atoms)), [s], "Ad")

    def AdjointTransformWrenchExpression(self, es, a, b):
        es = self.es(es)
        s = self.s(es)
        return LE(adj(self.r.frameT(self.frame(a), self.frame(b), s.atoms), True), [s], "AdW")

    def dcol(self, e, v, column, extra=()):
        c = self.I.rd(column)
        out = azero(e.a.shape[0], v.dim)
        for i in range(e.a.shape[0]):
            for j, at in enumerate(v.atoms):
                out[i, j] = T.diff(e.a[i, c], at)
        return LE(out, e.vars | {v}, "d" + e.name)

    def AdjointTransformExpressionJointsDerivative(self, es, a, b, column):
        return self.dcol(self.AdjointTransformExpression(es, a, b), self.s(self.es(es)), column)

    def AdjointTransformWrenchExpressionJointsDerivative(self, es, a, b, column):
        return self.dcol(self.AdjointTransformWrenchExpression(es, a, b), self.s(self.es(es)), column)

    def RelativePositionExpression(self, es, a, b):
        s = self.s(self.es(es))
        return LE(self.r.frameT(self.frame(a), self.frame(b), s.atoms).p, [s], "p")

    def RelativeQuaternionExpression(self, es, a, b):
        s = self.s(self.es(es))
        return LE(col(list(self.r.frameT(self.frame(a), self.frame(b), s.atoms).q)), [s], "q")

    def RelativeLeftJacobianExpression(self, es, a, b):
        s = self.s(self.es(es))
        return LE(self.r.jrel(self.frame(a), self.frame(b), s.atoms), [s], "J")

    def RelativeLeftVelocityExpression(self, es, a, b):
        e = self.es(es)
        s, sd = self.s(e), self.sd(e)
        return LE(amul(self.r.jrel(self.frame(a), self.frame(b), s.atoms), col(sd.atoms)), [s, sd], "V")

    def AbsoluteLeftVelocityExpression(self, es, twist, b):
        e = self.es(es)
        s, sd = self.s(e), self.sd(e)
        tw = le(self.I, lv_val(self.I, twist))
        return LE(self.r.twist(self.frame(b), s.atoms, tw.a, col(sd.atoms), self.base()), tw.vars | {s, sd}, "V_A")

    def AbsoluteLeftVelocityJointsDerivativeExpression(self, es, twist, b):
        return self.dcol(self.AbsoluteLeftVelocityExpression(es, twist, b), self.s(self.es(es)), 0)

    def CoMInBaseExpression(self, es):
        s = self.s(self.es(es))
        return LE(self.r.com_in(self.base(), s.atoms), [s], "com")

    def com_jac(self, es):
        s = self.s(self.es(es))
        return LE(self.r.com_jac(self.base(), s.atoms), [s], "Jcom")

    def CoMInBaseJointsDoubleDerivative(self, es, column):
        return self.dcol(self.com_jac(es), self.s(self.es(es)), column)

    def MomentumInBaseExpression(self, es, twist):
        e = self.es(es)
        s, sd = self.s(e), self.sd(e)
        tw = le(self.I, lv_val(self.I, twist))
        return LE(self.r.momentum(s.atoms, tw.a, col(sd.atoms), self.base()), tw.vars | {s, sd}, "h")

    def MomentumInBaseExpressionJointsDerivativeExpression(self, es, twist):
        return self.dcol(self.MomentumInBaseExpression(es, twist), self.s(self.es(es)), 0)

    def MomentumInBaseExpressionJointsDoubleDerivativeExpression(self, es, twist, column):
        return self.dcol(self.MomentumInBaseExpressionJointsDerivativeExpression(es, twist), self.s(self.es(es)), column)

    def MomentumInBaseExpressionBaseTwistDerivativeExpression(self, es, jac):
        s = self.s(self.es(es))
        J = le(self.I, lv_val(self.I, jac))
        return LE(amul(self.r.crbi(s.atoms, self.base()), J.a), J.vars | {s}, "dh/dtwist")

    def MomentumInBaseBaseTwistJointsDerivativeExpression(self, es, jac, column):
        """derivative of the composite inertia times a column of a Jacobian that does not depend on the joints"""
        s = self.s(self.es(es))
        e = self.MomentumInBaseExpressionBaseTwistDerivativeExpression(es, jac)
        return self.dcol(e, s, column)

    def MomentumInBaseJointsVelocityDerivativeExpression(self, es):
        s = self.s(self.es(es))
        return LE(self.r.momentum_jac(s.atoms, self.base())[:, 6:], [s], "dh/dsdot")

    def QuaternionError(self, frame, es, desired):
        e = self.es(es)
        s, q = self.s(e), self.acc(e, "normalizedBaseQuaternion")
        d = lv_val(self.I, desired)
        qn = le(self.I, q)
        rel = self.r.frameT(self.base(), self.frame(frame), s.atoms).q
        dq = d.atoms
        nd = None
        inv = (dq[0],) + tuple(T.neg(x) for x in dq[1:])
        out = qmul(qmul(inv, tuple(qn.a.ravel())), rel)
        return LE(col(list(out)), qn.vars | {s, d}, "qerr")


FACTORIES = [n for n in dir(Ideal) if n.endswith("Expression") or n.endswith("Derivative") or n == "QuaternionError"]


def install(world, skip=(), basename="root"):
    """hook the factories; returns the Ideal object"""
    d = Ideal(world)
    d.basename = basename
    I = world.I
    for n in FACTORIES:
        if n in skip or n.startswith("_"):
            continue
        if not world.P.find(NS + n):
            continue

        def h(I, this, args, node, callee, f=getattr(d, n), n=n):
            I.called["ideal:" + n] = I.called.get("ideal:" + n, 0) + 1
            return f(*args)
        I.hooks[NS + n] = h
    return d
