// shared by the demonstrations: a robot, the variables, random points, finite differences
#pragma once
#include <levi/levi.h>
#include <DynamicalPlannerPrivate/Utilities/VariablesLabeller.h>
#include <DynamicalPlannerPrivate/Utilities/TimelySharedKinDynComputations.h>
#include <DynamicalPlannerPrivate/Utilities/ExpressionsServer.h>
#include <DynamicalPlannerPrivate/Utilities/QuaternionUtils.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicSecant.h>
#include <DynamicalPlannerPrivate/Utilities/HyperbolicTangent.h>
#include <DynamicalPlannerPrivate/Constraints.h>
#include <DynamicalPlannerPrivate/Constraints/DynamicalConstraints.h>
#include <DynamicalPlannerPrivate/Costs.h>
#include <iDynTree/Core/EigenHelpers.h>
#include <iDynTree/Core/TestUtils.h>
#include <iDynTree/ModelIO/ModelLoader.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace DynamicalPlanner::Private;
using iDynTree::VectorDynSize;
using iDynTree::MatrixDynSize;

inline iDynTree::Model icub() {
    std::vector<std::string> j({"torso_pitch", "torso_yaw", "l_shoulder_pitch", "l_hip_pitch", "l_hip_roll", "l_hip_yaw", "l_knee", "l_ankle_pitch",
                                "l_ankle_roll", "r_hip_pitch", "r_hip_roll", "r_hip_yaw", "r_knee", "r_ankle_pitch", "r_ankle_roll"});
    iDynTree::ModelLoader l;
    if (!l.loadModelFromFile("/repo/test/data/iCubGenova04.urdf") || !l.loadReducedModelFromFullModel(l.model(), j)) { std::puts("model"); std::exit(3); }
    return l.model();
}

struct Setup {
    VariablesLabeller state, control;
    std::shared_ptr<TimelySharedKinDynComputations> kd;
    std::shared_ptr<ExpressionsServer> es;
    size_t dofs = 0, points;

    Setup(bool kinematics = false, size_t n = 4, const std::vector<double>& timings = {0.0, 1.0}) : points(n) {
        if (kinematics) {
            kd = std::make_shared<TimelySharedKinDynComputations>();
            iDynTree::Model m = icub();
            dofs = m.getNrOfDOFs();
            if (!kd->loadRobotModel(m) || !kd->setTimings(timings)) { std::puts("kinematics"); std::exit(3); }
            es = std::make_shared<ExpressionsServer>(kd);
        } else {
            dofs = 5;
        }
        for (std::string f : {"Left", "Right"})
            for (size_t i = 0; i < n; ++i) {
                state.addLabel(f + "ForcePoint" + std::to_string(i), 3);
                state.addLabel(f + "PositionPoint" + std::to_string(i), 3);
                control.addLabel(f + "VelocityControlPoint" + std::to_string(i), 3);
                control.addLabel(f + "ForceControlPoint" + std::to_string(i), 3);
            }
        state.addLabel("Momentum", 6); state.addLabel("CoMPosition", 3); state.addLabel("BasePosition", 3);
        state.addLabel("BaseQuaternion", 4); state.addLabel("JointsPosition", dofs);
        control.addLabel("BaseLinearVelocity", 3); control.addLabel("BaseQuaternionDerivative", 4); control.addLabel("JointsVelocity", dofs);
    }

    VectorDynSize x(unsigned seed) const {
        std::srand(seed);
        VectorDynSize v(state.size());
        iDynTree::getRandomVector(v, -1.0, 1.0);
        auto r = state.getIndexRange("BaseQuaternion");
        auto q = iDynTree::toEigen(v).segment(r.offset, 4);
        q.normalize();
        return v;
    }
    VectorDynSize u(unsigned seed) const {
        std::srand(seed + 1000);
        VectorDynSize v(control.size());
        iDynTree::getRandomVector(v, -1.0, 1.0);
        return v;
    }
};

inline int failures = 0;
inline void expect(double got, double want, const std::string& what, double tol = 1e-6) {
    if (!(std::abs(got - want) <= tol * (1.0 + std::abs(want)))) {
        if (failures < 10) std::printf("MISMATCH %s: got %.9g, want %.9g\n", what.c_str(), got, want);
        failures++;
    }
}
inline void require(bool ok, const std::string& what) {
    if (!ok) { if (failures < 10) std::printf("FAILED %s\n", what.c_str()); failures++; }
}
inline int report() { std::puts(failures ? "the property is broken" : "ok"); return failures ? 1 : 0; }

// central finite difference of f with respect to entry i of v
inline double fd(const std::function<double(const VectorDynSize&)>& f, VectorDynSize v, unsigned i, double h = 1e-5) {
    double c = v(i);
    v(i) = c + h; double p = f(v);
    v(i) = c - h; double m = f(v);
    return (p - m) / (2 * h);
}
