// a solver whose optimiser only looks at the problem it is handed
#pragma once
#include "common.h"
#include <DynamicalPlanner/Solver.h>
#include <iDynTree/Optimizer.h>
#include <iDynTree/OptimizationProblem.h>

struct Probe : iDynTree::optimization::Optimizer {
    std::function<bool(iDynTree::optimization::OptimizationProblem&, VectorDynSize& guess)> look;
    VectorDynSize primal;
    int runs = 0;
    bool isAvailable() const override { return true; }
    bool solve() override {
        ++runs;
        if (!m_problem || !m_problem->prepare()) return false;
        VectorDynSize g(m_problem->numberOfVariables());
        g.zero();
        m_problem->getGuess(g);
        bool ok = look ? look(*m_problem, g) : true;
        primal = g;
        return ok;
    }
    bool getPrimalVariables(VectorDynSize& x) override { x = primal; return true; }
    double minusInfinity() override { return -1e19; }
    double plusInfinity() override { return 1e19; }
};

inline DynamicalPlanner::SettingsStruct plain() {
    DynamicalPlanner::SettingsStruct s = DynamicalPlanner::Settings::Defaults(icub());
    s.horizon = 0.3;
    s.minimumDt = 0.01; s.maximumDt = 0.1; s.controlPeriod = 0.1;
    s.comCostActive = s.comVelocityCostActive = s.frameCostActive = s.forceMeanCostActive = s.forceRatioCostActive = false;
    s.jointsRegularizationCostActive = s.jointsVelocityCostActive = s.staticTorquesCostActive = s.forceDerivativeCostActive = false;
    s.pointAccelerationCostActive = s.swingCostActive = s.phantomForcesCostActive = s.meanPointPositionCostActive = false;
    s.leftFootYawCostActive = s.rightFootYawCostActive = s.feetDistanceCostActive = s.jointsVelocityForPosturalCostActive = false;
    s.complementarityCostActive = s.basePositionCostActive = s.frameAngularVelocityCostActive = s.baseQuaternionCostActive = false;
    s.baseLinearVelocityCostActive = s.baseQuaternionVelocityCostActive = s.angularMomentumCostActive = false;
    s.constrainTargetCoMPosition = false;
    return s;
}

struct ControlLine : DynamicalPlanner::TimeVaryingControl {
    DynamicalPlanner::Control c;
    const DynamicalPlanner::Control& get(double, bool& valid) override { valid = true; return c; }
};
struct StateLine : DynamicalPlanner::TimeVaryingState {
    DynamicalPlanner::State s;
    const DynamicalPlanner::State& get(double, bool& valid) override { valid = true; return s; }
};
