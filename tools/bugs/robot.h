// states of the robot for the demonstrations of the shared kinematics
#pragma once
#include "common.h"

inline RobotState pose(const iDynTree::Model& m, unsigned seed) {
    std::srand(seed);
    RobotState s;
    s.s.resize(m.getNrOfDOFs()); s.s_dot.resize(m.getNrOfDOFs());
    iDynTree::getRandomVector(s.s, -0.5, 0.5); iDynTree::getRandomVector(s.s_dot, -1.0, 1.0);
    iDynTree::getRandomVector(s.base_position, -1.0, 1.0); iDynTree::getRandomVector(s.base_linearVelocity, -1.0, 1.0);
    iDynTree::getRandomVector(s.base_quaternion, -1.0, 1.0); iDynTree::getRandomVector(s.base_quaternionVelocity, -1.0, 1.0);
    iDynTree::toEigen(s.base_quaternion).normalize();
    auto q = iDynTree::toEigen(s.base_quaternion);
    auto v = iDynTree::toEigen(s.base_quaternionVelocity);
    v -= q * q.dot(v);
    return s;
}

inline std::string linkOf(const iDynTree::Model& m, const std::string& frame) { return m.getLinkName(m.getFrameLink(m.getFrameIndex(frame))); }
