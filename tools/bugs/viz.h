// the Visualizer of the tree, compiled against a recording stand-in of the drawing library; commands are recorded, not run
#pragma once
#include <iDynTree/Visualizer.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <thread>
#include <vector>
inline std::vector<std::string>& commands() { static std::vector<std::string> c; return c; }
inline int recorded(const char* c) { commands().push_back(c); return 0; }
namespace std { using ::recorded; }
#include <DynamicalPlanner/State.h>
#include <DynamicalPlanner/Visualizer.h>
#define system recorded
#include "/repo/src/Visualizer.cpp"
#undef system

inline DynamicalPlanner::State someState(double seed, double time, size_t points = 2) {
    DynamicalPlanner::State s(3, points);
    s.zero();
    for (size_t i = 0; i < 3; ++i) {
        s.jointsConfiguration(i) = seed + 0.1 * i;
        s.comPosition(i) = seed + 10 + i;
    }
    s.worldToBaseTransform.setPosition(iDynTree::Position(seed, seed + 1, seed + 2));
    for (auto* foot : {&s.leftContactPointsState, &s.rightContactPointsState})
        for (size_t p = 0; p < foot->size(); ++p)
            for (size_t i = 0; i < 3; ++i) {
                (*foot)[p].pointPosition(i) = seed + 20 + 3 * p + i + (foot == &s.rightContactPointsState ? 0.5 : 0.0);
                (*foot)[p].pointForce(i) = seed + 40 + 3 * p + i + (foot == &s.rightContactPointsState ? 0.5 : 0.0);
            }
    s.time = time;
    return s;
}

/// whether the scene shows the state
inline bool shows(const iDynTree::Scene& c, const DynamicalPlanner::State& s) {
    bool ok = c.joints.size() == s.jointsConfiguration.size();
    for (size_t i = 0; ok && i < c.joints.size(); ++i) ok = c.joints[i] == s.jointsConfiguration(i);
    for (size_t i = 0; i < 3; ++i) ok = ok && c.base.getPosition()(i) == s.worldToBaseTransform.getPosition()(i);
    ok = ok && c.vectors.size() == s.leftContactPointsState.size() + s.rightContactPointsState.size();
    size_t k = 0;
    for (auto* foot : {&s.leftContactPointsState, &s.rightContactPointsState})
        for (auto& p : *foot) {
            for (size_t i = 0; ok && i < 3; ++i) ok = c.vectors[k].first(i) == p.pointPosition(i) && c.vectors[k].second[i] == p.pointForce(i);
            ++k;
        }
    return ok;
}
