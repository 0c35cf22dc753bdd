// stands in for the drawing library: records what would be shown instead of opening a window
#pragma once
#include <iDynTree/Core/Direction.h>
#include <iDynTree/Core/Position.h>
#include <iDynTree/Core/Transform.h>
#include <iDynTree/Core/VectorDynSize.h>
#include <iDynTree/Model/Model.h>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace iDynTree {
inline namespace recording {

struct Scene {
    iDynTree::Transform base;
    std::vector<double> joints;
    std::vector<std::pair<iDynTree::Position, std::vector<double>>> vectors;
    iDynTree::Position camera, target;
};
struct Event {
    std::string what;              // draw, subDraw, area, file
    Scene scene;
    std::string file;
    std::vector<int> area;
};
inline std::vector<Event>& events() { static std::vector<Event> e; return e; }
inline Scene& scene() { static Scene s; return s; }
inline std::map<std::string, std::vector<double>>& lights() { static std::map<std::string, std::vector<double>> l; return l; }
inline std::map<std::string, bool>& elements() { static std::map<std::string, bool> l; return l; }
inline std::map<std::string, bool>& labels() { static std::map<std::string, bool> l; return l; }

inline void happened(const std::string& what, const std::string& file = "", const std::vector<int>& area = {}) { events().push_back({what, scene(), file, area}); }

struct VisualizerOptions { bool verbose = false; int winWidth = 800, winHeight = 600; double rootFrameArrowsDimension = 1.0; };

struct ILight {
    std::string name;
    void setDirection(const Direction& d) { lights()[name] = {d(0), d(1), d(2)}; }
};
struct IEnvironment {
    std::string where;
    ILight sun;
    IEnvironment(const std::string& w) : where(w) {}
    ILight& lightViz(const std::string& n) { sun.name = where + ":" + n; return sun; }
    bool setElementVisibility(const std::string n, bool on) { elements()[where + ":" + n] = on; return true; }
};
struct ICamera {
    void setPosition(const Position& p) { scene().camera = p; }
    void setTarget(const Position& p) { scene().target = p; }
};
struct IVectorsVisualization {
    template <class F> std::pair<Position, std::vector<double>> entry(const Position& p, const F& f) { return {p, {f(0), f(1), f(2)}}; }
    size_t getNrOfVectors() const { return scene().vectors.size(); }
    template <class F> size_t addVector(const Position& p, const F& f) { scene().vectors.push_back(entry(p, f)); return scene().vectors.size() - 1; }
    template <class F> bool updateVector(size_t i, const Position& p, const F& f) { if (i >= scene().vectors.size()) return false; scene().vectors[i] = entry(p, f); return true; }
    bool setVectorsAspect(double, double, double) { return true; }
};
struct IModelVisualization {
    bool setPositions(const Transform& t, const VectorDynSize& q) {
        scene().base = t;
        scene().joints.assign(q.data(), q.data() + q.size());
        return true;
    }
};
struct ILabel {
    std::string name;
    void setText(const std::string&) {}
    void setPosition(const Position&) {}
    void setVisible(bool on) { labels()[name] = on; }
};
struct ITexture {
    IEnvironment env{"texture"};
    IEnvironment& environment() { return env; }
    int width() const { return 1920; }
    int height() const { return 1080; }
    bool setSubDrawArea(int x, int y, int w, int h) { happened("area", "", {x, y, w, h}); return true; }
    bool drawToFile(const std::string& f) { happened("file", f); return true; }
};
struct ITexturesHandler {
    std::map<std::string, ITexture> all;
    ITexture* add(const std::string& n, const VisualizerOptions& = VisualizerOptions()) { return &all[n]; }
    ITexture* get(const std::string& n) { return &all[n]; }
};
struct Visualizer {
    size_t models = 0;
    ICamera cam;
    IEnvironment env{"window"};
    IVectorsVisualization vec;
    ITexturesHandler tex;
    IModelVisualization mod;
    std::map<std::string, ILabel> lab;
    bool init(const VisualizerOptions = VisualizerOptions()) { return true; }
    size_t getNrOfVisualizedModels() { return models; }
    bool addModel(const Model&, const std::string&) { ++models; return true; }
    IModelVisualization& modelViz(size_t) { return mod; }
    IModelVisualization& modelViz(const std::string&) { return mod; }
    ICamera& camera() { return cam; }
    IEnvironment& environment() { return env; }
    IEnvironment& enviroment() { return env; }
    IVectorsVisualization& vectors() { return vec; }
    ITexturesHandler& textures() { return tex; }
    ILabel& getLabel(const std::string& n) { lab[n].name = n; return lab[n]; }
    int width() const { return 1600; }
    int height() const { return 900; }
    bool run() { return true; }
    bool isWindowActive() const { return true; }
    void draw() { happened("draw"); }
    void subDraw(int x, int y, int w, int h) { happened("subDraw", "", {x, y, w, h}); }
    bool drawToFile(const std::string f) { happened("window file", f); return true; }
    void close() {}
};
}
}
