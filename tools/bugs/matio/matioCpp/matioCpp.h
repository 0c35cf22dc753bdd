// stands in for matio-cpp: variables stay in memory, writing them to a file keeps them
#pragma once
#include <cmath>
#include <cstddef>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace matioCpp {
struct Logical {
    bool on;
    Logical(bool b) : on(b) {}
    operator double() const { return on ? 1.0 : 0.0; }
};
struct Variable {
    std::string label, text;
    std::vector<double> values;                 // column by column
    std::vector<std::size_t> dims;
    std::vector<Variable> children;
    std::string name() const { return label; }
    const Variable* field(const std::string& n) const {
        for (auto& c : children) if (c.label == n) return &c;
        return nullptr;
    }
};
template <typename T> struct Element : Variable {
    Element(const std::string& n, const T& v) { label = n; values = {static_cast<double>(v)}; }
};
struct String : Variable {
    String(const std::string& n, const std::string& t) { label = n; text = t; }
};
template <typename T> struct Vector : Variable {
    template <typename C> Vector(const std::string& n, const C& v) { label = n; values.assign(v.data(), v.data() + v.size()); }
};
template <typename T> struct MultiDimensionalArray : Variable {
    MultiDimensionalArray() { dims = {0, 0}; }
    MultiDimensionalArray(const std::string& n, const std::vector<std::size_t>& d) { label = n; dims = d; values.assign(d[0] * d[1], std::nan("")); }
    T* data() { return values.data(); }
    const std::vector<std::size_t>& dimensions() const { return dims; }
    T& operator()(const std::vector<std::size_t>& e) { return values.at(e[0] + e[1] * dims[0]); }
};
struct Struct : Variable {
    explicit Struct(const std::string& n) { label = n; }
    bool setField(const Variable& f) {
        for (auto& c : children) if (c.label == f.label) { c = f; return true; }
        children.push_back(f);
        return true;
    }
};
struct CellArray : Variable {
    CellArray(const std::string& n, const std::vector<std::size_t>& d, const std::vector<Variable>& e) { label = n; dims = d; children = e; }
};
struct File {
    static std::map<std::string, Variable>& kept() { static std::map<std::string, Variable> k; return k; }
    static File Create(const std::string&) { kept().clear(); return File(); }
    bool write(const Variable& v) { kept()[v.label] = v; return true; }
    template <typename It> bool write(It b, It e) { for (; b != e; ++b) write(b->second); return true; }
};
}
