// Declarations of the part of matio-cpp the Logger uses (the library itself is not installed here): for parsing only.
#ifndef DPA_MATIOCPP_H
#define DPA_MATIOCPP_H
#include <cstddef>
#include <initializer_list>
#include <string>
#include <unordered_map>
#include <vector>

namespace matioCpp {
struct Logical {
    Logical(bool);
    operator bool() const;
};
class Variable {
public:
    Variable();
    Variable(const Variable&);
    virtual ~Variable();
    Variable& operator=(const Variable&);
    std::string name() const;
};
template <typename T> class Element : public Variable {
public:
    Element(const std::string& name, const T& value);
};
class String : public Variable {
public:
    String(const std::string& name, const std::string& text);
};
template <typename T> class Vector : public Variable {
public:
    template <typename C> Vector(const std::string& name, const C& values);
};
template <typename T> class MultiDimensionalArray : public Variable {
public:
    MultiDimensionalArray();
    MultiDimensionalArray(const std::string& name, const std::vector<std::size_t>& dimensions);
    T* data();
    const T* data() const;
    const std::vector<std::size_t>& dimensions() const;
    T& operator()(const std::vector<std::size_t>& element);
};
class Struct : public Variable {
public:
    explicit Struct(const std::string& name);
    bool setField(const Variable& field);
};
class CellArray : public Variable {
public:
    CellArray(const std::string& name, const std::vector<std::size_t>& dimensions, std::vector<Variable>& elements);
    CellArray(const std::string& name, const std::vector<std::size_t>& dimensions, std::vector<Variable>&& elements);
};
class File {
public:
    static File Create(const std::string& name);
    bool write(const Variable& variable);
    template <typename It> bool write(It begin, It end);
};
}
#endif
