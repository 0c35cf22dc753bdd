// the Logger of the tree, compiled against a stand-in of matio-cpp that keeps what is written
#pragma once
#include <matioCpp/matioCpp.h>
#include "/repo/src/Logger.cpp"
#include <cstdio>

/// whether the column of the saved matrix holds the values
template <class V> bool column(const std::string& name, size_t rows, size_t columns, size_t j, const V& v) {
    auto f = matioCpp::File::kept().find(name);
    if (f == matioCpp::File::kept().end()) { std::printf("%s is missing\n", name.c_str()); return false; }
    auto& m = f->second;
    if (m.dims != std::vector<size_t>({rows, columns})) { std::printf("size of %s\n", name.c_str()); return false; }
    for (size_t i = 0; i < rows; ++i)
        if (!(m.values[i + j * rows] == v(i))) { std::printf("%s, instant %zu: %g\n", name.c_str(), j, m.values[i + j * rows]); return false; }
    return true;
}
