#pragma once
#include <fstream>
#include <iterator>
#include <string>
namespace folly {
template <class C> bool readFile(const char* f, C& out) { std::ifstream i(f, std::ios::binary); if (!i) return false; out.assign(std::istreambuf_iterator<char>(i), {}); return true; }
template <class C> bool writeFile(const C& c, const char* f) { std::ofstream o(f, std::ios::binary); o.write(c.data(), c.size()); return (bool)o; }
}
