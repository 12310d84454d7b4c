// stand-in for the (absent) demangle submodule
#pragma once
#include <string>
namespace raft { inline std::string demangle(const char *const n) { return std::string(n); } }
