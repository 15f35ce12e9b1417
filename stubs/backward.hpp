// stand-in for the stack trace printer: keeps log lines cheap in the harnesses
#pragma once
#include <ostream>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <map>
#include <memory>
#include <iomanip>
namespace backward {
struct StackTrace { void load_here(size_t = 32) {} };
namespace ColorMode { enum type { automatic, never, always }; }
struct Printer { bool object = false, address = false, snippet = false; ColorMode::type color_mode = ColorMode::never; template<class T> std::ostream &print(T &, std::ostream &o) { return o; } };
}
