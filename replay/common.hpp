// Bounded search for failing inputs on the real code (used to replay a failed proof obligation; never counted as proof).
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <cmath>
#include <complex>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <queue>
#include <regex>
#include <sstream>
#include <stack>
#include <string>
#include <unordered_map>
#include <unordered_set>
#define private public
#include "dd/Export.hpp"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/Package.hpp"
#undef private
using namespace dd;
using cd  = std::complex<double>;
using Vec = std::vector<cd>;
using Mat = std::vector<Vec>;
struct Found {};
inline std::mt19937_64 rng;
inline long            cases = 0;
inline double          deadline;
inline std::string     ctxinfo;
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline bool   timeup() { return now() > deadline; }
inline unsigned long rnd(unsigned long n) { return n == 0 ? 0 : rng() % n; }
inline double        uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
inline std::string   S(const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
[[noreturn]] inline void fail(const std::string& m) { printf("FAIL %s%s\nCASES %ld\n", m.c_str(), ctxinfo.empty() ? "" : (" -- after: " + ctxinfo.substr(ctxinfo.size() > 1500 ? ctxinfo.size() - 1500 : 0)).c_str(), cases); fflush(stdout); _exit(0); }
inline void check(bool c, const std::string& m) { if (!c) fail(m); }
inline bool near(double a, double b, double t = 1e-8) { return std::abs(a - b) <= t * std::max(1., std::max(std::abs(a), std::abs(b))); }
inline bool near(cd a, cd b, double t = 1e-8) { return std::abs(a - b) <= t * std::max(1., std::max(std::abs(a), std::abs(b))); }
inline std::string s(cd a) { return S("(%.17g,%.17g)", a.real(), a.imag()); }
inline cd cval(const Complex& c) { return {CTEntry::val(c.r), CTEntry::val(c.i)}; }
