// Random programs over one package, every operation checked against dense linear algebra on the operands.
// Dense values are read by an own traversal (dense()), not by the package's readers.
#pragma once
#include "common.hpp"
constexpr double EPS = 1e-7;
inline double maxabs(const Vec& v) { double m = 0; for (auto& x: v) m = std::max(m, std::abs(x)); return m; }
inline double maxabs(const Mat& a) { double m = 0; for (auto& r: a) m = std::max(m, maxabs(r)); return m; }
inline bool close(const Vec& a, const Vec& b, double sc) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); i++) if (!(std::abs(a[i] - b[i]) <= EPS * std::max(1., sc))) return false; return true; }
inline bool close(const Mat& a, const Mat& b, double sc) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); i++) if (!close(a[i], b[i], sc)) return false; return true; }
inline Mat zeros(std::size_t n, std::size_t m) { return Mat(n, Vec(m)); }
inline Mat eye(std::size_t n) { Mat a = zeros(n, n); for (std::size_t i = 0; i < n; i++) a[i][i] = 1; return a; }
inline Mat mul(const Mat& a, const Mat& b) { std::size_t n = a.size(), k = b.size(), m = b[0].size(); Mat c = zeros(n, m); for (std::size_t i = 0; i < n; i++) for (std::size_t l = 0; l < k; l++) for (std::size_t j = 0; j < m; j++) c[i][j] += a[i][l] * b[l][j]; return c; }
inline Vec mul(const Mat& a, const Vec& b) { Vec c(a.size()); for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < b.size(); j++) c[i] += a[i][j] * b[j]; return c; }
inline Vec plus(Vec a, const Vec& b) { for (std::size_t i = 0; i < a.size(); i++) a[i] += b[i]; return a; }
inline Mat plus(Mat a, const Mat& b) { for (std::size_t i = 0; i < a.size(); i++) a[i] = plus(a[i], b[i]); return a; }
inline Vec kron(const Vec& a, const Vec& b) { Vec c; for (auto x: a) for (auto y: b) c.push_back(x * y); return c; }
inline Mat kron(const Mat& a, const Mat& b) { std::size_t n = a.size(), m = b.size(); Mat c = zeros(n * m, n * m); for (std::size_t i = 0; i < n; i++) for (std::size_t j = 0; j < n; j++) for (std::size_t k = 0; k < m; k++) for (std::size_t l = 0; l < m; l++) c[i * m + k][j * m + l] = a[i][j] * b[k][l]; return c; }
inline Mat transp(const Mat& a, bool cj) { Mat c = zeros(a.size(), a.size()); for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < a.size(); j++) c[j][i] = cj ? std::conj(a[i][j]) : a[i][j]; return c; }
inline std::string show(const Vec& v) { std::string r = "["; for (auto& x: v) r += S("%.6g%+.6gi ", x.real(), x.imag()); return r + "]"; }
inline std::string show(const Mat& v) { std::string r = "["; for (auto& x: v) r += show(x); return r + "]"; }

// dense contents of a diagram with k levels, lowest level lo; complains about malformed level structure
inline Vec dense(const vEdge& e, int k, int lo = 0) {
    Vec r(1UL << k);
    if (e.w.r == Complex::zero.r && e.w.i == Complex::zero.i && vNode::isTerminal(e.p)) return r;
    check(e.p != nullptr, "an edge without node is reachable");
    const cd w = cval(e.w);
    if (k == 0) { check(vNode::isTerminal(e.p), "a node below the lowest level is reachable"); r[0] = w; return r; }
    check(!vNode::isTerminal(e.p) && e.p->v == lo + k - 1, S("edge at level %d leads to a node of level %d", lo + k - 1, static_cast<int>(e.p->v)));
    for (int i = 0; i < 2; i++) { Vec s = dense(e.p->e[i], k - 1, lo); for (std::size_t j = 0; j < s.size(); j++) r[i * s.size() + j] = w * s[j]; }
    return r;
}
inline Mat dense(const mEdge& e, int k, int lo = 0) {
    const std::size_t N = 1UL << k;
    Mat r = zeros(N, N);
    if (e.w.r == Complex::zero.r && e.w.i == Complex::zero.i && mNode::isTerminal(e.p)) return r;
    check(e.p != nullptr, "an edge without node is reachable");
    const cd w = cval(e.w);
    if (k == 0) { check(mNode::isTerminal(e.p), "a node below the lowest level is reachable"); r[0][0] = w; return r; }
    check(!mNode::isTerminal(e.p) && e.p->v == lo + k - 1, S("edge at level %d leads to a node of level %d", lo + k - 1, static_cast<int>(e.p->v)));
    for (int i = 0; i < 4; i++) { Mat s = dense(e.p->e[i], k - 1, lo); for (std::size_t a = 0; a < N / 2; a++) for (std::size_t b = 0; b < N / 2; b++) r[(i / 2) * (N / 2) + a][(i % 2) * (N / 2) + b] = w * s[a][b]; }
    return r;
}
// ------------------------------------------------------------------ random data
inline cd rval() {
    switch (rnd(8)) {
        case 0: return 1; case 1: return -1; case 2: return {0, 1}; case 3: return {0, -1};
        case 4: return {SQRT2_2, 0}; case 5: return {0.5, 0.5};
        case 6: return {uni(-1, 1), 0};
        default: return {uni(-1, 1), uni(-1, 1)};
    }
}
inline Vec rvec(int k) {
    Vec v(1UL << k); const int mode = rnd(4);
    for (auto& x: v) { if (mode == 0 || rnd(4) >= static_cast<unsigned long>(mode)) x = rval(); }
    if (rnd(3) == 0) { const cd a = rval(), b = rval(); for (auto& x: v) x = rnd(2) ? a : (rnd(2) ? b : cd{0}); }
    if (maxabs(v) < 1e-2) v[rnd(v.size())] = 1;
    return v;
}
inline Vec unit(Vec v) { double n = 0; for (auto& x: v) n += std::norm(x); n = std::sqrt(n); for (auto& x: v) x /= n; return v; }
inline Mat rmat(int k) {
    const std::size_t N = 1UL << k; Mat a = zeros(N, N);
    switch (rnd(6)) {
        case 0: a = eye(N); if (rnd(2)) a[rnd(N)][rnd(N)] = rval(); break;
        case 1: for (std::size_t i = 0; i < N; i++) a[i][i] = rval(); break;
        case 2: for (std::size_t i = 0; i < N; i++) for (std::size_t j = 0; j <= i; j++) a[i][j] = a[j][i] = rnd(3) ? rval() : cd{0}; break;
        case 3: for (auto& r: a) r = rvec(k); break;
        case 4: { const cd x = rval(), y = rval(); for (auto& r: a) for (auto& z: r) z = rnd(2) ? x : (rnd(2) ? y : cd{0}); break; }
        default: if (k > 0) a = kron(rmat(1), rmat(k - 1)); else a[0][0] = rval();
    }
    if (maxabs(a) < 1e-2) a[rnd(N)][rnd(N)] = 1;
    return a;
}
inline GateMatrix rgate() {
    auto c = [](cd x) { return ComplexValue{x.real(), x.imag()}; };
    switch (rnd(8)) {
        case 0: return Xmat; case 1: return Hmat; case 2: return Zmat; case 3: return Smat; case 4: return Ymat;
        case 5: return RYmat(uni(-3, 3));
        case 6: return GateMatrix{c(rval()), c(0), c(0), c(rval())};
        default: return GateMatrix{c(rval()), c(rnd(2) ? rval() : cd{0}), c(rnd(2) ? rval() : cd{0}), c(rval())};
    }
}
inline Mat gmat(const GateMatrix& g) { Mat m = zeros(2, 2); for (int i = 0; i < 4; i++) m[i / 2][i % 2] = {g[i].r, g[i].i}; return m; }

// ------------------------------------------------------------------ the package under test
struct World {
    std::unique_ptr<Package<>> dd; int n;
    std::vector<vEdge> vs; std::vector<mEdge> ms; // acquired, n levels
    explicit World(int n_): dd(new Package<>(static_cast<std::size_t>(n_))), n(n_) { ctxinfo.clear(); note(S("package of %d qubits", n)); }
    void note(const std::string& t) { ctxinfo += t + "; "; if (ctxinfo.size() > 6000) ctxinfo.erase(0, 3000); }
    vEdge rv(int k) { // a fresh state diagram with k levels
        switch (rnd(3)) {
            case 0: { std::vector<bool> b; for (int i = 0; i < k; i++) b.push_back(rnd(2)); note("basis state"); return dd->makeBasisState(static_cast<QubitCount>(k), b); }
            default: { Vec v = rvec(k); note("state " + (k < 4 ? show(v) : S("of %d", k))); return dd->makeStateFromVector(v); }
        }
    }
    Controls rctl(int lo, int k, int target) { Controls c; for (int q = lo; q < lo + k; q++) if (q != target && rnd(3) == 0) c.insert(Control{static_cast<Qubit>(q), rnd(2) ? Control::Type::pos : Control::Type::neg}); return c; }
    mEdge rm(int k) {
        switch (rnd(5)) {
            case 0: note("identity"); return dd->makeIdent(static_cast<QubitCount>(k));
            case 1: if (k > 0) { const int t = rnd(k); note(S("gate on %d", t)); return dd->makeGateDD(rgate(), static_cast<QubitCount>(k), rctl(0, k, t), static_cast<Qubit>(t)); } [[fallthrough]];
            default: { Mat a = rmat(k); note("matrix " + (k < 3 ? show(a) : S("of %d", k))); return dd->makeDDFromMatrix(a); }
        }
    }
    void keep(const vEdge& e) { dd->incRef(e); vs.push_back(e); if (vs.size() > 10) { const auto i = rnd(vs.size()); dd->decRef(vs[i]); vs.erase(vs.begin() + i); } }
    void keep(const mEdge& e) { dd->incRef(e); ms.push_back(e); if (ms.size() > 10) { const auto i = rnd(ms.size()); dd->decRef(ms[i]); ms.erase(ms.begin() + i); } }
    void offer(const vEdge& e) { const double m = maxabs(dense(e, n)); if (m > 1e-2 && m < 50) keep(e); }
    void offer(const mEdge& e) { const double m = maxabs(dense(e, n)); if (m > 1e-2 && m < 50) keep(e); }
    vEdge v() { if (vs.empty() || rnd(5) == 0) keep(rv(n)); return vs[rnd(vs.size())]; }
    mEdge m() { if (ms.empty() || rnd(5) == 0) keep(rm(n)); return ms[rnd(ms.size())]; }
    void gc() { note("collect"); dd->garbageCollect(true); }
};
// every check around one operation: result, operands, scratch numbers
template<class F> auto guarded(World& w, const char* what, F f) {
    const auto before = w.dd->cn.cacheCount();
    auto r = f();
    check(w.dd->cn.cacheCount() == before, S("%s: scratch numbers in use before %zu, after %zu", what, static_cast<std::size_t>(before), static_cast<std::size_t>(w.dd->cn.cacheCount())));
    ++cases;
    return r;
}
template<class D> void same(const D& got, const D& want, const std::string& what, double sc = 1) { if (!close(got, want, sc)) fail(what + ": got " + show(got).substr(0, 700) + " expected " + show(want).substr(0, 700)); }

inline void opAdd(World& w) {
    if (rnd(2)) { auto a = w.v(), b = w.v(); auto da = dense(a, w.n), db = dense(b, w.n); w.note("add states"); auto r = guarded(w, "add", [&] { return w.dd->add(a, b); }); same(dense(r, w.n), plus(da, db), "sum of state diagrams", maxabs(da) + maxabs(db)); same(dense(a, w.n), da, "operand of add"); same(dense(b, w.n), db, "operand of add"); w.offer(r); }
    else { auto a = w.m(), b = w.m(); auto da = dense(a, w.n), db = dense(b, w.n); w.note("add matrices"); auto r = guarded(w, "add", [&] { return w.dd->add(a, b); }); same(dense(r, w.n), plus(da, db), "sum of matrix diagrams", maxabs(da) + maxabs(db)); same(dense(a, w.n), da, "operand of add"); same(dense(b, w.n), db, "operand of add"); w.offer(r); }
}
inline void opMul(World& w) {
    if (rnd(2)) { auto a = w.m(); auto b = w.v(); auto da = dense(a, w.n); auto db = dense(b, w.n); w.note("multiply matrix and state"); auto r = guarded(w, "multiply", [&] { return w.dd->multiply(a, b); }); same(dense(r, w.n), mul(da, db), "product of a matrix and a state diagram", 4 * maxabs(da) * maxabs(db)); same(dense(a, w.n), da, "operand of multiply"); same(dense(b, w.n), db, "operand of multiply"); w.offer(r); }
    else { auto a = w.m(), b = w.m(); auto da = dense(a, w.n), db = dense(b, w.n); w.note("multiply matrices"); auto r = guarded(w, "multiply", [&] { return w.dd->multiply(a, b); }); same(dense(r, w.n), mul(da, db), "product of matrix diagrams", 4 * maxabs(da) * maxabs(db)); same(dense(a, w.n), da, "operand of multiply"); same(dense(b, w.n), db, "operand of multiply"); w.offer(r); }
}
inline void opKron(World& w) {
    const int k = static_cast<int>(rnd(w.n + 1)), l = w.n - k;
    switch (rnd(3)) {
        case 0: { auto a = w.rv(k), b = w.rv(l); auto da = dense(a, k), db = dense(b, l); w.note(S("kronecker of states with %d and %d levels", k, l)); auto r = guarded(w, "kronecker", [&] { return w.dd->kronecker(a, b); }); same(dense(r, w.n), kron(da, db), "Kronecker product of states", maxabs(da) * maxabs(db)); w.offer(r); break; }
        case 1: { auto a = w.rm(k), b = w.rm(l); if (rnd(3) == 0 && k > 0) { a.w = w.dd->cn.lookup(rval()); } auto da = dense(a, k), db = dense(b, l); w.note(S("kronecker of matrices with %d and %d levels", k, l)); auto r = guarded(w, "kronecker", [&] { return w.dd->kronecker(a, b); }); same(dense(r, w.n), kron(da, db), "Kronecker product of matrices", maxabs(da) * maxabs(db)); w.offer(r); break; }
        default: { const int h = static_cast<int>(rnd(w.n)), lo = static_cast<int>(rnd(w.n - h)), mid = w.n - h - lo; auto a = w.rm(mid); auto da = dense(a, mid); w.note(S("extend by %d above and %d below", h, lo)); auto r = guarded(w, "extend", [&] { return w.dd->extend(a, static_cast<Qubit>(h), static_cast<Qubit>(lo)); }); same(dense(r, w.n), kron(eye(1UL << h), kron(da, eye(1UL << lo))), "extension by identities", maxabs(da)); w.offer(r); }
    }
}
inline void opTransp(World& w) {
    auto a = w.m(); auto da = dense(a, w.n); const bool c = rnd(2);
    w.note(c ? "conjugate transpose" : "transpose");
    auto r = guarded(w, "transpose", [&] { return c ? w.dd->conjugateTranspose(a) : w.dd->transpose(a); });
    same(dense(r, w.n), transp(da, c), c ? "conjugate transpose" : "transpose", maxabs(da)); same(dense(a, w.n), da, "operand of transpose"); w.offer(r);
}
inline void flagScan(World& w) {
    for (auto& t: w.dd->mUniqueTable.tables) for (auto* b: t) for (auto* p = b; p != nullptr; p = p->next) {
        if (!p->isSymmetric() && !p->isIdentity()) continue;
        int lo = p->v; for (auto* q = p; ; ) { mNode* nx = nullptr; for (auto& e: q->e) if (!mNode::isTerminal(e.p)) nx = e.p; if (nx == nullptr) { lo = q->v; break; } q = nx; }
        const int k = p->v - lo + 1; mEdge e{p, Complex::one}; auto d = dense(e, k, lo);
        if (p->isSymmetric()) same(d, transp(d, false), "node marked symmetric");
        if (p->isIdentity()) same(d, eye(1UL << k), "node marked identity");
        ++cases;
    }
}
inline void opInner(World& w) {
    auto a = w.v(), b = w.v(); auto da = dense(a, w.n), db = dense(b, w.n); cd ip = 0; for (std::size_t i = 0; i < da.size(); i++) ip += std::conj(da[i]) * db[i];
    const double sc = da.size() * maxabs(da) * maxabs(db);
    if (rnd(3) < 2) { w.note("innerProduct"); auto r = guarded(w, "innerProduct", [&] { return w.dd->innerProduct(a, b); }); check(std::abs(cd{r.r, r.i} - ip) <= EPS * std::max(1., sc), "inner product of " + show(da) + " and " + show(db) + ": got " + s(cd{r.r, r.i}) + " expected " + s(ip));
        auto f = guarded(w, "fidelity", [&] { return w.dd->fidelity(a, b); }); check(std::abs(f - std::norm(ip)) <= EPS * std::max(1., sc * sc), S("fidelity: got %.12g expected %.12g", f, std::norm(ip))); }
    else { auto o = w.m(); if (o.w == Complex::zero) return; auto dm = dense(o, w.n); auto x = mul(dm, da); cd ev = 0; for (std::size_t i = 0; i < da.size(); i++) ev += std::conj(da[i]) * x[i]; w.note("expectationValue"); auto r = guarded(w, "expectationValue", [&] { return w.dd->expectationValue(o, a); }); check(std::abs(r - ev.real()) <= EPS * std::max(1., da.size() * da.size() * maxabs(da) * maxabs(da) * maxabs(dm)), S("expectation value: got %.12g expected %.12g", r, ev.real())); }
    same(dense(a, w.n), da, "operand of inner product"); same(dense(b, w.n), db, "operand of inner product");
}
inline void opTrace(World& w) {
    auto a = w.m(); auto da = dense(a, w.n);
    if (rnd(2)) { cd t = 0; for (std::size_t i = 0; i < da.size(); i++) t += da[i][i]; w.note("trace"); auto r = guarded(w, "trace", [&] { return w.dd->trace(a); }); check(std::abs(cd{r.r, r.i} - t) <= EPS * std::max(1., da.size() * maxabs(da)), "trace of " + show(da) + ": got " + s(cd{r.r, r.i}) + " expected " + s(t)); }
    else {
        std::vector<bool> el; int kept = 0; for (int i = 0; i < w.n; i++) { el.push_back(rnd(2)); kept += !el.back(); }
        Mat want = zeros(1UL << kept, 1UL << kept);
        auto split = [&](std::size_t i, std::size_t& in, std::size_t& out) { in = out = 0; int a1 = 0, b1 = 0; for (int q = 0; q < w.n; q++) { const std::size_t bit = (i >> q) & 1; if (el[q]) out |= bit << a1++; else in |= bit << b1++; } };
        for (std::size_t i = 0; i < da.size(); i++) for (std::size_t j = 0; j < da.size(); j++) { std::size_t ii, io, ji, jo; split(i, ii, io); split(j, ji, jo); if (io == jo) want[ii][ji] += da[i][j]; }
        std::string es; for (bool b: el) es += b ? '1' : '0'; w.note("partialTrace " + es);
        auto r = guarded(w, "partialTrace", [&] { return w.dd->partialTrace(a, el); });
        same(dense(r, kept), want, "partial trace of " + show(da).substr(0, 800), da.size() * maxabs(da));
    }
    same(dense(a, w.n), da, "operand of trace");
}
inline Mat controlled(const Mat& g, int lo, int k, const Controls& c, int target) {
    const std::size_t N = 1UL << k; Mat r = zeros(N, N);
    for (std::size_t j = 0; j < N; j++) {
        bool on = true; for (auto& x: c) on = on && (((j >> (x.qubit - lo)) & 1) == (x.type == Control::Type::pos ? 1U : 0U));
        if (!on) { r[j][j] = 1; continue; }
        const std::size_t b = (j >> (target - lo)) & 1, base = j & ~(1UL << (target - lo));
        for (std::size_t i = 0; i < 2; i++) r[base | (i << (target - lo))][j] += g[i][b];
    }
    return r;
}
inline void opGate(World& w) {
    const int lo = static_cast<int>(rnd(w.n)), k = 1 + static_cast<int>(rnd(w.n - lo));
    if (rnd(3) < 2 || k < 2) {
        const int t = lo + static_cast<int>(rnd(k)); auto g = rgate(); auto c = w.rctl(lo, k, t);
        std::string cs; for (auto& x: c) cs += S("%c%d ", x.type == Control::Type::pos ? '+' : '-', static_cast<int>(x.qubit));
        w.note(S("gate n=%d start=%d target=%d controls %s", k, lo, t, cs.c_str()));
        mEdge r;
        if (c.size() == 1 && rnd(2)) r = guarded(w, "makeGateDD", [&] { return w.dd->makeGateDD(g, static_cast<QubitCount>(k), *c.begin(), static_cast<Qubit>(t), static_cast<std::size_t>(lo)); });
        else r = guarded(w, "makeGateDD", [&] { return w.dd->makeGateDD(g, static_cast<QubitCount>(k), c, static_cast<Qubit>(t), static_cast<std::size_t>(lo)); });
        same(dense(r, k, lo), controlled(gmat(g), lo, k, c, t), "gate diagram of " + show(gmat(g)), 2);
        if (k == w.n) w.offer(r);
    } else {
        const int t0 = lo + static_cast<int>(rnd(k)); int t1 = t0; while (t1 == t0) t1 = lo + static_cast<int>(rnd(k));
        TwoQubitGateMatrix g{}; for (auto& row: g) for (auto& x: row) { cd v = rnd(3) ? rval() : cd{0}; x = {v.real(), v.imag()}; }
        w.note(S("two-qubit gate n=%d start=%d targets %d %d", k, lo, t0, t1));
        auto r = guarded(w, "makeTwoQubitGateDD", [&] { return w.dd->makeTwoQubitGateDD(g, static_cast<QubitCount>(k), static_cast<Qubit>(t0), static_cast<Qubit>(t1), static_cast<std::size_t>(lo)); });
        const std::size_t N = 1UL << k; Mat want = zeros(N, N); const std::size_t m0 = 1UL << (t0 - lo), m1 = 1UL << (t1 - lo);
        for (std::size_t j = 0; j < N; j++) { const int col = ((j & m0) ? 2 : 0) + ((j & m1) ? 1 : 0); const std::size_t base = j & ~m0 & ~m1; for (int row = 0; row < 4; row++) want[base | ((row & 2) ? m0 : 0) | ((row & 1) ? m1 : 0)][j] += cd{g[row][col].r, g[row][col].i}; }
        same(dense(r, k, lo), want, "two-qubit gate diagram", 2);
    }
}
template<class F> void mustThrow(const char* what, F f) { try { f(); } catch (const std::exception&) { return; } fail(std::string(what) + " was accepted"); }
inline void opState(World& w) {
    const int lo = static_cast<int>(rnd(w.n)), k = 1 + static_cast<int>(rnd(w.n - lo)); const auto K = static_cast<QubitCount>(k); const auto L = static_cast<std::size_t>(lo);
    switch (rnd(5)) {
        case 0: { w.note(S("zero state n=%d start=%d", k, lo)); auto r = guarded(w, "makeZeroState", [&] { return w.dd->makeZeroState(K, L); }); Vec x(1UL << k); x[0] = 1; same(dense(r, k, lo), x, "zero state"); break; }
        case 1: { std::vector<bool> b; std::size_t idx = 0; for (int i = 0; i < lo + k; i++) { b.push_back(rnd(2)); if (i >= lo && b.back()) idx |= 1UL << (i - lo); }
            w.note(S("basis state %zu n=%d start=%d", idx, k, lo)); auto r = guarded(w, "makeBasisState", [&] { return w.dd->makeBasisState(K, b, L); }); Vec x(1UL << k); x[idx] = 1; same(dense(r, k, lo), x, "basis state"); break; }
        case 2: { std::vector<BasisStates> b; Vec x{1}; const cd h = SQRT2_2; const std::vector<Vec> one{{1, 0}, {0, 1}, {h, h}, {h, -h}, {h, h * cd{0, 1}}, {h, -h * cd{0, 1}}}; std::string d;
            const std::vector<BasisStates> all{BasisStates::zero, BasisStates::one, BasisStates::plus, BasisStates::minus, BasisStates::right, BasisStates::left};
            for (int i = 0; i < lo + k; i++) { const auto c = rnd(6); b.push_back(all[c]); d += static_cast<char>('0' + c); if (i >= lo) x = kron(one[c], x); }
            w.note(S("product state n=%d start=%d ", k, lo) + d); auto r = guarded(w, "makeBasisState", [&] { return w.dd->makeBasisState(K, b, L); }); same(dense(r, k, lo), x, "product state");
            if (lo == 0) { b.resize(static_cast<std::size_t>(k - 1)); mustThrow("a product state with too few qubit states", [&] { w.dd->makeBasisState(K, b, L); }); } break; }
        case 3: { const int q = static_cast<int>(rnd(w.n + 1)); Vec v = rvec(q); w.note("state " + show(v)); auto r = guarded(w, "makeStateFromVector", [&] { return w.dd->makeStateFromVector(v); }); same(dense(r, q), v, "state from vector", maxabs(v)); Vec bad = rvec(2); bad.pop_back(); mustThrow("a state vector of length 3", [&] { w.dd->makeStateFromVector(bad); }); break; }
        default: { const auto big = static_cast<QubitCount>(w.n + 1 - lo); std::vector<bool> b(static_cast<std::size_t>(w.n + 2)); std::vector<BasisStates> c(static_cast<std::size_t>(w.n + 2), BasisStates::plus);
            mustThrow("a zero state with too many qubits", [&] { w.dd->makeZeroState(big, L); }); mustThrow("a basis state with too many qubits", [&] { w.dd->makeBasisState(big, b, L); }); mustThrow("a product state with too many qubits", [&] { w.dd->makeBasisState(big, c, L); }); ++cases; }
    }
}
inline void opRead(World& w) {
    const std::size_t N = 1UL << w.n;
    switch (rnd(7)) {
        case 0: { auto a = w.v(); auto d = dense(a, w.n); const auto i = rnd(N); w.note(S("amplitude %zu", static_cast<std::size_t>(i))); auto r = guarded(w, "getValueByPath", [&] { return w.dd->getValueByPath(a, i); }); check(near(cd{r.r, r.i}, d[i], EPS), S("amplitude %zu of ", static_cast<std::size_t>(i)) + show(d) + ": got " + s(cd{r.r, r.i})); same(dense(a, w.n), d, "read diagram"); break; }
        case 1: { auto a = w.m(); auto d = dense(a, w.n); const auto i = rnd(N), j = rnd(N); auto r = guarded(w, "getValueByPath", [&] { return w.dd->getValueByPath(a, i, j); }); check(near(cd{r.r, r.i}, d[i][j], EPS), S("entry %zu,%zu of ", static_cast<std::size_t>(i), static_cast<std::size_t>(j)) + show(d) + ": got " + s(cd{r.r, r.i})); break; }
        case 2: { auto a = w.m(); auto d = dense(a, w.n); const auto i = rnd(N), j = rnd(N); std::string p; for (int q = 0; q < w.n; q++) p += static_cast<char>('0' + 2 * ((i >> q) & 1) + ((j >> q) & 1)); auto r = guarded(w, "getValueByPath", [&] { return w.dd->getValueByPath(a, p); }); check(near(cd{r.r, r.i}, d[i][j], EPS), "entry by path " + p + " of " + show(d) + ": got " + s(cd{r.r, r.i})); break; }
        case 3: { auto a = w.v(); auto d = dense(a, w.n); const auto i = rnd(N); std::string p; for (int q = 0; q < w.n; q++) p += static_cast<char>('0' + ((i >> q) & 1)); auto r = guarded(w, "getValueByPath", [&] { return w.dd->getValueByPath(a, p); }); check(near(cd{r.r, r.i}, d[i], EPS), "amplitude by path " + p + " of " + show(d) + ": got " + s(cd{r.r, r.i})); break; }
        case 4: { auto a = w.v(); if (a.w == Complex::zero) return; auto d = dense(a, w.n); auto r = guarded(w, "getVector", [&] { return w.dd->getVector(a); }); same(r, d, "getVector", maxabs(d)); break; }
        case 5: { auto a = w.m(); if (a.w == Complex::zero) return; auto d = dense(a, w.n); auto r = guarded(w, "getMatrix", [&] { return w.dd->getMatrix(a); }); same(r, d, "getMatrix", maxabs(d)); break; }
        default: { const int q = static_cast<int>(rnd(w.n + 1)); Mat a = rmat(q); w.note("matrix " + show(a).substr(0, 400)); auto r = guarded(w, "makeDDFromMatrix", [&] { return w.dd->makeDDFromMatrix(a); }); same(dense(r, q), a, "diagram from matrix", maxabs(a));
            Mat bad = rmat(1); bad.push_back(bad[0]); mustThrow("a matrix with three rows", [&] { w.dd->makeDDFromMatrix(bad); }); Mat bad2 = rmat(1); bad2[0].push_back(1); mustThrow("a matrix that is not square", [&] { w.dd->makeDDFromMatrix(bad2); }); }
    }
}
inline void opMeasure(World& w) {
    Vec v = unit(rvec(w.n)); for (auto& x: v) if (std::abs(x) < 1e-3) x = 0; v = unit(v);
    auto e = w.dd->makeStateFromVector(v); w.dd->incRef(e); w.note("state " + show(v)); auto d = dense(e, w.n); const std::size_t N = d.size();
    if (rnd(3) < 2) {
        const int q = static_cast<int>(rnd(w.n)); double p[2] = {0, 0}; for (std::size_t i = 0; i < N; i++) p[(i >> q) & 1] += std::norm(d[i]);
        for (bool norm: {true, false}) { auto r = guarded(w, "determineMeasurementProbabilities", [&] { return w.dd->determineMeasurementProbabilities(e, static_cast<Qubit>(q), norm); }); check(near(r.first, p[0], 1e-6) && near(r.second, p[1], 1e-6), S("measurement probabilities of qubit %d (normalisation assumed: %d): got %.9g %.9g expected %.9g %.9g", q, norm, r.first, r.second, p[0], p[1])); }
        // a state that is not normalised at the root
        auto e2 = e; e2.w = w.dd->cn.lookup(cval(e.w) * 0.5); auto r2 = w.dd->determineMeasurementProbabilities(e2, static_cast<Qubit>(q), false); check(near(r2.first, p[0] / 4, 1e-6) && near(r2.second, p[1] / 4, 1e-6), S("measurement probabilities of a state of norm 1/2 for qubit %d: got %.9g %.9g expected %.9g %.9g", q, r2.first, r2.second, p[0] / 4, p[1] / 4));
        std::mt19937_64 mt(rng()); auto mt2 = mt; auto f = e; w.note(S("measure %d", q)); const char c = guarded(w, "measureOneCollapsing", [&] { return w.dd->measureOneCollapsing(f, static_cast<Qubit>(q), rnd(2) != 0, mt); });
        check(c == '0' || c == '1', S("measurement outcome %d", c)); const int o = c - '0'; check(p[o] > 1e-9, S("outcome %d of probability %.3g was reported", o, p[o]));
        std::uniform_real_distribution<fp> dist(0.0, 1.0L); const double th = dist(mt2); if (std::abs(th - p[0]) > 1e-6) check((th < p[0]) == (o == 0), S("outcome %d although the drawn number %.6g and the probability of 0 is %.6g", o, th, p[0]));
        Vec x = d; for (std::size_t i = 0; i < N; i++) x[i] = (((i >> q) & 1) == static_cast<std::size_t>(o)) ? d[i] / std::sqrt(p[o]) : cd{0};
        same(dense(f, w.n), x, S("state after outcome %d of qubit %d", o, q));
        w.dd->decRef(f);
    } else {
        std::mt19937_64 mt(rng()); const bool col = rnd(2); auto f = e; w.note(col ? "measure all, collapsing" : "measure all"); auto r = guarded(w, "measureAll", [&] { return w.dd->measureAll(f, col, mt); });
        check(static_cast<int>(r.size()) == w.n, "measured string of wrong length: " + r); std::size_t i = 0; for (char c: r) { check(c == '0' || c == '1', "measured string " + r); i = 2 * i + (c - '0'); }
        check(std::abs(d[i]) > 1e-9, "measured string " + r + " has amplitude zero");
        if (col) { Vec x(N); x[i] = 1; same(dense(f, w.n), x, "state after measuring all qubits"); } else same(dense(f, w.n), d, "state after measuring all qubits without collapse");
        w.dd->decRef(f);
    }
}
inline void opSerial(World& w) {
    for (bool bin: {false, true}) {
        if (rnd(2)) { auto a = w.v(); if (a.w == Complex::zero) return; auto d = dense(a, w.n); std::ostringstream o; serialize(a, o, bin); std::istringstream i(o.str()); w.note("serialise state"); auto r = w.dd->deserialize<vNode>(i, bin); same(dense(r, w.n), d, bin ? "state read back (binary)" : "state read back (text)", maxabs(d)); if (bin) check(r.p == a.p && cval(r.w) == cval(a.w), "binary form does not read back as the same edge");
            Package<> other(static_cast<std::size_t>(w.n)); std::istringstream i2(o.str()); same(dense(other.deserialize<vNode>(i2, bin), w.n), d, "state read into another package", maxabs(d)); }
        else { auto a = w.m(); if (a.w == Complex::zero) return; auto d = dense(a, w.n); std::ostringstream o; serialize(a, o, bin); std::istringstream i(o.str()); w.note("serialise matrix"); auto r = w.dd->deserialize<mNode>(i, bin); same(dense(r, w.n), d, bin ? "matrix read back (binary)" : "matrix read back (text)", maxabs(d)); if (bin) check(r.p == a.p && cval(r.w) == cval(a.w), "binary form does not read back as the same edge"); }
        ++cases;
    }
}
inline void opIdent(World& w) {
    const int lo = static_cast<int>(rnd(w.n)), k = 1 + static_cast<int>(rnd(w.n - lo));
    w.note(S("identity %d..%d", lo, lo + k - 1)); auto r = guarded(w, "makeIdent", [&] { return (lo == 0 && rnd(2)) ? w.dd->makeIdent(static_cast<QubitCount>(k)) : w.dd->makeIdent(static_cast<Qubit>(lo), static_cast<Qubit>(lo + k - 1)); });
    check(r.w == Complex::one, "identity with a weight other than one"); same(dense(r, k, lo), eye(1UL << k), "identity diagram");
    if (rnd(4) == 0) { w.note("node store cleared"); w.vs.clear(); w.ms.clear(); if (rnd(2)) w.dd->reset(); else { w.dd->clearUniqueTables(); w.dd->clearComputeTables(); }
        for (auto& e: w.dd->getIdentityTable()) check(e.p == nullptr, "an identity diagram is still stored after the node store was cleared"); }
}
inline void opAncilla(World& w) {
    auto a = w.m(); auto da = dense(a, w.n); std::vector<bool> anc; std::string d; std::size_t mask = 0; for (int i = 0; i < w.n; i++) { anc.push_back(rnd(2)); d += anc.back() ? '1' : '0'; if (anc.back()) mask |= 1UL << i; }
    const bool reg = rnd(2); auto b = a; w.dd->incRef(b); w.note("reduceAncillae " + d + (reg ? "" : " rows"));
    auto r = guarded(w, "reduceAncillae", [&] { return w.dd->reduceAncillae(b, anc, reg); });
    Mat x = da; for (std::size_t i = 0; i < x.size(); i++) for (std::size_t j = 0; j < x.size(); j++) if ((reg ? j : i) & mask) x[i][j] = 0;
    same(dense(r, w.n), x, "ancilla reduction " + d + " of " + show(da).substr(0, 800), maxabs(da)); same(dense(a, w.n), da, "operand of reduceAncillae");
    if (mask == 0) check(r.p == a.p && r.w == a.w, "diagram without ancillae was changed");
    w.dd->decRef(r);
}
// ------------------------------------------------------------------ makeDDNode directly
template<class Node> void normalForm(const Edge<Node>& e) {
    if (Node::isTerminal(e.p)) return;
    constexpr std::size_t N = std::tuple_size_v<decltype(Node::e)>;
    double mx = 0, sum = 0; for (std::size_t i = 0; i < N; i++) { const cd x = cval(e.p->e[i].w); mx = std::max(mx, std::abs(x)); sum += std::norm(x); if (std::abs(x) < 1e-15) check(Node::isTerminal(e.p->e[i].p) && e.p->e[i].w == Complex::zero, "a zero weight does not point to the terminal"); }
    if (N == 2) { check(near(sum, 1, 1e-9), S("weights of a state node have squared norm %.12g", sum)); bool ok = false; for (std::size_t i = 0; i < N; i++) { const cd x = cval(e.p->e[i].w); ok = ok || (std::abs(x) >= mx - 1e-9 && std::abs(x.imag()) < 1e-9 && x.real() > 0); } check(ok, "the larger weight of a state node is not real and positive: " + s(cval(e.p->e[0].w)) + " " + s(cval(e.p->e[1].w))); }
    else { check(mx <= 1 + 1e-9, S("a matrix node has a weight of magnitude %.12g", mx)); bool one = false; for (std::size_t i = 0; i < N; i++) one = one || e.p->e[i].w == Complex::one; check(one, "no weight of a matrix node is one"); }
}
inline void opNode(World& w) {
    const int k = static_cast<int>(rnd(w.n)); const bool cached = rnd(2); auto& cn = w.dd->cn; const auto before = cn.cacheCount();
    auto wt = [&](cd x) { return cached ? (x == cd{0} ? Complex::zero : cn.getCached(x.real(), x.imag())) : cn.lookup(x); };
    if (rnd(2)) { std::array<vEdge, 2> es{}; Vec want; std::string d; vEdge share = w.rv(k);
        for (auto& e: es) { vEdge c = rnd(3) ? w.rv(k) : share; cd x = rnd(4) ? rval() : cd{0}; if (c.w == Complex::zero) x = 0; e = x == cd{0} ? (cached || rnd(2) ? vEdge::zero : vEdge{c.p, cn.lookup(1e-15, 0.)}) : vEdge{c.p, wt(x)}; d += s(x); Vec s1 = dense(vEdge{c.p, Complex::one}, k); for (auto y: s1) want.push_back(x * y); }
        w.note(S("makeDDNode level %d cached %d weights ", k, cached) + d); auto r = w.dd->makeDDNode(static_cast<Qubit>(k), es, cached); same(dense(r, k + 1), want, "state node built from successors", maxabs(want)); normalForm(r);
        if (cached && r.w != Complex::zero) cn.returnToCache(r.w); check(cn.cacheCount() == before, "makeDDNode does not give back its scratch numbers");
    } else { std::array<mEdge, 4> es{}; Mat want = zeros(2UL << k, 2UL << k); std::string d; mEdge share = w.rm(k);
        for (std::size_t q = 0; q < 4; q++) { mEdge c = rnd(3) ? w.rm(k) : share; cd x = rnd(4) ? rval() : cd{0}; if (c.w == Complex::zero) x = 0; es[q] = x == cd{0} ? (cached || rnd(2) ? mEdge::zero : mEdge{c.p, cn.lookup(0., 1e-15)}) : mEdge{c.p, wt(x)}; d += s(x); Mat s1 = dense(mEdge{c.p, Complex::one}, k); for (std::size_t i = 0; i < s1.size(); i++) for (std::size_t j = 0; j < s1.size(); j++) want[(q / 2) * s1.size() + i][(q % 2) * s1.size() + j] = x * s1[i][j]; }
        w.note(S("makeDDNode matrix level %d cached %d weights ", k, cached) + d); auto r = w.dd->makeDDNode(static_cast<Qubit>(k), es, cached); same(dense(r, k + 1), want, "matrix node built from successors", maxabs(want)); normalForm(r);
        if (cached && r.w != Complex::zero) cn.returnToCache(r.w); check(cn.cacheCount() == before, "makeDDNode does not give back its scratch numbers");
    }
    ++cases;
}
using Op = void (*)(World&);
inline void program(std::vector<Op> ops, int nmax = 4, std::vector<Op> fillers = {opAdd, opMul}) {
    while (!timeup()) {
        World w(1 + static_cast<int>(rnd(nmax)));
        const int steps = 10 + static_cast<int>(rnd(80));
        for (int i = 0; i < steps && !timeup(); i++) {
            if (rnd(10) == 0) w.gc();
            else if (rnd(5) == 0 && !fillers.empty()) fillers[rnd(fillers.size())](w);
            else ops[rnd(ops.size())](w);
        }
    }
}
inline void C10() { program({opNode}, 3, {}); }
inline void C11() { program({opAdd}, 5); }
inline void C12() { program({opMul}); }
inline void C13() { program({opKron}); }
inline void C14() { program({opTransp, opTransp, flagScan}); }
inline void C15() { program({opInner}); }
inline void C16() { program({opTrace}); }
inline void C17() { program({opGate}, 5); }
inline void opTooLarge(World& w) {
    const int n = w.n; Vec v(2UL << n, 0); v[rnd(v.size())] = 1; bool thrown = false;
    const int what = static_cast<int>(rnd(4)); w.note(S("state %d for %d qubits in a package of %d", what, n + 1, n));
    try {
        if (what == 0) w.dd->makeStateFromVector(v);
        else if (what == 1) w.dd->makeZeroState(static_cast<QubitCount>(n + 1));
        else if (what == 2) w.dd->makeBasisState(static_cast<QubitCount>(n + 1), std::vector<bool>(n + 1, true));
        else w.dd->makeZeroState(static_cast<QubitCount>(n), 1);
    } catch (const std::exception&) { thrown = true; }
    check(thrown, "a request for more qubits than configured is not rejected"); ++cases;
}
inline void C19() { program({opState, opState, opState, opTooLarge}, 5); }
inline void opDeep(World&) {
    // diagrams of many qubits: products of one-qubit states and gates, entries known in closed form
    static std::unique_ptr<Package<>> dd; if (!dd) dd = std::make_unique<Package<>>(64);
    const int n = 33 + static_cast<int>(rnd(31)); std::vector<bool> b; std::size_t idx = 0;
    for (int q = 0; q < n; q++) { b.push_back(rnd(2)); if (b.back()) idx |= 1ULL << q; }
    const std::size_t other = idx ^ (1ULL << rnd(n)); const int t = static_cast<int>(rnd(n));
    ctxinfo = S("basis state %zu and a gate on %d of ", idx, t) + S("%d qubits", n);
    auto v = dd->makeBasisState(static_cast<QubitCount>(n), b); auto m = dd->makeGateDD(GateMatrix{ComplexValue{0.25, 0}, {0.5, 0}, {0, 0.5}, {-1, 0}}, static_cast<QubitCount>(n), static_cast<Qubit>(t));
    const auto a = dd->getValueByPath(v, idx), z = dd->getValueByPath(v, other);
    check(near(cd{a.r, a.i}, 1, EPS) && near(cd{z.r, z.i}, 0, EPS), S("amplitudes of a basis state of %d qubits", n));
    const std::size_t T = 1ULL << t; const cd want[4] = {{0.25, 0}, {0.5, 0}, {0, 0.5}, {-1, 0}};
    for (std::size_t k = 0; k < 4; k++) { const std::size_t i = (idx & ~T) | (k & 2 ? T : 0), j = (idx & ~T) | (k & 1 ? T : 0); auto e = dd->getValueByPath(m, i, j); check(near(cd{e.r, e.i}, want[k], EPS), S("entry %zu,%zu", i, j) + S(" of a gate on qubit %d of %d: got ", t, n) + s(cd{e.r, e.i})); }
    if ((idx & ~T) != (other & ~T)) { auto e = dd->getValueByPath(m, idx, other); check(near(cd{e.r, e.i}, 0, EPS), "entry off the blocks"); }
    ++cases; if (rnd(20) == 0) dd.reset();
}
inline void C20() { program({opRead, opRead, opRead, opDeep}); }
inline void C21() { program({opMeasure}); }
inline void C22() { program({opSerial}); }
inline void C24() { program({opIdent}, 5); }
inline void C25() { program({opAncilla}); }
