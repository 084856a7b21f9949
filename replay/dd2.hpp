// Node store, reference counts, collection, memo tables, gate matrices, density views.
#pragma once
#include "dd.hpp"
template<class Node> using Stored = std::map<Node*, std::pair<decltype(Node::e), Qubit>>;
template<class Node, class T> Stored<Node> storedNodes(T& t) {
    Stored<Node> r; std::size_t lv = 0;
    for (auto& tab: t.tables) { for (auto* b: tab) { std::size_t len = 0; for (auto* p = b; p != nullptr; p = p->next) { check(!r.count(p) && ++len < 10000000, "a stored node occurs twice in the node store"); check(p->v == static_cast<Qubit>(lv), "a stored node sits at the wrong level"); r[p] = {p->e, p->v}; } } ++lv; }
    check(r.size() == t.nodeCount, S("%zu nodes are stored, the node count is %zu", r.size(), t.nodeCount));
    return r;
}
template<class Node> std::string key(const Node& n) { std::string k; k.append(reinterpret_cast<const char*>(&n.v), sizeof n.v); for (auto& e: n.e) for (const void* p: {static_cast<const void*>(e.p), static_cast<const void*>(e.w.r), static_cast<const void*>(e.w.i)}) k.append(reinterpret_cast<const char*>(&p), sizeof p); return k; }
template<class Node> void noDuplicates(const Stored<Node>& st) { std::map<std::string, Node*> seen; for (auto& [p, c]: st) check(seen.emplace(key(*p), p).second, S("two stored nodes of level %d are structurally equal", static_cast<int>(p->v))); }
template<class Node> void unaltered(const Stored<Node>& a, const Stored<Node>& b) { for (auto& [p, c]: a) { auto it = b.find(p); check(it != b.end(), "a stored node vanished without a collection"); for (std::size_t i = 0; i < c.first.size(); i++) check(c.first[i].p == it->second.first[i].p && c.first[i].w == it->second.first[i].w, "a stored node was altered"); } }
// one table driven directly
template<class Node, class T> void storeIn(World& w, T& t) {
    constexpr std::size_t N = std::tuple_size_v<decltype(Node::e)>;
    std::set<Node*> out; // handed out, not stored
    std::vector<Node*> in; std::map<Node*, int> held;
    for (int q = 0; q < 60 && !timeup(); q++) {
        auto st = storedNodes<Node>(t);
        Node* p = t.getNode(); check(p != nullptr && !st.count(p), "a node handed out as fresh is stored"); check(!out.count(p), "a node handed out as fresh is still in use elsewhere"); check(p->ref == 0, "a fresh node has a reference count");
        p->v = static_cast<Qubit>(in.empty() ? 0 : rnd(w.n));
        if (q > 5 && !in.empty() && rnd(3) == 0) { Node* o = in[rnd(in.size())]; p->v = o->v; p->e = o->e; }
        else {
            std::vector<Node*> below; for (auto* x: in) if (x->v == p->v - 1) below.push_back(x);
            if (below.empty()) p->v = 0;
            for (std::size_t i = 0; i < N; i++) { cd x = rnd(3) ? cd{0.25 * rnd(3), 0.25 * rnd(2)} : cd{0}; if (i == 0) x = 1; if (x == cd{0}) p->e[i] = Edge<Node>::zero; else { p->e[i].w = w.dd->cn.lookup(x); p->e[i].p = p->v == 0 ? Node::terminal : below[rnd(below.size())]; } }
        }
        if constexpr (N == 4) p->flags = 0;
        const auto want = key(*p); Node* eq = nullptr; for (auto& [s2, c]: st) if (key(*s2) == want) eq = s2;
        if (rnd(8) == 0) { out.insert(p); if (out.size() > 5) { t.returnNode(*out.begin()); out.erase(out.begin()); } continue; }
        w.note(S("store a node of level %d", static_cast<int>(p->v)));
        const bool keep = rnd(5) == 0; auto r = t.lookup({p, Complex::one}, keep);
        if (eq != nullptr) { check(r.p == eq, "storing a node equal to a stored node does not yield the stored node"); if (keep) out.insert(p); }
        else { check(r.p == p, "storing a new node does not yield that node"); in.push_back(p); }
        auto st2 = storedNodes<Node>(t); unaltered(st, st2); check(st2.size() == st.size() + (eq == nullptr ? 1 : 0), "storing a node changes the set of stored nodes"); noDuplicates(st2);
        auto again = t.lookup({r.p, Complex::one}); check(again.p == r.p, "a stored node is not found again");
        ++cases;
        if (rnd(12) == 0) {
            const bool force = rnd(3) != 0; const auto was = t.gcLimit; if (rnd(2)) t.gcLimit = 1 + rnd(2 * st2.size() + 2);
            for (auto* x: in) if (x->ref == 0 && rnd(3) == 0) { t.incRef({x, Complex::one}); ++held[x]; } else if (held[x] > 0 && rnd(3) == 0) { t.decRef({x, Complex::one}); --held[x]; }
            auto s0 = storedNodes<Node>(t); std::map<Node*, unsigned> ref; std::size_t dead = 0; for (auto& [p2, c] : s0) { ref[p2] = p2->ref; dead += p2->ref == 0; }
            for (auto* x: in) if (x->ref > 0 && x->ref != std::numeric_limits<RefCount>::max() && rnd(12) == 0) { x->ref = std::numeric_limits<RefCount>::max(); held[x] = 0; w.note("saturate a reference count"); }
            s0 = storedNodes<Node>(t); ref.clear(); dead = 0; for (auto& [p2, c] : s0) { ref[p2] = p2->ref; dead += p2->ref == 0; }
            const bool due = force || t.getNodeCount() >= t.gcLimit; w.note(S("collect (forced %d, limit %zu of %zu)", force, t.gcLimit, s0.size()));
            const auto got = t.garbageCollect(force); auto s1 = storedNodes<Node>(t);
            if (!due) { check(got == 0 && s1.size() == s0.size(), "a collection below the threshold changed the node store"); unaltered(s0, s1); }
            else { check(got == dead, S("collection reports %zu removed nodes, %zu were unreferenced", got, dead)); for (auto& [p2, c]: s0) { check((ref[p2] == 0) == (s1.count(p2) == 0), "a referenced node was removed or an unreferenced one kept"); if (s1.count(p2)) { check(p2->ref == ref[p2], "collection changed a reference count"); for (std::size_t i = 0; i < N; i++) check(c.first[i].p == p2->e[i].p && c.first[i].w == p2->e[i].w, "collection altered a node"); auto r2 = t.lookup({p2, Complex::one}); check(r2.p == p2, "a node is not found any more after collection"); } }
                std::vector<Node*> k; for (auto* x: in) if (s1.count(x)) k.push_back(x); in = k; w.dd->clearComputeTables(); }
            t.gcLimit = was;
        }
    }
}
template<class Node> void store(World& w) { storeIn<Node>(w, w.dd->template getUniqueTable<Node>()); }
// few buckets and small chunks: long chains
template<class Node> void storeSmall(World& w) { UniqueTable<Node, 4, 8> t(static_cast<std::size_t>(w.n)); std::clog.setstate(std::ios::failbit); w.note("table of 4 buckets, chunks of 8 nodes"); storeIn<Node>(w, t); }
inline void storeAll(World& w) { switch (rnd(4)) { case 0: store<vNode>(w); break; case 1: store<mNode>(w); break; case 2: storeSmall<vNode>(w); break; default: storeSmall<mNode>(w); } }
inline void storeScan(World& w) { auto v0 = storedNodes<vNode>(w.dd->vUniqueTable); auto m0 = storedNodes<mNode>(w.dd->mUniqueTable); if (rnd(2)) opMul(w); else opAdd(w); auto v1 = storedNodes<vNode>(w.dd->vUniqueTable); auto m1 = storedNodes<mNode>(w.dd->mUniqueTable); unaltered(v0, v1); unaltered(m0, m1); noDuplicates(v1); noDuplicates(m1); }
inline void C05() { while (!timeup()) { World w(1 + static_cast<int>(rnd(4))); storeAll(w); World u(1 + static_cast<int>(rnd(3))); for (int i = 0; i < 15; i++) storeScan(u); } }
inline void C07() { while (!timeup()) { World w(1 + static_cast<int>(rnd(4))); storeAll(w); storeAll(w); } }
// reference counts recomputed from the external acquisitions
struct Refs {
    World& w; std::map<const void*, unsigned long> num; std::vector<vEdge> va; std::vector<mEdge> ma;
    explicit Refs(World& x): w(x) {}
    template<class Node> void nodes(const std::vector<Edge<Node>>& ext, const Stored<Node>& st, int n) {
        std::map<Node*, unsigned long> want;
        for (auto& e: ext) { ++num[CTEntry::getAlignedPointer(e.w.r)]; ++num[CTEntry::getAlignedPointer(e.w.i)]; ++want[e.p]; }
        // edges from referenced nodes, top level first
        std::map<Node*, bool> live; std::vector<Node*> todo; for (auto& [p, c]: want) if (!Node::isTerminal(p)) todo.push_back(p);
        while (!todo.empty()) { Node* p = todo.back(); todo.pop_back(); if (live[p]) continue; live[p] = true; for (auto& e: p->e) { ++num[CTEntry::getAlignedPointer(e.w.r)]; ++num[CTEntry::getAlignedPointer(e.w.i)]; if (!Node::isTerminal(e.p)) { ++want[e.p]; todo.push_back(e.p); } } }
        std::size_t act = 0;
        for (auto& [p, c]: st) { const auto x = want.count(p) ? want[p] : 0; act += x != 0; check(p->ref == x, S("a node of level %d has reference count %u, it has %lu users", static_cast<int>(p->v), p->ref, x)); }
        for (auto& [p, x]: want) check(Node::isTerminal(p) || st.count(p), "a referenced node is not stored");
        check(w.dd->template getUniqueTable<Node>().getActiveNodeCount() == act, S("%zu nodes are referenced, the active node count is %zu", act, w.dd->template getUniqueTable<Node>().getActiveNodeCount()));
    }
    void audit() {
        num.clear(); nodes<vNode>(va, storedNodes<vNode>(w.dd->vUniqueTable), w.n); nodes<mNode>(ma, storedNodes<mNode>(w.dd->mUniqueTable), w.n);
        for (auto* b: w.dd->cn.complexTable.table) for (auto* p = b; p != nullptr; p = p->next) { if (p == &ComplexTable<>::sqrt2_2 || p->value == 0.5) continue; const auto x = num.count(p) ? num[p] : 0; check(p->refCount == x, S("the number %.17g has reference count %u, it has %lu users", p->value, p->refCount, x)); }
        ++cases;
    }
};
inline void refs() {
    World w(1 + static_cast<int>(rnd(4))); Refs r(w);
    for (int q = 0; q < 60 && !timeup(); q++) {
        switch (rnd(8)) {
            case 0: { auto e = w.rv(w.n); w.note("acquire"); w.dd->incRef(e); r.va.push_back(e); break; }
            case 1: { auto e = w.rm(w.n); w.note("acquire"); w.dd->incRef(e); r.ma.push_back(e); break; }
            case 2: if (!r.va.empty()) { auto e = r.va[rnd(r.va.size())]; w.note("acquire again"); w.dd->incRef(e); r.va.push_back(e); } break;
            case 3: if (!r.ma.empty()) { auto e = r.ma[rnd(r.ma.size())]; w.note("acquire again"); w.dd->incRef(e); r.ma.push_back(e); } break;
            case 4: if (!r.va.empty()) { const auto i = rnd(r.va.size()); w.note("release"); w.dd->decRef(r.va[i]); r.va.erase(r.va.begin() + i); } break;
            case 5: if (!r.ma.empty()) { const auto i = rnd(r.ma.size()); w.note("release"); w.dd->decRef(r.ma[i]); r.ma.erase(r.ma.begin() + i); } break;
            case 6: if (!r.va.empty() && !r.ma.empty()) { auto e = w.dd->multiply(r.ma[rnd(r.ma.size())], r.va[rnd(r.va.size())]); if (rnd(2)) { w.dd->incRef(e); r.va.push_back(e); } } break;
            default: w.gc();
        }
        r.audit();
    }
    // a node nobody holds
    auto e = w.dd->makeZeroState(static_cast<QubitCount>(w.n)); if (e.p->ref == 0) mustThrow("releasing an unreferenced diagram", [&] { w.dd->decRef(e); });
    // saturation
    auto f = w.rm(w.n); if (!mNode::isTerminal(f.p)) { w.dd->incRef(f); const auto mx = std::numeric_limits<RefCount>::max(); f.p->ref = mx; w.dd->decRef(f); check(f.p->ref == mx, "a saturated reference count changed on release"); std::clog.setstate(std::ios::failbit); w.dd->incRef(f); check(f.p->ref == mx, "a saturated reference count changed on acquisition"); }
}
inline void C06() { while (!timeup()) refs(); }
// ------------------------------------------------------------------ package collection and memo tables
struct Alive { std::set<const void*> v, m, d, num; };
inline Alive alive(World& w) {
    Alive a; for (auto& [p, c]: storedNodes<vNode>(w.dd->vUniqueTable)) a.v.insert(p); for (auto& [p, c]: storedNodes<mNode>(w.dd->mUniqueTable)) a.m.insert(p); for (auto& [p, c]: storedNodes<dNode>(w.dd->dUniqueTable)) a.d.insert(p);
    a.v.insert(vNode::terminal); a.m.insert(mNode::terminal); a.d.insert(dNode::terminal); a.num = {&ComplexTable<>::zero, &ComplexTable<>::one, &ComplexTable<>::sqrt2_2};
    for (auto* b: w.dd->cn.complexTable.table) for (auto* p = b; p != nullptr; p = p->next) a.num.insert(p);
    return a;
}
inline const std::set<const void*>& pick(const Alive& a, const vNode*) { return a.v; }
inline const std::set<const void*>& pick(const Alive& a, const mNode*) { return a.m; }
inline const std::set<const void*>& pick(const Alive& a, const dNode*) { return a.d; }
template<class N> bool ok(const Alive& a, const Edge<N>& e) { return e.p == nullptr || (pick(a, e.p).count(e.p) && a.num.count(CTEntry::getAlignedPointer(e.w.r)) && a.num.count(CTEntry::getAlignedPointer(e.w.i))); }
template<class N> bool ok(const Alive& a, const CachedEdge<N>& e) { return e.p == nullptr || pick(a, e.p).count(e.p); }
template<class T> void tableOk(const Alive& a, T& t, const char* name) { for (auto& e: t.getTable()) { if (e.result.p == nullptr) continue; check(ok(a, e.result) && ok(a, e.leftOperand) && ok(a, e.rightOperand), std::string("the memo table ") + name + " refers to a removed node or number"); } }
template<class T> void unaryOk(const Alive& a, T& t, const char* name) { for (auto& e: t.getTable()) { if (e.result.p == nullptr) continue; check(ok(a, e.result) && ok(a, e.operand), std::string("the memo table ") + name + " refers to a removed node or number"); } }
inline void memoAudit(World& w) {
    auto a = alive(w); auto& d = *w.dd;
    tableOk(a, d.vectorAdd, "vectorAdd"); tableOk(a, d.matrixAdd, "matrixAdd"); tableOk(a, d.matrixVectorMultiplication, "matrixVectorMultiplication"); tableOk(a, d.matrixMatrixMultiplication, "matrixMatrixMultiplication");
    tableOk(a, d.vectorInnerProduct, "vectorInnerProduct"); tableOk(a, d.vectorKronecker, "vectorKronecker"); tableOk(a, d.matrixKronecker, "matrixKronecker"); unaryOk(a, d.matrixTranspose, "matrixTranspose"); unaryOk(a, d.conjugateMatrixTranspose, "conjugateMatrixTranspose");
    for (auto& e: d.toffoliTable.getTable()) check(ok(a, e.e), "the Toffoli table refers to a removed node or number");
    for (auto& r: d.stochasticNoiseOperationCache.getTable()) for (auto& e: r) check(ok(a, e), "the stochastic operation table refers to a removed node or number");
    for (auto& e: d.getIdentityTable()) check(ok(a, e), "the identity table refers to a removed node");
    tableOk(a, d.densityAdd, "densityAdd"); tableOk(a, d.densityDensityMultiplication, "densityDensityMultiplication"); unaryOk(a, d.densityNoise, "densityNoise");
}
inline void collect() {
    World w(1 + static_cast<int>(rnd(4)));
    for (int q = 0; q < 40 && !timeup(); q++) {
        static const std::vector<Op> ops{opAdd, opMul, opKron, opTransp, opInner, opIdent, opGate};
        if (rnd(4)) { auto o = ops[rnd(ops.size())]; if (o == opIdent) { const int k = 1 + static_cast<int>(rnd(w.n)); w.note("identity"); w.dd->makeIdent(static_cast<QubitCount>(k)); } else o(w); if (rnd(6) == 0) { auto e = w.rm(w.n); w.dd->toffoliTable.insert(static_cast<QubitCount>(w.n), Controls{}, 0, e); auto f = w.rm(w.n); w.dd->stochasticNoiseOperationCache.insert(0, static_cast<Qubit>(rnd(w.n)), f); }
            if (rnd(6) == 0) { auto e = w.dd->makeZeroDensityOperator(static_cast<QubitCount>(w.n)); w.dd->densityNoise.insert(e, e, {0}); w.dd->densityAdd.insert({e.p, e.w}, {e.p, e.w}, {e.p, e.w}); w.dd->densityDensityMultiplication.insert(e, e, {e.p, e.w}); } continue; }
        auto v0 = storedNodes<vNode>(w.dd->vUniqueTable).size(), m0 = storedNodes<mNode>(w.dd->mUniqueTable).size(), d0 = storedNodes<dNode>(w.dd->dUniqueTable).size(), c0 = w.dd->cn.complexTable.getCount();
        const bool force = rnd(2); if (!force) { if (rnd(2)) w.dd->vUniqueTable.gcLimit = rnd(2 * v0 + 2); if (rnd(2)) w.dd->mUniqueTable.gcLimit = rnd(2 * m0 + 2); if (rnd(2)) w.dd->dUniqueTable.gcLimit = 1 + rnd(2 * d0 + 2); if (rnd(2)) w.dd->cn.complexTable.gcLimit = rnd(2 * c0 + 2); }
        w.note(S("garbageCollect(%d)", force)); const bool r = w.dd->garbageCollect(force);
        const bool removed = storedNodes<vNode>(w.dd->vUniqueTable).size() < v0 || storedNodes<mNode>(w.dd->mUniqueTable).size() < m0 || storedNodes<dNode>(w.dd->dUniqueTable).size() < d0 || w.dd->cn.complexTable.getCount() < c0;
        check(r == removed, S("collection reports %d although it %s something", r, removed ? "removed" : "did not remove")); memoAudit(w); ++cases;
    }
    if (rnd(2)) { w.note("reset"); w.vs.clear(); w.ms.clear(); w.dd->reset(); memoAudit(w); } else { w.note("clearComputeTables"); w.dd->clearComputeTables(); auto* d = w.dd.get(); auto none = [](auto& t, const char* n) { for (auto& e: t.getTable()) check(e.result.p == nullptr, std::string("clearComputeTables leaves an entry in ") + n); };
        none(d->vectorAdd, "vectorAdd"); none(d->matrixAdd, "matrixAdd"); none(d->matrixVectorMultiplication, "matrixVectorMultiplication"); none(d->matrixMatrixMultiplication, "matrixMatrixMultiplication"); none(d->vectorInnerProduct, "vectorInnerProduct"); none(d->vectorKronecker, "vectorKronecker"); none(d->matrixKronecker, "matrixKronecker"); none(d->matrixTranspose, "matrixTranspose"); none(d->conjugateMatrixTranspose, "conjugateMatrixTranspose"); none(d->densityAdd, "densityAdd"); none(d->densityDensityMultiplication, "densityDensityMultiplication"); none(d->densityNoise, "densityNoise"); for (auto& e: d->toffoliTable.getTable()) check(e.e.p == nullptr, "clearComputeTables leaves an entry in toffoliTable"); }
}
inline void C08() { while (!timeup()) collect(); }
// memo tables one by one against a map
template<class T, class MakeKey, class Ins, class Look> void memoTable(const char* name, T& t, MakeKey mk, Ins ins, Look look, int keys) {
    using K = decltype(mk()); std::vector<K> ks; std::map<int, int> model; std::string h = std::string(name) + ": ";
    for (int i = 0; i < keys; i++) { K k = mk(); bool dup = false; for (auto& o: ks) dup = dup || o == k; if (!dup) ks.push_back(k); }
    for (int q = 0; q < 200; q++) {
        const int i = static_cast<int>(rnd(ks.size()));
        switch (rnd(12)) {
            case 0: case 1: case 2: case 3: { const int v = 1 + static_cast<int>(rnd(1000)); h += S("insert key %d result %d; ", i, v); ctxinfo = h; ins(ks[i], v); model[i] = v; check(look(ks[i]) == v, "an inserted result is not found by the next lookup"); break; }
            case 4: if (rnd(4) == 0) { h += "clear; "; ctxinfo = h; t.clear(); model.clear(); for (auto& k: ks) check(look(k) == 0, "a lookup after clear returns a result"); } break;
            default: { h += S("lookup key %d; ", i); ctxinfo = h; const int v = look(ks[i]); check(v == 0 || (model.count(i) && model[i] == v), S("lookup returns result %d, inserted for these operands was %d", v, model.count(i) ? model[i] : 0)); }
        }
        ++cases;
    }
}
inline void memos() {
    static std::vector<vNode> vn(3000); static std::vector<mNode> mn(3000); static std::vector<dNode> dn(3000);
    static ComplexNumbers cn; 
    auto wv = [] { return ComplexValue{0.25 * rnd(4), 0.25 * rnd(4)}; };
    auto wc = [&] { const auto x = wv(); return cn.lookup(x); };
    const int keys = 2 + static_cast<int>(rnd(40)); const int pool = 1 + static_cast<int>(rnd(4));
    switch (rnd(7)) {
        case 0: { static ComputeTable<vCachedEdge, vCachedEdge, vCachedEdge, 4> t; t.clear(); memoTable("sum table", t, [&] { return std::pair(vCachedEdge(&vn[rnd(pool)], wv()), vCachedEdge(&vn[rnd(pool)], wv())); }, [&](auto& k, int v) { t.insert(k.first, k.second, {&vn[v], ComplexValue{1. * v, 0}}); }, [&](auto& k) { auto r = t.lookup(k.first, k.second); if (r.p != nullptr) check(r.p == &vn[static_cast<int>(r.w.r)], "a result with a weight of another entry"); return r.p == nullptr ? 0 : static_cast<int>(r.p - &vn[0]); }, keys); break; }
        case 1: { static ComputeTable<mEdge, vEdge, vCachedEdge, 8> t; t.clear(); memoTable("product table", t, [&] { return std::pair(mEdge{&mn[rnd(pool)], wc()}, vEdge{&vn[rnd(pool)], wc()}); }, [&](auto& k, int v) { t.insert(k.first, k.second, {&vn[v], ComplexValue{1. * v, 0}}); }, [&](auto& k) { auto r = t.lookup(k.first, k.second); return r.p == nullptr ? 0 : static_cast<int>(r.p - &vn[0]); }, keys); break; }
        case 2: { static UnaryComputeTable<mEdge, mEdge, 4> t; t.clear(); memoTable("transposition table", t, [&] { return mEdge{&mn[rnd(pool)], wc()}; }, [&](auto& k, int v) { t.insert(k, {&mn[v], Complex::one}); }, [&](auto& k) { auto r = t.lookup(k); return r.p == nullptr ? 0 : static_cast<int>(r.p - &mn[0]); }, keys); break; }
        case 3: { static ToffoliTable<mEdge, 4> t; t.clear(); using K = std::tuple<QubitCount, Controls, Qubit>; memoTable("Toffoli table", t, [&] { Controls c; for (int i = 0; i < 4; i++) if (rnd(2)) c.insert(Control{static_cast<Qubit>(i), rnd(2) ? Control::Type::pos : Control::Type::neg}); return K(static_cast<QubitCount>(4 + rnd(2)), c, static_cast<Qubit>(rnd(4))); }, [&](auto& k, int v) { t.insert(std::get<0>(k), std::get<1>(k), std::get<2>(k), {&mn[v], Complex::one}); }, [&](auto& k) { auto r = t.lookup(std::get<0>(k), std::get<1>(k), std::get<2>(k)); return r.p == nullptr ? 0 : static_cast<int>(r.p - &mn[0]); }, keys); break; }
        case 4: { static DensityNoiseTable<dEdge, dEdge, 4> t; t.clear(); memoTable("noise table", t, [&] { std::vector<Qubit> u; for (int i = 0; i < 3; i++) if (rnd(2)) u.push_back(static_cast<Qubit>(rnd(3))); return std::tuple(dEdge{&dn[rnd(pool)], wc()}, u, rnd(3)); }, [&](auto& k, int v) { std::get<0>(k).p->flags = static_cast<std::uint8_t>(std::get<2>(k)); t.insert(std::get<0>(k), {&dn[v], Complex::one}, std::get<1>(k)); }, [&](auto& k) { std::get<0>(k).p->flags = static_cast<std::uint8_t>(std::get<2>(k)); auto r = t.lookup(std::get<0>(k), std::get<1>(k)); std::get<0>(k).p->flags = 0; return r.p == nullptr ? 0 : static_cast<int>(r.p - &dn[0]); }, keys); break; }
        case 5: { static StochasticNoiseOperationTable<mEdge, 6> t(5); t.clear(); memoTable("stochastic operation table", t, [&] { return std::pair(static_cast<std::uint8_t>(rnd(6)), static_cast<Qubit>(rnd(5))); }, [&](auto& k, int v) { t.insert(k.first, k.second, {&mn[v], Complex::one}); }, [&](auto& k) { auto r = t.lookup(k.first, k.second); return r.p == nullptr ? 0 : static_cast<int>(r.p - &mn[0]); }, keys); break; }
        default: { static ComputeTable<dEdge, dEdge, dCachedEdge, 8> t; t.clear(); for (auto& d: dn) d.flags = (static_cast<std::size_t>(&d - &dn[0]) % 2) ? 8 : 0; memoTable("density product table", t, [&] { return std::tuple(dEdge{&dn[rnd(pool)], wc()}, dEdge{&dn[5 + rnd(pool)], wc()}, rnd(3)); }, [&](auto& k, int v) { std::get<0>(k).p->flags = static_cast<std::uint8_t>(std::get<2>(k)); t.insert(std::get<0>(k), std::get<1>(k), {&dn[v], ComplexValue{1, 0}}); }, [&](auto& k) { std::get<0>(k).p->flags = static_cast<std::uint8_t>(std::get<2>(k)); auto a = t.lookup(std::get<0>(k), std::get<1>(k), true), b = t.lookup(std::get<0>(k), std::get<1>(k), false); check(a.p == nullptr || b.p == nullptr, "the same entry is returned as density matrix and as matrix"); check(a.p == nullptr || dNode::isDensityMatrixNode(a.p->flags), "a matrix is returned where a density matrix was asked for"); check(b.p == nullptr || !dNode::isDensityMatrixNode(b.p->flags), "a density matrix is returned where a matrix was asked for"); auto r = a.p ? a : b; std::get<0>(k).p->flags = 0; return r.p == nullptr ? 0 : static_cast<int>(r.p - &dn[0]); }, keys); break; }
    }
}
inline void C09() { while (!timeup()) memos(); }
// ------------------------------------------------------------------ gate matrices
inline void matIs(const char* n, const GateMatrix& g, const std::vector<cd>& w) { for (int i = 0; i < 4; i++) check(std::abs(cd{g[i].r, g[i].i} - w[i]) < 1e-12, S("%s entry %d is ", n, i) + s(cd{g[i].r, g[i].i}) + " instead of " + s(w[i])); ++cases; }
inline void matIs(const char* n, const TwoQubitGateMatrix& g, const Mat& w) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) check(std::abs(cd{g[i][j].r, g[i][j].i} - w[i][j]) < 1e-12, S("%s entry %d,%d is ", n, i, j) + s(cd{g[i][j].r, g[i][j].i}) + " instead of " + s(w[i][j])); ++cases; }
inline void C18() {
    const cd I{0, 1}; const double h = std::sqrt(0.5);
    matIs("I", Imat, {1, 0, 0, 1}); matIs("H", Hmat, {h, h, h, -h}); matIs("X", Xmat, {0, 1, 1, 0}); matIs("Y", Ymat, {0, -I, I, 0}); matIs("Z", Zmat, {1, 0, 0, -1}); matIs("S", Smat, {1, 0, 0, I}); matIs("Sdag", Sdagmat, {1, 0, 0, -I});
    matIs("T", Tmat, {1, 0, 0, std::polar(1., PI / 4)}); matIs("Tdag", Tdagmat, {1, 0, 0, std::polar(1., -PI / 4)}); matIs("SX", SXmat, {.5 + .5 * I, .5 - .5 * I, .5 - .5 * I, .5 + .5 * I}); matIs("SXdag", SXdagmat, {.5 - .5 * I, .5 + .5 * I, .5 + .5 * I, .5 - .5 * I}); matIs("V", Vmat, {h, -I * h, -I * h, h}); matIs("Vdag", Vdagmat, {h, I * h, I * h, h});
    matIs("CX", CXmat, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}, {0, 0, 1, 0}}); matIs("CZ", CZmat, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, -1}}); matIs("SWAP", SWAPmat, {{1, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}}); matIs("iSWAP", iSWAPmat, {{1, 0, 0, 0}, {0, 0, I, 0}, {0, I, 0, 0}, {0, 0, 0, 1}}); matIs("iSWAPinv", iSWAPinvmat, {{1, 0, 0, 0}, {0, 0, -I, 0}, {0, -I, 0, 0}, {0, 0, 0, 1}});
    matIs("ECR", ECRmat, {{0, 0, h, I * h}, {0, 0, I * h, h}, {h, -I * h, 0, 0}, {-I * h, h, 0, 0}}); matIs("DCX", DCXmat, {{1, 0, 0, 0}, {0, 0, 0, 1}, {0, 1, 0, 0}, {0, 0, 1, 0}});
    for (int q = 0; q < 200000 && !timeup(); q++) {
        auto ang = [] { switch (rnd(3)) { case 0: return 0.; case 1: return (static_cast<double>(rnd(33)) - 16) * PI / 4; default: return uni(-20, 20); } };
        const double t = ang(), p = ang(), l = ang(), b = ang(); const cd c = std::cos(t / 2), sn = std::sin(t / 2); ctxinfo = S("theta=%.17g phi=%.17g lambda=%.17g beta=%.17g", t, p, l, b);
        auto ex = [&](double a) { return std::polar(1., a); };
        matIs("U3", U3mat(l, p, t), {c, -ex(l) * sn, ex(p) * sn, ex(l + p) * c}); matIs("U2", U2mat(l, p), {h, -ex(l) * h, ex(p) * h, ex(l + p) * h}); matIs("Phase", Phasemat(l), {1, 0, 0, ex(l)});
        matIs("RX", RXmat(t), {c, -I * sn, -I * sn, c}); matIs("RY", RYmat(t), {c, -sn, sn, c}); matIs("RZ", RZmat(t), {ex(-t / 2), 0, 0, ex(t / 2)});
        matIs("RXX", RXXmat(t), {{c, 0, 0, -I * sn}, {0, c, -I * sn, 0}, {0, -I * sn, c, 0}, {-I * sn, 0, 0, c}}); matIs("RYY", RYYmat(t), {{c, 0, 0, I * sn}, {0, c, -I * sn, 0}, {0, -I * sn, c, 0}, {I * sn, 0, 0, c}}); matIs("RZZ", RZZmat(t), {{ex(-t / 2), 0, 0, 0}, {0, ex(t / 2), 0, 0}, {0, 0, ex(t / 2), 0}, {0, 0, 0, ex(-t / 2)}}); matIs("RZX", RZXmat(t), {{c, -I * sn, 0, 0}, {-I * sn, c, 0, 0}, {0, 0, c, I * sn}, {0, 0, I * sn, c}});
        matIs("XXMinusYY", XXMinusYYmat(t, b), {{c, 0, 0, -I * sn * ex(b)}, {0, 1, 0, 0}, {0, 0, 1, 0}, {-I * sn * ex(-b), 0, 0, c}}); matIs("XXPlusYY", XXPlusYYmat(t, b), {{1, 0, 0, 0}, {0, c, -I * sn * ex(b), 0}, {0, -I * sn * ex(-b), c, 0}, {0, 0, 0, 1}});
    }
}
// ------------------------------------------------------------------ density views
inline void views() {
    static std::vector<dNode> n(8); static ComplexNumbers cn; ++cases;
    auto mk = [&](dNode* p, bool leaf) { p->v = leaf ? 0 : 1; p->flags = rnd(2) ? 8 : 0; p->ref = 0; p->next = nullptr; for (auto& e: p->e) { const cd x = rnd(4) ? rval() : cd{0}; e.w = cn.lookup(x); e.p = (leaf || e.w == Complex::zero || rnd(5) == 0) ? dNode::terminal : &n[1 + rnd(7)]; if (rnd(5) == 0) e.w.i = CTEntry::flipPointerSign(CTEntry::flipPointerSign(e.w.i)); } };
    for (std::size_t i = 1; i < 8; i++) mk(&n[i], true);
    mk(&n[0], false);
    for (auto& e: n[0].e) if (e.p == &n[0]) e.p = dNode::terminal;
    auto before = n; const int f = static_cast<int>(rnd(8)); const bool conj = f & 1, first = f & 2, dm = f & 4;
    ctxinfo = S("view conjugated=%d first=%d density=%d", conj, first, dm);
    dEdge e{&n[0], Complex::one}; if (conj) dEdge::setDensityConjugateTrue(e); if (first) dEdge::setFirstEdgeDensityPathTrue(e); if (dm) dEdge::setDensityMatrixTrue(e);
    dEdge other{&n[7], Complex::one}; const bool both = rnd(2);
    if (both) dEdge::applyDmChangesToEdges(e, other); else dEdge::applyDmChangesToEdge(e);
    if (dm) check(e.p == &n[0], "the view changes the node address"); else { dEdge::alignDensityEdge(e); check(e.p == &n[0], "the tag bits change the node address"); }
    auto al = [](dEdge x) { dEdge::alignDensityEdge(x); return x; };
    if (dm) {
        const bool plain = first && !conj;
        for (int i = 0; i < 4; i++) {
            const int src = (!plain && conj && (i == 1 || i == 2)) ? 3 - i : i; cd w = cval(before[0].e[src].w); if (!plain && (conj || i == 2)) w = std::conj(w);
            check(al(n[0].e[i]).p == before[0].e[src].p, S("successor %d of the view is the wrong node", i)); check(cval(n[0].e[i].w) == w, S("successor %d of the view has weight ", i) + s(cval(n[0].e[i].w)) + " instead of " + s(w));
            if (!plain) { const auto t = reinterpret_cast<std::uintptr_t>(n[0].e[i].p); check(dNode::isDensityMatrixTempFlagSet(t), "a successor of the view is not marked"); check(dNode::isConjugateTempFlagSet(t) == (conj || i == 2), S("successor %d of the view has the wrong conjugation mark", i)); check(dNode::isNonReduceTempFlagSet(t) == (!conj && i == 1), S("successor %d of the view has the wrong first-path mark", i)); }
        }
    }
    if (both) dEdge::revertDmChangesToEdges(e, other); else dEdge::revertDmChangesToEdge(e);
    for (std::size_t i = 0; i < 8; i++) { for (std::size_t k = 0; k < 4; k++) check(n[i].e[k].p == before[i].e[k].p && n[i].e[k].w.r == before[i].e[k].w.r && n[i].e[k].w.i == before[i].e[k].w.i, S("successor %zu differs after switching back", k)); check(n[i].flags == before[i].flags && n[i].v == before[i].v && n[i].ref == before[i].ref, "the node differs after switching back"); }
    n = before;
}
inline void C23() { while (!timeup()) views(); }
