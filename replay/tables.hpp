#pragma once
#include "common.hpp"
// ---- C02 / C03: the table of numbers against a model (a list of stored values with counts)
struct TabModel {
    ComplexTable<> t{};
    struct E { fp v; unsigned long ref; };
    std::map<CTEntry*, E> st;
    std::string hist;
    void op(const std::string& x) { hist += x + "; "; if (hist.size() > 3000) hist.erase(0, 1000); ctxinfo = hist; }
    void audit() { // every chain holds exactly the stored entries, sorted, in the right bucket
        std::set<CTEntry*> seen; std::size_t n = 0;
        for (std::size_t k = 0; k < t.table.size(); ++k) {
            CTEntry* last = nullptr; 
            for (auto* p = t.table[k]; p != nullptr; p = p->next) {
                check(st.count(p) == 1, S("a bucket holds an entry (value %.17g) that is not stored", p->value));
                check(seen.insert(p).second, "an entry is stored twice"); n++;
                check(p->value == st[p].v, S("stored value changed from %.17g to %.17g", st[p].v, p->value));
                check(p->refCount == st[p].ref, S("reference count of %.17g is %u, expected %lu", p->value, p->refCount, st[p].ref));
                if (last) check(last->value < p->value, S("bucket %zu is not sorted: %.17g %.17g", k, last->value, p->value));
                last = p;
            }
            check(t.tailTable[k] == last, S("tail of bucket %zu is wrong", k));
        }
        check(n == st.size(), S("%zu numbers stored, expected %zu", n, st.size()));
        check(t.getCount() == st.size(), S("count is %zu, expected %zu", t.getCount(), st.size()));
        std::set<CTEntry*> fr; for (auto* p = t.available; p != nullptr; p = p->next) { check(st.count(p) == 0, "a stored number is on the free list"); check(fr.insert(p).second, "free list is cyclic"); }
    }
};
inline fp edgeval(fp tol) {
    static std::vector<fp> old;
    fp v;
    switch (rnd(8)) {
        case 0: v = uni(0, 1); break;
        case 1: v = static_cast<fp>(rnd(65537)) / 65536.; break;
        case 2: v = (static_cast<fp>(rnd(65537)) + 0.5) / 65536.; break; // bucket border
        case 3: { static const fp c[] = {0., 1., SQRT2_2, 0.5, 0.25}; v = c[rnd(5)]; break; }
        case 4: v = uni(0, 3); break;
        case 5: v = (static_cast<fp>(rnd(3)) + uni(0, 0.02)) / 65536.; break; // few buckets: long chains
        case 6: v = 0.5 + static_cast<fp>(rnd(400)) * tol * 0.9; break;
        default: v = old.empty() ? 0.3 : old[rnd(old.size())]; break;
    }
    static const fp d[] = {0, 0, 1, -1, 0.5, -0.5, 1.01, -1.01, 2.02, -2.02, 1.5, -1.5, 0.99, -0.99, 3, -3, 0.3, -0.3};
    v += d[rnd(18)] * tol;
    v = std::abs(v);
    if (old.size() < 300) old.push_back(v); else old[rnd(300)] = v;
    return v;
}
inline void C02one(bool gc) {
    auto tm = std::make_unique<TabModel>(); auto& t = tm->t; 
    for (std::size_t k = 0; k < t.table.size(); ++k) for (auto* p = t.table[k]; p != nullptr; p = p->next) tm->st[p] = {p->value, p->refCount};
    const fp tol0 = ComplexTable<>::tolerance();
    const fp tol = rnd(2) ? tol0 : 1e-9; ComplexTable<>::setTolerance(tol);
    const int steps = static_cast<int>(rnd(4) == 0 ? 6000 : 60);
    std::vector<std::pair<fp, CTEntry*>> consts{{0., &ComplexTable<>::zero}, {1., &ComplexTable<>::one}, {SQRT2_2, &ComplexTable<>::sqrt2_2}};
    std::multimap<fp, CTEntry*> byv; for (auto& [p, e2] : tm->st) byv.emplace(e2.v, p);
    std::vector<CTEntry*> hs;
    for (int q = 0; q < steps; ++q) {
        cases++;
        const auto c = rnd(gc ? 10 : 30);
        if (c < 6 || c >= 10 || hs.empty()) {
            const fp v = edgeval(tol); tm->op(S("lookup(%.17g)", v));
            const auto n0 = t.getCount();
            CTEntry* r = t.lookup(v);
            check(r != nullptr && (reinterpret_cast<std::uintptr_t>(r) & 7U) == 0, "misaligned handle");
            check(std::abs(r->value - v) <= tol * (1 + 1e-6) + 1e-15, S("lookup(%.17g) returned %.17g, off by more than the tolerance", v, r->value));
            CTEntry* nearst = nullptr; bool close = false;
            bool amb = false; // a distance that equals the tolerance up to rounding may go either way
            auto border = [&](fp a) { if (std::abs(std::abs(a - v) - tol) <= 1e-6 * tol + 1e-15) amb = true; };
            for (auto& [cv, p] : consts) border(cv);
            for (auto it = byv.lower_bound(v - 4 * tol); it != byv.end() && it->first <= v + 4 * tol; ++it) border(it->first);
            if (amb) { if (!tm->st.count(r) && r != consts[0].second && r != consts[1].second && r != consts[2].second) { tm->st[r] = {r->value, 0}; byv.emplace(r->value, r); } hs.push_back(r); continue; }
            for (auto& [cv, p] : consts) if (std::abs(cv - v) <= tol) { close = true; if (!nearst) nearst = p; }
            if (nearst) check(r == nearst, S("lookup(%.17g) did not return the built-in constant", v));
            else {
                for (auto it = byv.lower_bound(v - 4 * tol); it != byv.end() && it->first <= v + 4 * tol; ++it) if (std::abs(it->first - v) <= tol) close = true;
                if (close) check(tm->st.count(r) == 1, S("lookup(%.17g) added a number although one within the tolerance is stored", v));
                else {
                    check(tm->st.count(r) == 0, S("lookup(%.17g) reused a stored entry that is too far away", v));
                    check(r != consts[0].second && r != consts[1].second && r != consts[2].second, "constant returned although too far away");
                    check(r->value == v, S("new number stored as %.17g instead of %.17g", r->value, v));
                    check(r->refCount == 0, "new number starts with a reference");
                    tm->st[r] = {v, 0}; byv.emplace(v, r);
                }
            }
            check(t.getCount() == tm->st.size(), S("after lookup(%.17g) count %zu -> %zu, expected %zu", v, n0, t.getCount(), tm->st.size()));
            hs.push_back(r);
        } else if (c < 8) {
            CTEntry* r = hs[rnd(hs.size())]; const bool neg = rnd(2) != 0; tm->op(S("incRef(%.17g)", r->value));
            const auto was = r->refCount;
            if (tm->st.count(r) && rnd(40) == 0) { r->refCount = std::numeric_limits<RefCount>::max(); tm->st[r].ref = r->refCount; }
            ComplexTable<>::incRef(neg ? CTEntry::getNegativePointer(r) : r);
            if (tm->st.count(r)) { auto& x = tm->st[r].ref; if (x != std::numeric_limits<RefCount>::max()) x++; check(r->refCount == x, S("incRef of %.17g: count %u, expected %lu", r->value, r->refCount, x)); }
            else check(r->refCount == was, "count of a constant changed");
        } else if (c < 9) {
            CTEntry* r = hs[rnd(hs.size())]; tm->op(S("decRef(%.17g)", r->value));
            const auto was = r->refCount; bool thrown = false;
            try { ComplexTable<>::decRef(rnd(2) ? CTEntry::getNegativePointer(r) : r); } catch (const std::runtime_error&) { thrown = true; }
            if (tm->st.count(r)) {
                auto& x = tm->st[r].ref; check(thrown == (x == 0), "release of an unreferenced number not reported (or a valid one refused)");
                if (x != 0 && x != std::numeric_limits<RefCount>::max()) x--;
                check(r->refCount == x, S("decRef of %.17g: count %u, expected %lu", r->value, r->refCount, x));
            } else check(!thrown && r->refCount == was, "count of a constant changed");
        } else if (rnd(4) == 0) {
            const bool force = rnd(3) != 0; 
            if (rnd(3) == 0) t.gcLimit = rnd(2 * tm->st.size() + 2);
            tm->op(S("garbageCollect(%d) limit %zu", static_cast<int>(force), t.gcLimit));
            std::size_t dead = 0; for (auto& [p, e2] : tm->st) dead += e2.ref == 0;
            const bool need = (force || t.getCount() >= t.gcLimit) && t.getCount() > 1;
            const auto r = t.garbageCollect(force);
            if (need) {
                check(r == dead, S("collection reports %zu removed numbers, %zu were unreferenced", r, dead));
                for (auto it = tm->st.begin(); it != tm->st.end();) it = it->second.ref == 0 ? tm->st.erase(it) : std::next(it);
                byv.clear(); for (auto& [p, e2] : tm->st) byv.emplace(e2.v, p);
                std::vector<CTEntry*> k; for (auto* p : hs) if (tm->st.count(p) || p == &ComplexTable<>::zero || p == &ComplexTable<>::one || p == &ComplexTable<>::sqrt2_2) k.push_back(p);
                hs = k;
            } else check(r == 0, "nothing to collect, but numbers reported as removed");
            tm->audit();
            for (auto& [p, e2] : tm->st) { CTEntry* q2 = t.lookup(e2.v); check(q2 == p, S("%.17g is not found any more after collection", e2.v)); }
        }
    }
    tm->audit();
    ComplexTable<>::setTolerance(tol0);
}
inline void complexref() {
    ComplexNumbers cn;
    const fp tol = ComplexTable<>::tolerance();
    std::map<CTEntry*, unsigned long> ref; std::vector<Complex> hs; std::string h;
    for (int q = 0; q < 300; ++q) {
        cases++;
        const auto c = rnd(6);
        if (c < 3 || hs.empty()) {
            auto rv = [&] { fp v = edgeval(tol); if (rnd(2)) v = -v; return v; };
            const fp r = rv(), i = rnd(4) ? rv() : r; h += S("lookup(%.17g,%.17g); ", r, i); ctxinfo = h;
            Complex x; 
            switch (rnd(4)) { case 0: x = cn.lookup(r, i); break; case 1: x = cn.lookup(std::complex<fp>(r, i)); break; case 2: x = cn.lookup(ComplexValue{r, i}); break;
                default: { auto tmp = cn.getTemporary(r, i); if (rnd(2)) { tmp.r->value = -r; tmp.r = CTEntry::getNegativePointer(tmp.r); } x = cn.lookup(tmp); } }
            check(std::abs(CTEntry::val(x.r) - r) <= tol + 1e-15 && std::abs(CTEntry::val(x.i) - i) <= tol + 1e-15, S("lookup gives %s", s(cval(x)).c_str()));
            check((std::abs(r) > tol) || x.r == &ComplexTable<>::zero, "a real part within the tolerance of zero is not the shared zero");
            check((std::abs(i) > tol) || x.i == &ComplexTable<>::zero, "an imaginary part within the tolerance of zero is not the shared zero");
            x = cn.lookup(r, i); const auto y = cn.lookup(r, i); check(x.r == y.r && x.i == y.i, "the same number looked up twice has two handles");
            const auto z = cn.lookup(-r, i); check(CTEntry::getAlignedPointer(z.r) == CTEntry::getAlignedPointer(x.r), "a number and its negation do not share the stored magnitude");
            hs.push_back(x);
        } else {
            auto x = hs[rnd(hs.size())]; const bool inc = c < 5;
            auto* a = CTEntry::getAlignedPointer(x.r); auto* b = CTEntry::getAlignedPointer(x.i);
            auto live = [](CTEntry* p) { return p != &ComplexTable<>::zero && p != &ComplexTable<>::one && p != &ComplexTable<>::sqrt2_2; };
            std::map<CTEntry*, long> before{{a, a->refCount}, {b, b->refCount}};
            std::map<CTEntry*, long> want = before; if (live(a)) want[a] += inc ? 1 : -1; if (live(b)) want[b] += inc ? 1 : -1;
            if (!inc && (want[a] < 0 || want[b] < 0)) continue;
            h += S("%s(%.17g,%.17g); ", inc ? "incRef" : "decRef", CTEntry::val(x.r), CTEntry::val(x.i)); ctxinfo = h;
            if (inc) ComplexNumbers::incRef(x); else ComplexNumbers::decRef(x);
            check(a->refCount == want[a] && b->refCount == want[b], S("counts (%u,%u), expected (%ld,%ld)", a->refCount, b->refCount, want[a], want[b]));
        }
    }
    ctxinfo.clear();
}
inline void C02() { while (!timeup() && cases < 4000000) { C02one(rnd(2)); if (rnd(2)) complexref(); } }
inline void C03() { while (!timeup() && cases < 4000000) { C02one(true); if (rnd(2)) complexref(); } }
// ---- C04: scratch numbers
inline void C04() {
    while (!timeup() && cases < 4000000) {
        ComplexNumbers cn; std::set<CTEntry*> used; std::vector<Complex> held; std::vector<cd> vals; std::string h;
        const bool exhaust = rnd(40) == 0; const int steps = exhaust ? 9000 : rnd(10) == 0 ? 20000 : 200; const auto bias = rnd(10);
        for (int q = 0; q < steps; ++q) {
            cases++;
            const auto c = rnd(12);
            const fp r = uni(-2, 2), i = uni(-2, 2);
            if (!exhaust && rnd(60) == 0) {
                h += "clear; "; cn.complexCache.clear(); held.clear(); vals.clear(); used.clear();
                check(cn.cacheCount() == 0, "in-use count after clear");
                continue;
            }
            if (exhaust && cn.complexCache.available == nullptr && cn.complexCache.chunkIt == cn.complexCache.chunkEndIt) { h += "storage exhausted, getTemporary; "; auto x = cn.getTemporary(r, i); check(x.r != x.i && !used.count(x.r) && !used.count(x.i), "a temporary overlaps a scratch number in use"); check(x.r->value == r && x.i->value == i, "temporary carries the wrong value"); }
            if (exhaust || c < 2 + bias / 2 || held.empty()) {
                Complex x; bool val = true;
                switch (rnd(4)) { case 0: x = cn.getCached(); val = false; break; case 1: x = cn.getCached(r, i); break; case 2: x = cn.getCached(ComplexValue{r, i}); break; default: x = cn.getCached(std::complex<fp>(r, i)); }
                h += "getCached; "; if (h.size() > 400) h.erase(0, 200); ctxinfo = S("step %d: ...", q) + h;
                check(x.r != x.i, "both parts of a scratch number are the same entry");
                check(used.insert(x.r).second && used.insert(x.i).second, "a scratch number in use was handed out again");
                if (exhaust) { auto& cc = cn.complexCache; bool inside = false; for (auto& ch: cc.chunks) inside = inside || (!ch.empty() && x.r >= &ch.front() && x.i <= &ch.back()); check(inside, "a scratch number lies outside the storage"); }
                if (val) check(x.r->value == r && x.i->value == i, "scratch number carries the wrong value");
                x.r->value = r; x.i->value = i; held.push_back(x); vals.emplace_back(r, i);
            } else if (c < 10) {
                const auto k = rnd(held.size()); auto x = held[k];
                h += "returnToCache; "; ctxinfo = S("step %d: ...", q) + h;
                used.erase(x.r); used.erase(x.i); 
                cn.returnToCache(x);
                held[k] = held.back(); held.pop_back(); vals[k] = vals.back(); vals.pop_back();
            } else {
                h += "getTemporary; "; ctxinfo = S("step %d: ...", q) + h;
                Complex x = rnd(2) ? cn.getTemporary(r, i) : cn.getTemporary(ComplexValue{r, i});
                check(x.r != x.i && !used.count(x.r) && !used.count(x.i), "a temporary overlaps a scratch number in use");
                check(x.r->value == r && x.i->value == i, "temporary carries the wrong value");
            }
            check(cn.cacheCount() == used.size(), S("in-use count %zu, expected %zu", cn.cacheCount(), used.size()));
            if (q % 50 == 0 || q + 1 == steps) for (std::size_t k = 0; k < held.size(); ++k) check(held[k].r->value == vals[k].real() && held[k].i->value == vals[k].imag(), "a scratch number in use was overwritten");
        }
    }
    ctxinfo.clear();
}
