#pragma once
#include "common.hpp"
inline fp rndreal() {
    switch (rnd(9)) {
        case 0: return 0.; case 1: return 1.; case 2: return SQRT2_2; case 3: return 0.5;
        case 4: return uni(0, 1); case 5: return uni(0, 1e-3); case 6: return uni(0, 5); case 7: return uni(1e-9, 1e-6); default: return uni(0.9, 1.1);
    }
}
struct Num { // a number handle built from chosen entries, signs and the shared constants
    CTEntry er{}, ei{}; Complex c{};
    static CTEntry* pick(CTEntry& e, fp v) { if (v == 0. && rnd(4)) return &ComplexTable<>::zero; if (v == 1. && rnd(4)) return &ComplexTable<>::one; if (v == SQRT2_2 && rnd(4)) return &ComplexTable<>::sqrt2_2; e.value = v; return &e; }
    void make(bool own = false) {
        c.r = own ? (er.value = rndreal(), &er) : pick(er, rndreal()); c.i = own ? (ei.value = rndreal(), &ei) : pick(ei, rndreal());
        if (rnd(2) && c.r != &ComplexTable<>::zero) c.r = CTEntry::getNegativePointer(c.r);
        if (rnd(2) && c.i != &ComplexTable<>::zero) c.i = CTEntry::getNegativePointer(c.i);
    }
};
inline void consts_ok(const char* op) {
    check(ComplexTable<>::zero.value == 0. && ComplexTable<>::one.value == 1. && ComplexTable<>::sqrt2_2.value == SQRT2_2, S("%s changed a shared constant", op));
}
inline void C01() {
    ComplexNumbers cn;
    const fp tol = ComplexTable<>::tolerance();
    while (!timeup() && cases < 3000000) {
        cases++;
        Num a, b, r; a.make(); b.make(); r.er.value = 7.; r.ei.value = 8.; r.c = {&r.er, &r.ei};
        Complex x = a.c, y = b.c;
        switch (rnd(6)) { // the result over one of the operands
            case 0: a.make(true); a.c = {&a.er, &a.ei}; r.c = {&a.er, &a.ei}; x = r.c; if (rnd(2)) { x.r = CTEntry::getNegativePointer(x.r); } if (rnd(2)) x.i = CTEntry::getNegativePointer(x.i); break;
            case 1: b.make(true); r.c = {&b.er, &b.ei}; y = r.c; if (rnd(2)) y.r = CTEntry::getNegativePointer(y.r); if (rnd(2)) y.i = CTEntry::getNegativePointer(y.i); break;
            case 2: y = x; break;
            default: break;
        }
        const cd vx = cval(x), vy = cval(y);
        const Complex x0 = x, y0 = y;
        auto in = [&](const char* op) { return S("%s on a=%s b=%s", op, s(vx).c_str(), s(vy).c_str()); };
        check(x.approximatelyZero() == (std::abs(vx.real()) <= tol && std::abs(vx.imag()) <= tol), in("approximatelyZero"));
        check(x.approximatelyOne() == (std::abs(vx.real() - 1) <= tol && std::abs(vx.imag()) <= tol), in("approximatelyOne"));
        if (std::abs(std::abs(vx.real() - vy.real()) - tol) > 1e-15 && std::abs(std::abs(vx.imag() - vy.imag()) - tol) > 1e-15)
            check(x.approximatelyEquals(y) == (std::abs(vx.real() - vy.real()) <= tol && std::abs(vx.imag() - vy.imag()) <= tol), in("approximatelyEquals"));
        check(x.exactlyZero() == (x.r == &ComplexTable<>::zero && x.i == &ComplexTable<>::zero), in("exactlyZero"));
        check(x.exactlyOne() == (x.r == &ComplexTable<>::one && x.i == &ComplexTable<>::zero), in("exactlyOne"));
        check(near(ComplexNumbers::mag2(x), std::norm(vx)), in("mag2")); check(near(ComplexNumbers::mag(x), std::abs(vx)), in("mag"));
        check(near(cval(ComplexNumbers::conj(x)), std::conj(vx)), in("conj")); check(near(cval(ComplexNumbers::neg(x)), -vx), in("neg"));
        check(cval(x) == vx, in("predicates changed the operand"));
        const int op = rnd(8); cd want; const char* nm = "";
        const auto cnt = cn.cacheCount();
        Complex res = r.c; bool cached = op >= 4;
        if (op % 4 == 3 && std::norm(vy) < 1e-11) continue;
        switch (op) {
            case 0: nm = "add"; want = vx + vy; ComplexNumbers::add(r.c, x, y); break;
            case 1: nm = "sub"; want = vx - vy; ComplexNumbers::sub(r.c, x, y); break;
            case 2: nm = "mul"; want = vx * vy; ComplexNumbers::mul(r.c, x, y); break;
            case 3: nm = "div"; want = vx / vy; ComplexNumbers::div(r.c, x, y); break;
            case 4: nm = "addCached"; want = vx + vy; res = cn.addCached(x, y); break;
            case 5: nm = "subCached"; want = vx - vy; res = cn.subCached(x, y); break;
            case 6: nm = "mulCached"; want = vx * vy; res = cn.mulCached(x, y); break;
            case 7: nm = "divCached"; want = vx / vy; res = cn.divCached(x, y); break;
        }
        if (!cached) res = r.c;
        check(near(cval(res), want), in(nm) + " gave " + s(cval(res)) + " instead of " + s(want));
        consts_ok(nm);
        auto own = [&](const CTEntry* e) { return CTEntry::getAlignedPointer(e) == CTEntry::getAlignedPointer(res.r) || CTEntry::getAlignedPointer(e) == CTEntry::getAlignedPointer(res.i); };
        if (!own(x.r)) check(CTEntry::val(x.r) == vx.real(), in(nm) + " changed its first operand");
        if (!own(x.i)) check(CTEntry::val(x.i) == vx.imag(), in(nm) + " changed its first operand");
        if (!own(y.r)) check(CTEntry::val(y.r) == vy.real(), in(nm) + " changed its second operand");
        if (!own(y.i)) check(CTEntry::val(y.i) == vy.imag(), in(nm) + " changed its second operand");
        check(x == x0 && y == y0, in(nm) + " changed an operand handle");
        if (cached) { check(cn.cacheCount() == cnt + 2, in(nm) + " did not take exactly one scratch number"); cn.returnToCache(res); }
        else check(cn.cacheCount() == cnt, in(nm) + " took a scratch number");
    }
}
