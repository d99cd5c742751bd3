// Bit-vector expressions: hash-consed, simplified on construction, translated lazily to Z3.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/Hashing.h>
#include <z3.h>
#include <algorithm>
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx {
using llvm::APInt;

enum K : uint8_t { CONST, VAR, SUM, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                   EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct E {
    K k; unsigned w; unsigned off = 0; // off: extract offset, or variable index
    APInt c;                            // constant, or the constant term of a SUM
    llvm::SmallVector<const E*, 3> ops;
    llvm::SmallVector<APInt, 1> co;     // SUM coefficients
    size_t h = 0; uint32_t id = 0;
    uint64_t lo = 0, hi = ~0ull;        // unsigned range, w <= 64 only
    std::shared_ptr<const std::vector<uint32_t>> vars;
    mutable Z3_ast z = nullptr;
    mutable uint32_t stamp = 0; mutable APInt ev;
    bool isC() const { return k == CONST; }
    bool is(uint64_t v) const { return k == CONST && c == APInt(w, v); }
    uint64_t u64() const { return c.getZExtValue(); }
};
using X = const E*;

struct HashE { size_t operator()(X e) const { return e->h; } };
struct EqE { bool operator()(X a, X b) const {
    return a->k == b->k && a->w == b->w && a->off == b->off && a->ops == b->ops && a->c == b->c && a->co == b->co; } };

struct VarInfo { std::string name; unsigned w; X e; uint64_t lo, hi; bool ranged, undef; };

class Ctx {
public:
    Z3_context z3;
    std::vector<VarInfo> vars;
    Ctx() { Z3_config cfg = Z3_mk_config(); z3 = Z3_mk_context(cfg); Z3_del_config(cfg);
            Z3_set_error_handler(z3, nullptr); }

    X c(const APInt& v) { E e; e.k = CONST; e.w = v.getBitWidth(); e.c = v; return mk(std::move(e)); }
    X c(unsigned w, uint64_t v) { return c(APInt(w, v)); }
    X T() { return c(1, 1); } X F() { return c(1, 0); }
    X b(bool v) { return c(1, v); }
    X var(const std::string& name, unsigned w, bool undef = false) {
        uint64_t mask = w >= 64 ? ~0ull : ((1ull << w) - 1); return var(name, w, 0, mask, false, undef); }
    X var(const std::string& name, unsigned w, uint64_t lo, uint64_t hi, bool ranged = true, bool undef = false) {
        E e; e.k = VAR; e.w = w; e.off = vars.size(); e.c = APInt(w, 0); e.lo = lo; e.hi = hi; varlo_ = lo; varhi_ = hi;
        X x = mk(std::move(e)); vars.push_back({name, w, x, lo, hi, ranged, undef}); return x; }

    // ---- linear sums
    struct Lin { std::vector<std::pair<X, APInt>> t; APInt c; };
    void addTo(Lin& l, X e, const APInt& k) {
        if (e->isC()) { l.c += e->c * k; return; }
        if (e->k == SUM) { l.c += e->c * k; for (size_t i = 0; i < e->ops.size(); ++i) l.t.push_back({e->ops[i], e->co[i] * k}); return; }
        l.t.push_back({e, k});
    }
    X fromLin(Lin& l, unsigned w) {
        std::sort(l.t.begin(), l.t.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
        std::vector<std::pair<X, APInt>> r;
        for (auto& p : l.t) { if (!r.empty() && r.back().first == p.first) r.back().second += p.second; else r.push_back(p); }
        r.erase(std::remove_if(r.begin(), r.end(), [](auto& p) { return p.second == 0; }), r.end());
        if (r.empty()) return c(l.c);
        if (r.size() == 1 && r[0].second == 1 && l.c == 0) return r[0].first;
        E e; e.k = SUM; e.w = w; e.c = l.c;
        for (auto& p : r) { e.ops.push_back(p.first); e.co.push_back(p.second); }
        return mk(std::move(e));
    }
    X add(X a, X b) { if (a->isC() && b->isC()) return c(a->c + b->c);
        if (a->w == 1) return xor_(a, b);
        Lin l; l.c = APInt(a->w, 0); addTo(l, a, APInt(a->w, 1)); addTo(l, b, APInt(a->w, 1)); return fromLin(l, a->w); }
    X sub(X a, X b) { if (a->isC() && b->isC()) return c(a->c - b->c);
        if (a->w == 1) return xor_(a, b);
        Lin l; l.c = APInt(a->w, 0); addTo(l, a, APInt(a->w, 1)); addTo(l, b, APInt::getAllOnes(a->w)); return fromLin(l, a->w); }
    X mulc(X a, const APInt& k) { Lin l; l.c = APInt(a->w, 0); addTo(l, a, k); return fromLin(l, a->w); }
    X mul(X a, X b) { if (a->isC()) std::swap(a, b);
        if (b->isC()) { if (a->isC()) return c(a->c * b->c); if (a->w == 1) return and_(a, b); return mulc(a, b->c); }
        if (a->w == 1) return and_(a, b);
        if (a->id > b->id) std::swap(a, b); return bin(MUL, a, b); }
    // division by zero is checked by the caller
    X udiv(X a, X b) { if (a->isC() && b->isC() && b->c != 0) return c(a->c.udiv(b->c));
        if (b->isC() && b->c.isPowerOf2()) return lshr(a, c(a->w, b->c.logBase2())); return bin(UDIV, a, b); }
    X urem(X a, X b) { if (a->isC() && b->isC() && b->c != 0) return c(a->c.urem(b->c));
        if (b->isC() && b->c.isPowerOf2()) return and_(a, c(b->c - 1)); return bin(UREM, a, b); }
    X sdiv(X a, X b) { if (a->isC() && b->isC() && b->c != 0) return c(a->c.sdiv(b->c));
        if (b->isC() && !b->c.isNegative() && b->c != 0) if (X r = exactDiv(a, b->c)) return r;
        return bin(SDIV, a, b); }
    X srem(X a, X b) { if (a->isC() && b->isC() && b->c != 0) return c(a->c.srem(b->c)); return bin(SREM, a, b); }

    X not_(X a) { // bitwise
        if (a->isC()) return c(~a->c);
        if (a->w == 1) { if (a->k == XOR && a->ops[1]->is(1)) return a->ops[0];
            E e; e.k = XOR; e.w = 1; e.c = APInt(1, 0); e.ops = {a, T()}; return mk(std::move(e)); }
        return bin(XOR, a, c(APInt::getAllOnes(a->w))); }
    bool isNot(X a) const { return a->w == 1 && a->k == XOR && a->ops[1]->is(1); }
    X and_(X a, X b) { if (a->isC()) std::swap(a, b);
        if (a->isC()) return c(a->c & b->c);
        if (a == b) return a;
        if (b->isC()) { if (b->c == 0) return b; if (b->c.isAllOnes()) return a;
            unsigned n = b->c.countTrailingOnes();
            if (n && (b->c.lshr(n)) == 0) return zext(extract(a, 0, n), a->w);
            if (a->k == AND && a->ops[1]->isC()) return and_(a->ops[0], c(a->ops[1]->c & b->c));
            if (a->k == ITE && a->ops[1]->isC() && a->ops[2]->isC()) return ite(a->ops[0], and_(a->ops[1], b), and_(a->ops[2], b));
            if (b->c.isPowerOf2()) { unsigned k = b->c.logBase2(); X bit = extract(a, k, 1);
                if (bit->isC()) return bit->is(1) ? b : c(a->w, 0); } }
        if (a->w == 1) { if (not_(a) == b) return F(); }
        if (a->id > b->id && !b->isC()) std::swap(a, b);
        return bin(AND, a, b); }
    X or_(X a, X b) { if (a->isC()) std::swap(a, b);
        if (a->isC()) return c(a->c | b->c);
        if (a == b) return a;
        if (b->isC()) { if (b->c == 0) return a; if (b->c.isAllOnes()) return b; }
        if (a->w == 1) { if (not_(a) == b) return T(); }
        if (!b->isC()) { // disjoint by trailing zeros / range: treat as sum, so that packing stays linear
            if (a->w <= 64 && (disjoint(a, b) || disjoint(b, a))) return add(a, b); }
        if (a->id > b->id && !b->isC()) std::swap(a, b);
        return bin(OR, a, b); }
    X xor_(X a, X b) { if (a->isC()) std::swap(a, b);
        if (a->isC()) return c(a->c ^ b->c);
        if (a == b) return c(a->w, 0);
        if (b->isC()) { if (b->c == 0) return a; if (a->w == 1) return not_(a);
            if (a->k == XOR && a->ops[1]->isC()) return xor_(a->ops[0], c(a->ops[1]->c ^ b->c)); }
        if (a->w == 1) { bool n = false; if (isNot(a)) { a = a->ops[0]; n = !n; } if (isNot(b)) { b = b->ops[0]; n = !n; }
            if (a == b) return this->b(n);
            if (a->id > b->id) std::swap(a, b); X r = bin(XOR, a, b); return n ? not_(r) : r; }
        if (a->id > b->id && !b->isC()) std::swap(a, b);
        return bin(XOR, a, b); }
    X shl(X a, X s) { if (s->isC()) { if (s->c.uge(a->w)) return c(a->w, 0); unsigned n = s->c.getZExtValue(); if (!n) return a;
            if (a->isC()) return c(a->c.shl(n));
            if (a->w > 64) return concat(extract(a, 0, a->w - n), c(n, 0));
            return mulc(a, APInt(a->w, 1).shl(n)); }
        return bin(SHL, a, s); }
    X lshr(X a, X s) { if (s->isC()) { if (s->c.uge(a->w)) return c(a->w, 0); unsigned n = s->c.getZExtValue(); if (!n) return a;
            return zext(extract(a, n, a->w - n), a->w); }
        return bin(LSHR, a, s); }
    X ashr(X a, X s) { if (s->isC()) { unsigned n = s->c.uge(a->w) ? a->w - 1 : s->c.getZExtValue(); if (!n) return a;
            if (n < a->w - 1 && a->k == SUM) if (X r = exactDiv(a, APInt(a->w, 1).shl(n))) return r;
            return sext(extract(a, n, a->w - n), a->w); }
        return bin(ASHR, a, s); }

    X eq(X a, X b) {
        if (a == b) return T();
        if (a->isC()) std::swap(a, b);
        if (a->isC()) return this->b(a->c == b->c);
        if (a->w == 1) { if (b->isC()) return b->is(1) ? a : not_(a); return not_(xor_(a, b)); }
        if (a->w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return F();
        if (a->k == SUM || b->k == SUM) {
            X d = sub(a, b);
            if (d->isC()) return this->b(d->c == 0);
            if (d->k == SUM && d->ops.size() == 1 && (d->co[0] == 1 || d->co[0].isAllOnes())) {
                APInt k = d->co[0] == 1 ? -d->c : d->c; return eqRaw(d->ops[0], c(k)); }
            if (d->k != SUM) return eqRaw(d, c(d->w, 0));
            if (d->k == SUM && d->ops.size() == 1 && a->w <= 64) { // co * x + c == 0 with co a power of two: solve modulo
                APInt k = d->co[0]; unsigned tz = k.countTrailingZeros();
                if (d->c.countTrailingZeros() < tz && d->c != 0) return F();
            }
            if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
            return bin(EQ, a, b, 1);
        }
        return eqRaw(a, b);
    }
    X eqRaw(X a, X b) {
        if (a == b) return T();
        if (a->isC()) std::swap(a, b);
        if (b->isC()) {
            if (a->isC()) return this->b(a->c == b->c);
            if (a->w <= 64 && (b->u64() < a->lo || b->u64() > a->hi)) return F();
            if (a->k == VAR && a->w > 1 && a->w <= 64 && a->hi == a->lo + 1 && b->u64() == a->lo) return not_(eqRaw(a, c(a->w, a->hi)));
            switch (a->k) {
            case ZEXT: { unsigned iw = a->ops[0]->w; if (b->c.lshr(iw) != 0) return F(); return eq(a->ops[0], c(b->c.trunc(iw))); }
            case SEXT: { unsigned iw = a->ops[0]->w; if (b->c.trunc(iw).sext(a->w) != b->c) return F(); return eq(a->ops[0], c(b->c.trunc(iw))); }
            case ITE: if (a->ops[1]->isC() || a->ops[2]->isC()) return ite(a->ops[0], eq(a->ops[1], b), eq(a->ops[2], b)); break;
            case CONCAT: { unsigned lw = a->ops[1]->w; return and_(eq(a->ops[0], c(b->c.lshr(lw).trunc(a->w - lw))), eq(a->ops[1], c(b->c.trunc(lw)))); }
            case XOR: if (a->ops[1]->isC()) return eq(a->ops[0], c(a->ops[1]->c ^ b->c)); break;
            default: break;
            }
        } else {
            if (a->k == ZEXT && b->k == ZEXT && a->ops[0]->w == b->ops[0]->w) return eq(a->ops[0], b->ops[0]);
            if (a->k == SEXT && b->k == SEXT && a->ops[0]->w == b->ops[0]->w) return eq(a->ops[0], b->ops[0]);
            if (a->k == CONCAT && b->k == CONCAT && a->ops[1]->w == b->ops[1]->w) return and_(eq(a->ops[0], b->ops[0]), eq(a->ops[1], b->ops[1]));
            if (a->id > b->id) std::swap(a, b);
        }
        return bin(EQ, a, b, 1);
    }
    X ult(X a, X b) {
        if (a == b) return F();
        if (a->isC() && b->isC()) return this->b(a->c.ult(b->c));
        if (b->is(0)) return F();
        if (a->isC() && a->c.isAllOnes()) return F();
        if (a->w <= 64) { if (a->hi < b->lo) return T(); if (a->lo >= b->hi) return F(); }
        if (a->w == 1) return and_(not_(a), b);
        if (b->is(1)) return eq(a, c(a->w, 0));
        if (a->is(0)) return not_(eq(b, a));
        if (a->k == ZEXT && b->k == ZEXT && a->ops[0]->w == b->ops[0]->w) return ult(a->ops[0], b->ops[0]);
        if (a->k == ZEXT && b->isC()) { unsigned iw = a->ops[0]->w; if (b->c.lshr(iw) != 0) return T(); return ult(a->ops[0], c(b->c.trunc(iw))); }
        if (b->k == ZEXT && a->isC()) { unsigned iw = b->ops[0]->w; if (a->c.lshr(iw) != 0) return F(); return ult(c(a->c.trunc(iw)), b->ops[0]); }
        if (b->isC() && a->k == ITE && a->ops[1]->isC() && a->ops[2]->isC()) return ite(a->ops[0], ult(a->ops[1], b), ult(a->ops[2], b));
        if (a->isC() && b->k == ITE && b->ops[1]->isC() && b->ops[2]->isC()) return ite(b->ops[0], ult(a, b->ops[1]), ult(a, b->ops[2]));
        // common terms without wrap-around on either side cancel
        if (a->w <= 64 && a->k == SUM && b->k == SUM && nowrap(a) && nowrap(b)) { X r = cancel(a, b); if (r) return r; }
        if (a->w <= 64 && a->k == SUM && nowrap(a) && b->isC()) { X r = cancel(a, b); if (r) return r; }
        if (a->w <= 64 && b->k == SUM && nowrap(b) && a->isC()) { X r = cancel(a, b); if (r) return r; }
        return bin(ULT, a, b, 1);
    }
    X ule(X a, X b) { return not_(ult(b, a)); }
    X slt(X a, X b) {
        if (a == b) return F();
        if (a->isC() && b->isC()) return this->b(a->c.slt(b->c));
        if (a->w == 1) return and_(a, not_(b));
        if (a->w <= 64) { uint64_t sb = 1ull << (a->w - 1);
            if (a->hi < sb && b->hi < sb) return ult(a, b);
            if (a->lo >= sb && b->lo >= sb) return ult(a, b);
            if (a->lo >= sb && b->hi < sb) return T();
            if (a->hi < sb && b->lo >= sb) return F(); }
        if (a->k == SEXT && b->k == SEXT && a->ops[0]->w == b->ops[0]->w) return slt(a->ops[0], b->ops[0]);
        if (a->k == SEXT && b->isC()) { unsigned iw = a->ops[0]->w; APInt t = b->c.trunc(iw); if (t.sext(a->w) == b->c) return slt(a->ops[0], c(t)); return this->b(!b->c.isNegative()); }
        if (b->k == SEXT && a->isC()) { unsigned iw = b->ops[0]->w; APInt t = a->c.trunc(iw); if (t.sext(a->w) == a->c) return slt(c(t), b->ops[0]); return this->b(a->c.isNegative()); }
        if ((a->k == SUM || b->k == SUM) && sfits(a) && sfits(b)) { // no signed overflow on either side: the signs of a - b decide
            Lin d, p, q; d.c = p.c = q.c = APInt(a->w, 0); addTo(d, a, APInt(a->w, 1)); addTo(d, b, APInt::getAllOnes(a->w)); X x = fromLin(d, a->w);
            if (x->k == SUM || x->isC()) { if (x->c.isNegative()) q.c = -x->c; else p.c = x->c;
                for (size_t i = 0; i < x->ops.size(); ++i) if (x->co[i].isNegative()) addTo(q, x->ops[i], -x->co[i]); else addTo(p, x->ops[i], x->co[i]);
                X l = fromLin(p, a->w), r = fromLin(q, a->w); if (nowrap(l) && nowrap(r)) return ult(l, r); } }
        return bin(SLT, a, b, 1);
    }
    X sle(X a, X b) { return not_(slt(b, a)); }
    X ite(X p, X t, X f) {
        if (p->isC()) return p->is(1) ? t : f;
        if (t == f) return t;
        if (isNot(p)) { p = p->ops[0]; std::swap(t, f); }
        if (t->k == ITE && t->ops[0] == p) t = t->ops[1];
        if (f->k == ITE && f->ops[0] == p) f = f->ops[2];
        if (t == f) return t;
        if (t->w == 1) {
            if (t->is(1) && f->is(0)) return p; if (t->is(0) && f->is(1)) return not_(p);
            if (t->is(1)) return or_(p, f); if (f->is(0)) return and_(p, t);
            if (t->is(0)) return and_(not_(p), f); if (f->is(1)) return or_(not_(p), t); }
        E e; e.k = ITE; e.w = t->w; e.c = APInt(t->w, 0); e.ops = {p, t, f}; return mk(std::move(e));
    }
    X extract(X a, unsigned off, unsigned w) {
        if (off == 0 && w == a->w) return a;
        switch (a->k) {
        case CONST: return c(a->c.extractBits(w, off));
        case EXTRACT: return extract(a->ops[0], a->off + off, w);
        case ZEXT: { X i = a->ops[0]; if (off >= i->w) return c(w, 0); if (off + w <= i->w) return extract(i, off, w); return zext(extract(i, off, i->w - off), w); }
        case SEXT: { X i = a->ops[0]; if (off + w <= i->w) return extract(i, off, w); if (off < i->w) return sext(extract(i, off, i->w - off), w); break; }
        case CONCAT: { X lo = a->ops[1], hi = a->ops[0]; if (off >= lo->w) return extract(hi, off - lo->w, w); if (off + w <= lo->w) return extract(lo, off, w);
            return concat(extract(hi, 0, off + w - lo->w), extract(lo, off, lo->w - off)); }
        case ITE: if (a->ops[1]->isC() || a->ops[2]->isC()) return ite(a->ops[0], extract(a->ops[1], off, w), extract(a->ops[2], off, w)); break;
        case AND: if (a->ops[1]->isC()) return and_(extract(a->ops[0], off, w), extract(a->ops[1], off, w)); break;
        case OR: if (a->ops[1]->isC()) return or_(extract(a->ops[0], off, w), extract(a->ops[1], off, w)); break;
        case XOR: if (a->ops[1]->isC()) return xor_(extract(a->ops[0], off, w), extract(a->ops[1], off, w)); break;
        case SUM:
            if (off == 0) { Lin l; l.c = a->c.trunc(w); for (size_t i = 0; i < a->ops.size(); ++i) { APInt k = a->co[i].trunc(w); if (k != 0) addTo(l, extract(a->ops[i], 0, w), k); } return fromLin(l, w); }
            { // all terms multiples of 2^off and no wrap: shift them out
                if (a->w <= 64 && nowrap(a) && a->c.countTrailingZeros() >= off && off + w == a->w) {
                    bool ok = true; for (auto& k : a->co) if (k.countTrailingZeros() < off) ok = false;
                    if (ok) { Lin l; l.c = a->c.lshr(off); for (size_t i = 0; i < a->ops.size(); ++i) addTo(l, a->ops[i], a->co[i].lshr(off)); return extract(fromLin(l, a->w), 0, w); } }
                if (a->w <= 64 && a->hi < (off >= 64 ? ~0ull : (1ull << off))) return c(w, 0);
            }
            break;
        default: break;
        }
        E e; e.k = EXTRACT; e.w = w; e.off = off; e.c = APInt(w, 0); e.ops = {a}; return mk(std::move(e));
    }
    X concat(X hi, X lo) {
        if (hi->isC() && lo->isC()) return c(hi->c.zext(hi->w + lo->w).shl(lo->w) | lo->c.zext(hi->w + lo->w));
        if (hi->isC() && hi->c == 0) return zext(lo, hi->w + lo->w);
        if (hi->k == EXTRACT && lo->k == EXTRACT && hi->ops[0] == lo->ops[0] && hi->off == lo->off + lo->w) return extract(lo->ops[0], lo->off, hi->w + lo->w);
        E e; e.k = CONCAT; e.w = hi->w + lo->w; e.c = APInt(e.w, 0); e.ops = {hi, lo}; return mk(std::move(e));
    }
    X zext(X a, unsigned w) { if (w == a->w) return a; if (a->isC()) return c(a->c.zext(w)); if (a->k == ZEXT) a = a->ops[0];
        if (a->k == ITE && a->ops[1]->isC() && a->ops[2]->isC()) return ite(a->ops[0], zext(a->ops[1], w), zext(a->ops[2], w));
        E e; e.k = ZEXT; e.w = w; e.c = APInt(w, 0); e.ops = {a}; return mk(std::move(e)); }
    X sext(X a, unsigned w) { if (w == a->w) return a; if (a->isC()) return c(a->c.sext(w)); if (a->k == SEXT) a = a->ops[0];
        if (a->k == ZEXT) return zext(a->ops[0], w);
        if (a->k == ITE && a->ops[1]->isC() && a->ops[2]->isC()) return ite(a->ops[0], sext(a->ops[1], w), sext(a->ops[2], w));
        if (a->w <= 64 && a->w > 1 && a->hi < (1ull << (a->w - 1))) return zext(a, w);
        E e; e.k = SEXT; e.w = w; e.c = APInt(w, 0); e.ops = {a}; return mk(std::move(e)); }

    // ---- the same operation on other operands
    X rebuild(X e, const std::vector<X>& o) {
        switch (e->k) {
        case CONST: case VAR: return e;
        case SUM: { Lin l; l.c = e->c; for (size_t i = 0; i < o.size(); ++i) addTo(l, o[i], e->co[i]); return fromLin(l, e->w); }
        case MUL: return mul(o[0], o[1]); case UDIV: return udiv(o[0], o[1]); case SDIV: return sdiv(o[0], o[1]); case UREM: return urem(o[0], o[1]); case SREM: return srem(o[0], o[1]);
        case AND: return and_(o[0], o[1]); case OR: return or_(o[0], o[1]); case XOR: return xor_(o[0], o[1]);
        case SHL: return shl(o[0], o[1]); case LSHR: return lshr(o[0], o[1]); case ASHR: return ashr(o[0], o[1]);
        case EQ: return eq(o[0], o[1]); case ULT: return ult(o[0], o[1]); case SLT: return slt(o[0], o[1]);
        case ITE: return ite(o[0], o[1], o[2]); case CONCAT: return concat(o[0], o[1]); case EXTRACT: return extract(o[0], e->off, e->w);
        case ZEXT: return zext(o[0], e->w); case SEXT: return sext(o[0], e->w);
        }
        return e;
    }
    // ---- evaluation under an assignment
    using Model = std::unordered_map<uint32_t, APInt>;
    APInt eval(X e, const Model& m) { ++stamp_; return ev(e, m); }

    // ---- Z3
    Z3_ast z(X e) {
        if (e->z) return e->z; // the context keeps every term alive
        Z3_ast r = nullptr; auto& o = e->ops;
        auto BV1 = [&](Z3_ast b) { return Z3_mk_ite(z3, b, num(APInt(1, 1)), num(APInt(1, 0))); };
        switch (e->k) {
        case CONST: r = num(e->c); break;
        case VAR: r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, ("v" + std::to_string(e->off)).c_str()), Z3_mk_bv_sort(z3, e->w)); break;
        case SUM: { for (size_t i = 0; i < o.size(); ++i) { Z3_ast t = z(o[i]); if (e->co[i] != 1) t = Z3_mk_bvmul(z3, num(e->co[i]), t); r = r ? Z3_mk_bvadd(z3, r, t) : t; }
            if (e->c != 0) r = Z3_mk_bvadd(z3, r, num(e->c)); break; }
        case MUL: r = Z3_mk_bvmul(z3, z(o[0]), z(o[1])); break;
        case UDIV: r = Z3_mk_bvudiv(z3, z(o[0]), z(o[1])); break;
        case SDIV: r = Z3_mk_bvsdiv(z3, z(o[0]), z(o[1])); break;
        case UREM: r = Z3_mk_bvurem(z3, z(o[0]), z(o[1])); break;
        case SREM: r = Z3_mk_bvsrem(z3, z(o[0]), z(o[1])); break;
        case AND: r = Z3_mk_bvand(z3, z(o[0]), z(o[1])); break;
        case OR: r = Z3_mk_bvor(z3, z(o[0]), z(o[1])); break;
        case XOR: r = Z3_mk_bvxor(z3, z(o[0]), z(o[1])); break;
        case SHL: r = Z3_mk_bvshl(z3, z(o[0]), z(o[1])); break;
        case LSHR: r = Z3_mk_bvlshr(z3, z(o[0]), z(o[1])); break;
        case ASHR: r = Z3_mk_bvashr(z3, z(o[0]), z(o[1])); break;
        case EQ: r = BV1(Z3_mk_eq(z3, z(o[0]), z(o[1]))); break;
        case ULT: r = BV1(Z3_mk_bvult(z3, z(o[0]), z(o[1]))); break;
        case SLT: r = BV1(Z3_mk_bvslt(z3, z(o[0]), z(o[1]))); break;
        case ITE: r = Z3_mk_ite(z3, zb(o[0]), z(o[1]), z(o[2])); break;
        case CONCAT: r = Z3_mk_concat(z3, z(o[0]), z(o[1])); break;
        case EXTRACT: r = Z3_mk_extract(z3, e->off + e->w - 1, e->off, z(o[0])); break;
        case ZEXT: r = Z3_mk_zero_ext(z3, e->w - o[0]->w, z(o[0])); break;
        case SEXT: r = Z3_mk_sign_ext(z3, e->w - o[0]->w, z(o[0])); break;
        }
        e->z = r; return r;
    }
    // ---- the same over the integers, exact where it answers: sums that cannot leave the signed range are linear terms
    std::unordered_map<X, Z3_ast> iu_, ib_;
    Z3_ast inum(const APInt& v, bool sgn) { llvm::SmallString<40> t; v.toString(t, 10, sgn); return Z3_mk_numeral(z3, t.c_str(), Z3_mk_int_sort(z3)); }
    Z3_ast ivar(X v) { return Z3_mk_const(z3, Z3_mk_string_symbol(z3, ("i" + std::to_string(v->off)).c_str()), Z3_mk_int_sort(z3)); }
    Z3_ast isum(X e) { // signed value of a sum that fits
        Z3_ast r[2] = {nullptr, nullptr}; auto plus = [&](Z3_ast t) { if (!r[0]) r[0] = t; else { r[1] = t; r[0] = Z3_mk_add(z3, 2, r); } };
        for (size_t i = 0; i < e->ops.size(); ++i) { Z3_ast t = iu(e->ops[i]); if (!t) return nullptr; if (e->co[i] != 1) { Z3_ast m[2] = {inum(e->co[i], true), t}; t = Z3_mk_mul(z3, 2, m); } plus(t); }
        if (e->c != 0) plus(inum(e->c, true));
        return r[0]; }
    Z3_ast iu(X e) { // unsigned value
        auto it = iu_.find(e); if (it != iu_.end()) return it->second;
        Z3_ast r = nullptr; auto& o = e->ops;
        switch (e->k) {
        case CONST: r = inum(e->c, false); break;
        case VAR: r = ivar(e); break;
        case ZEXT: r = iu(o[0]); break;
        case SUM: if (sfits(e)) { r = isum(e); if (r && !nowrap(e)) { Z3_ast p[2] = {r, inum(APInt(e->w + 2, 1).shl(e->w), false)}; r = Z3_mk_ite(z3, Z3_mk_lt(z3, r, inum(APInt(2, 0), false)), Z3_mk_add(z3, 2, p), r); } } break;
        case ITE: { Z3_ast p = ib(o[0]), t = iu(o[1]), f = iu(o[2]); if (p && t && f) r = Z3_mk_ite(z3, p, t, f); break; }
        default: if (e->w == 1) { Z3_ast b = ib(e); if (b) r = Z3_mk_ite(z3, b, inum(APInt(2, 1), false), inum(APInt(2, 0), false)); } break;
        }
        iu_[e] = r; return r; }
    Z3_ast is(X e) { return e->k == SUM ? isum(e) : e->isC() ? inum(e->c, true) : iu(e); } // signed value, of what fits
    Z3_ast ib(X e) {
        auto it = ib_.find(e); if (it != ib_.end()) return it->second;
        Z3_ast r = nullptr; auto& o = e->ops; Z3_ast a[2];
        auto both = [&](auto f) { a[0] = f(o[0]); a[1] = f(o[1]); return a[0] && a[1]; }; auto U = [&](X x) { return iu(x); }; auto S = [&](X x) { return is(x); }; auto B = [&](X x) { return ib(x); };
        switch (e->k) {
        case CONST: r = e->is(1) ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
        case VAR: r = Z3_mk_eq(z3, ivar(e), inum(APInt(2, 1), false)); break;
        case EQ: if (sfits(o[0]) && sfits(o[1]) ? both(S) : both(U)) r = Z3_mk_eq(z3, a[0], a[1]); break;
        case ULT: if (both(U)) r = Z3_mk_lt(z3, a[0], a[1]); break;
        case SLT: if (sfits(o[0]) && sfits(o[1]) && both(S)) r = Z3_mk_lt(z3, a[0], a[1]); break;
        case AND: if (both(B)) r = Z3_mk_and(z3, 2, a); break;
        case OR: if (both(B)) r = Z3_mk_or(z3, 2, a); break;
        case XOR: if (both(B)) r = Z3_mk_xor(z3, a[0], a[1]); break;
        case ITE: { Z3_ast p = ib(o[0]); if (p && o[1]->w == 1) { Z3_ast t = ib(o[1]), f = ib(o[2]); if (t && f) r = Z3_mk_ite(z3, p, t, f); } break; }
        default: break;
        }
        ib_[e] = r; return r; }
    Z3_ast zb(X e) { // as a Boolean
        auto& o = e->ops; Z3_ast a[2];
        if (e->w == 1) switch (e->k) {
        case CONST: return e->is(1) ? Z3_mk_true(z3) : Z3_mk_false(z3);
        case EQ: return Z3_mk_eq(z3, z(o[0]), z(o[1]));
        case ULT: return Z3_mk_bvult(z3, z(o[0]), z(o[1]));
        case SLT: return Z3_mk_bvslt(z3, z(o[0]), z(o[1]));
        case XOR: if (o[1]->is(1)) return Z3_mk_not(z3, zb(o[0])); break;
        case AND: a[0] = zb(o[0]); a[1] = zb(o[1]); return Z3_mk_and(z3, 2, a);
        case OR: a[0] = zb(o[0]); a[1] = zb(o[1]); return Z3_mk_or(z3, 2, a);
        default: break;
        }
        return Z3_mk_eq(z3, z(e), num(APInt(1, 1)));
    }
private:
    std::unordered_set<X, HashE, EqE> table_;
    std::vector<std::unique_ptr<E>> all_;
    uint32_t stamp_ = 0; uint64_t varlo_ = 0, varhi_ = ~0ull;
    std::shared_ptr<const std::vector<uint32_t>> none_ = std::make_shared<std::vector<uint32_t>>();

    Z3_ast num(const APInt& v) { llvm::SmallString<40> s; v.toString(s, 10, false); return Z3_mk_numeral(z3, s.c_str(), Z3_mk_bv_sort(z3, v.getBitWidth())); }
    X bin(K k, X a, X b, unsigned w = 0) { E e; e.k = k; e.w = w ? w : a->w; e.c = APInt(e.w, 0); e.ops = {a, b}; return mk(std::move(e)); }

    bool disjoint(X a, X b) { // a < 2^k and b a multiple of 2^k
        unsigned tz = 0; if (b->k == SUM) { tz = b->c == 0 ? b->w : b->c.countTrailingZeros(); for (auto& k : b->co) tz = std::min(tz, k.countTrailingZeros()); }
        return tz && tz < 64 && a->hi < (1ull << tz); }
    bool nowrap(X s) const { // no wrap-around within the variables' ranges, coefficients positive
        if (s->k != SUM) return true;
        unsigned __int128 t = s->c.getZExtValue();
        for (size_t i = 0; i < s->ops.size(); ++i) { if (s->co[i].isNegative() && s->w > 1) return false; t += (unsigned __int128)s->co[i].getZExtValue() * s->ops[i]->hi; if (t >> 100) return false; }
        return t <= (s->w == 64 ? ~0ull : ((1ull << s->w) - 1)); }
    bool sfits(X s) const { // the sum, taken over the integers with signed coefficients, stays within the signed range
        if (s->w > 64 || s->w < 2) return false;
        __int128 lo = 0, hi = 0, lim = (__int128)1 << (s->w - 1);
        if (s->k == SUM) { lo = hi = s->c.getSExtValue();
            for (size_t i = 0; i < s->ops.size(); ++i) { __int128 k = s->co[i].getSExtValue(), a = s->ops[i]->lo, b = s->ops[i]->hi; if (b >= lim || k > ((__int128)1 << 40) || -k > ((__int128)1 << 40)) return false;
                lo += k < 0 ? k * b : k * a; hi += k < 0 ? k * a : k * b; } }
        else { lo = s->isC() ? (__int128)s->c.getSExtValue() : (__int128)s->lo; hi = s->isC() ? lo : (__int128)s->hi; }
        return lo >= -lim && hi < lim; }
    X exactDiv(X a, const APInt& d) { // a / d for a sum of multiples of d
        if (a->k != SUM || !sfits(a) || a->c.srem(d) != 0) return nullptr;
        for (auto& k : a->co) if (k.srem(d) != 0) return nullptr;
        Lin l; l.c = a->c.sdiv(d); for (size_t i = 0; i < a->ops.size(); ++i) addTo(l, a->ops[i], a->co[i].sdiv(d)); return fromLin(l, a->w); }
    X cancel(X a, X b) { // a < b, neither side wraps: bring to positive terms on both sides
        Lin la, lb; la.c = lb.c = APInt(a->w, 0); bool changed = false;
        addTo(la, a, APInt(a->w, 1)); addTo(lb, b, APInt(a->w, 1));
        for (auto& p : la.t) for (auto& q : lb.t) if (p.first == q.first && p.second != 0 && q.second != 0) { APInt m = p.second.ult(q.second) ? p.second : q.second; p.second -= m; q.second -= m; changed = true; }
        APInt m = la.c.ult(lb.c) ? la.c : lb.c; if (m != 0) { changed = true; la.c -= m; lb.c -= m; }
        else if ((la.t.empty() || lb.t.empty()) && la.t.size() + lb.t.size() == 1) {
            // k*x < c  or  c < k*x : divide
            if (lb.t.empty() && la.c == 0 && la.t[0].second != 1) { APInt k = la.t[0].second; APInt q = (lb.c + k - 1).udiv(k); if (lb.c.ule(APInt::getAllOnes(a->w) - k)) return ult(la.t[0].first, c(q)); }
            if (la.t.empty() && lb.c == 0 && lb.t[0].second != 1) { APInt k = lb.t[0].second; return ult(c(la.c.udiv(k)), lb.t[0].first); }
        }
        if (!changed) return nullptr;
        return ult(fromLin(la, a->w), fromLin(lb, a->w)); }

    X mk(E&& e) {
        size_t h = e.k * 1000003u + e.w * 7919u + e.off * 31u + llvm::hash_value(e.c);
        for (auto o : e.ops) h = h * 1000003u ^ (o->id + 0x9e3779b9u);
        for (auto& k : e.co) h = h * 31 + llvm::hash_value(k);
        e.h = h;
        auto it = table_.find(&e);
        if (it != table_.end()) return *it;
        auto p = std::make_unique<E>(std::move(e));
        p->id = all_.size() + 1;
        // variables
        if (p->k == VAR) p->vars = std::make_shared<std::vector<uint32_t>>(1, p->off);
        else if (p->ops.empty()) p->vars = none_;
        else {
            const E* big = p->ops[0]; for (auto o : p->ops) if (o->vars->size() > big->vars->size()) big = o;
            bool same = true; for (auto o : p->ops) if (o != big && !std::includes(big->vars->begin(), big->vars->end(), o->vars->begin(), o->vars->end())) { same = false; break; }
            if (same) p->vars = big->vars;
            else { auto v = std::make_shared<std::vector<uint32_t>>(); for (auto o : p->ops) v->insert(v->end(), o->vars->begin(), o->vars->end());
                std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); p->vars = v; }
        }
        if (p->w <= 64) range(*p);
        X r = p.get(); all_.push_back(std::move(p)); table_.insert(r); return r;
    }
    void range(E& e) {
        uint64_t mask = e.w == 64 ? ~0ull : ((1ull << e.w) - 1); e.lo = 0; e.hi = mask; auto& o = e.ops;
        switch (e.k) {
        case CONST: e.lo = e.hi = e.c.getZExtValue(); break;
        case VAR: e.lo = varlo_; e.hi = varhi_; break;
        case ZEXT: e.lo = o[0]->lo; e.hi = o[0]->hi; break;
        case ITE: e.lo = std::min(o[1]->lo, o[2]->lo); e.hi = std::max(o[1]->hi, o[2]->hi); break;
        case AND: e.hi = std::min(o[0]->hi, o[1]->hi); break;
        case UREM: if (o[1]->isC() && o[1]->u64()) e.hi = o[1]->u64() - 1; break;
        case UDIV: if (o[1]->isC() && o[1]->u64()) { e.lo = o[0]->lo / o[1]->u64(); e.hi = o[0]->hi / o[1]->u64(); } break;
        case SUM: if (nowrap(&e)) { e.lo = e.c.getZExtValue(); e.hi = e.lo; for (size_t i = 0; i < o.size(); ++i) { e.lo += e.co[i].getZExtValue() * o[i]->lo; e.hi += e.co[i].getZExtValue() * o[i]->hi; } } break;
        case EXTRACT: if (o[0]->w <= 64) { if (e.off == 0 && o[0]->hi <= mask) { e.lo = o[0]->lo; e.hi = o[0]->hi; } else if (e.off) e.hi = std::min(mask, o[0]->hi >> e.off); } break;
        default: break;
        }
    }
    const APInt& ev(X e, const Model& m) {
        if (e->stamp == stamp_) return e->ev;
        auto& o = e->ops; APInt r;
        auto B = [&](bool v) { return APInt(1, v); };
        switch (e->k) {
        case CONST: r = e->c; break;
        case VAR: { auto it = m.find(e->off); r = it == m.end() ? APInt(e->w, vars[e->off].lo) : it->second; break; }
        case SUM: r = e->c; for (size_t i = 0; i < o.size(); ++i) r += e->co[i] * ev(o[i], m); break;
        case MUL: r = ev(o[0], m) * ev(o[1], m); break;
        case UDIV: { APInt d = ev(o[1], m); r = d == 0 ? APInt::getAllOnes(e->w) : ev(o[0], m).udiv(d); break; }
        case UREM: { APInt d = ev(o[1], m); r = d == 0 ? ev(o[0], m) : ev(o[0], m).urem(d); break; }
        case SDIV: { APInt d = ev(o[1], m); APInt n = ev(o[0], m); r = d == 0 ? (n.isNegative() ? APInt(e->w, 1) : APInt::getAllOnes(e->w)) : n.sdiv(d); break; }
        case SREM: { APInt d = ev(o[1], m); r = d == 0 ? ev(o[0], m) : ev(o[0], m).srem(d); break; }
        case AND: r = ev(o[0], m) & ev(o[1], m); break;
        case OR: r = ev(o[0], m) | ev(o[1], m); break;
        case XOR: r = ev(o[0], m) ^ ev(o[1], m); break;
        case SHL: { APInt s = ev(o[1], m); r = s.uge(e->w) ? APInt(e->w, 0) : ev(o[0], m).shl(s); break; }
        case LSHR: { APInt s = ev(o[1], m); r = s.uge(e->w) ? APInt(e->w, 0) : ev(o[0], m).lshr(s); break; }
        case ASHR: { APInt s = ev(o[1], m); APInt a = ev(o[0], m); r = s.uge(e->w) ? a.ashr(e->w - 1) : a.ashr(s); break; }
        case EQ: { APInt a = ev(o[0], m); r = B(a == ev(o[1], m)); break; }
        case ULT: { APInt a = ev(o[0], m); r = B(a.ult(ev(o[1], m))); break; }
        case SLT: { APInt a = ev(o[0], m); r = B(a.slt(ev(o[1], m))); break; }
        case ITE: r = ev(o[0], m) == 1 ? ev(o[1], m) : ev(o[2], m); break;
        case CONCAT: { APInt h = ev(o[0], m).zext(e->w).shl(o[1]->w); r = h | ev(o[1], m).zext(e->w); break; }
        case EXTRACT: r = ev(o[0], m).extractBits(e->w, e->off); break;
        case ZEXT: r = ev(o[0], m).zext(e->w); break;
        case SEXT: r = ev(o[0], m).sext(e->w); break;
        }
        e->ev = r; e->stamp = stamp_; return e->ev;
    }
};

inline std::string show(X e, int d = 0) {
    auto num = [](const APInt& v) { llvm::SmallString<40> s; v.toString(s, 10, false); return std::string(s.str()); };
    static const char* n[] = {"c","v","+","*","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","<u","<s","ite","concat","extract","zext","sext"};
    if (e->k == CONST) return num(e->c);
    if (e->k == VAR) return "v" + std::to_string(e->off);
    if (d > 6) return "...";
    std::string s = std::string("(") + n[e->k];
    if (e->k == EXTRACT) s += "[" + std::to_string(e->off) + "+" + std::to_string(e->w) + "]";
    for (size_t i = 0; i < e->ops.size(); ++i) { s += " "; if (e->k == SUM && e->co[i] != 1) s += num(e->co[i]) + "*"; s += show(e->ops[i], d + 1); }
    if (e->k == SUM) s += " " + num(e->c);
    return s + ")";
}
} // namespace sx
