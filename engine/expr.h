// Hash-consed bit-vector / IEEE-754 expression DAG with local simplification,
// evaluation under a concrete assignment, and variable sets for slicing.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <bitset>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace eng {
using llvm::APInt;

constexpr unsigned kMaxVars = 640;
using VarSet = std::bitset<kMaxVars>;

enum class Op : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt,
    Ite, Concat, Extract, ZExt, SExt,
    // floating point: operands and results are IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FToSI, FToUI, SIToF, UIToF,
    FConv, FRound, FSqrt
};

struct Expr {
    Op op = Op::Const;
    unsigned width;
    unsigned aux;      // Extract: low bit; FRound: mode; Var: id
    APInt c;           // Const
    const Expr *a, *b, *d;
    VarSet vars;
    uint32_t id;
    size_t hash;
    mutable uint32_t evalGen = 0;
    mutable APInt evalVal;
    mutable void *z3bv = nullptr, *z3bool = nullptr, *z3fp = nullptr;
    bool div = false;  // contains a wide integer division
    bool fp = false;   // contains a floating-point operation
    bool isConst() const { return op == Op::Const; }
};
using E = const Expr *;

struct VarInfo { std::string name; unsigned width; };

// ---- floating point helpers on bit patterns --------------------------------
inline const llvm::fltSemantics &sem(unsigned w) {
    switch (w) {
    case 16: return llvm::APFloat::IEEEhalf();
    case 32: return llvm::APFloat::IEEEsingle();
    case 64: return llvm::APFloat::IEEEdouble();
    case 80: return llvm::APFloat::x87DoubleExtended();
    default: return llvm::APFloat::IEEEquad();
    }
}
inline llvm::APFloat toF(const APInt &v) { return llvm::APFloat(sem(v.getBitWidth()), v); }

class Ctx {
public:
    std::vector<VarInfo> vars;
    uint64_t nodes = 0;

    E constant(APInt v) {
        Expr t = blank(Op::Const, v.getBitWidth());
        t.c = v;
        return intern(t);
    }
    E constant(unsigned w, uint64_t v) { return constant(APInt(w, v)); }
    E bit(bool b) { return constant(1, b); }
    E var(const std::string &name, unsigned w) {
        if (vars.size() >= kMaxVars) { fprintf(stderr, "engine: too many symbolic variables\n"); exit(3); }
        Expr t = blank(Op::Var, w);
        t.aux = vars.size();
        t.vars.set(t.aux);
        vars.push_back({name, w});
        return intern(t);
    }
    E isZeroBit(E x) { return mkXor(x, bit(true)); } // width-1 not
    E mkNot(E x) { return mkXor(x, constant(APInt::getAllOnes(x->width))); }

    // --- arithmetic
    // a choice between at most `left` constants and terms with a constant offset: how many remain
    static int offsets(E a, int left) {
        if (left <= 0) return 0;
        if (a->op == Op::Ite) { left = offsets(a->b, left); return offsets(a->d, left); }
        return a->isConst() || (a->op == Op::Add && a->b->isConst()) ? left - 1 : 0;
    }
    E mkAdd(E a, E b) {
        if (a->isConst() && b->isConst()) return constant(a->c + b->c);
        if (a->isConst()) std::swap(a, b);
        if (b->isConst()) {
            if (b->c.isZero()) return a;
            if (a->op == Op::Add && a->b->isConst()) return mkAdd(a->a, constant(a->b->c + b->c));
            if (a->op == Op::Sub && a->a->isConst()) return mkSub(constant(a->a->c + b->c), a->b);
            if (a->op == Op::Ite && offsets(a, 8) > 0) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->d, b));
        } else {
            if (a->op == Op::Add && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
            if (b->op == Op::Add && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
            if (a->id > b->id) std::swap(a, b);
        }
        if (a->width == 1) return mkXor(a, b);
        return bin(Op::Add, a, b);
    }
    E mkSub(E a, E b) {
        if (a == b) return constant(a->width, 0);
        if (b->isConst()) return mkAdd(a, constant(-b->c));
        if (a->op == Op::Add && a->b->isConst() && !b->isConst()) {
            if (a->a == b) return a->b;
            return mkAdd(mkSub(a->a, b), a->b);
        }
        if (b->op == Op::Add && b->b->isConst()) return mkAdd(mkSub(a, b->a), constant(-b->b->c));
        if (a->width == 1) return mkXor(a, b);
        if (a->isConst() && b->op == Op::Sub && b->a->isConst()) return mkAdd(b->b, constant(a->c - b->a->c));
        if (b->op == Op::Mul && b->a->op == Op::UDiv && b->b->isConst() && b->a->a == a && b->a->b == b->b) return mkURem(a, b->b);
        if (a->isConst() && a->width > 8) { // C - x = (C - M) + (M - x) in the width of M, the bound of x
            APInt m = umax(b);
            unsigned nw = m.getActiveBits();
            if (nw > 0 && nw < a->width && m.ule(a->c) && b->op == Op::ZExt) {
                nw = std::max(nw, b->a->width);
                if (nw < a->width) return mkAdd(mkZExt(bin(Op::Sub, constant(m.trunc(nw)), mkExtract(b, 0, nw)), a->width), constant(a->c - m));
            }
        }
        return bin(Op::Sub, a, b);
    }
    E mkMul(E a, E b) {
        if (a->isConst() && b->isConst()) return constant(a->c * b->c);
        if (a->isConst()) std::swap(a, b);
        if (b->isConst()) {
            if (b->c.isZero()) return b;
            if (b->c.isOne()) return a;
            if (b->c.isPowerOf2()) return mkShl(a, constant(a->width, b->c.logBase2()));
        } else if (a->id > b->id) std::swap(a, b);
        return bin(Op::Mul, a, b);
    }
    // division by zero is checked by the executor before these are built
    E mkUDiv(E a, E b) {
        if (a->isConst() && b->isConst() && !b->c.isZero()) return constant(a->c.udiv(b->c));
        if (b->isConst() && b->c.isOne()) return a;
        if (b->isConst() && b->c.isPowerOf2()) return mkLShr(a, constant(a->width, b->c.logBase2()));
        if (b->isConst() && a->op == Op::UDiv && a->b->isConst() && !a->b->c.isZero() && !b->c.isZero()) { // x / c / d = x / (c * d)
            bool ov = false;
            APInt m = a->b->c.umul_ov(b->c, ov);
            return ov ? constant(a->width, 0) : mkUDiv(a->a, constant(m));
        }
        if (E r = narrowDiv(a, b, false)) return r;
        return bin(Op::UDiv, a, b);
    }
    E mkURem(E a, E b) {
        if (a->isConst() && b->isConst() && !b->c.isZero()) return constant(a->c.urem(b->c));
        if (b->isConst() && b->c.isOne()) return constant(a->width, 0);
        if (b->isConst() && b->c.isPowerOf2()) return mkAnd(a, constant(b->c - 1));
        if (E r = narrowDiv(a, b, true)) return r;
        return bin(Op::URem, a, b);
    }
    E mkSDiv(E a, E b) {
        if (a->isConst() && b->isConst() && !b->c.isZero()) return constant(a->c.sdiv(b->c));
        if (b->isConst() && b->c.isOne()) return a;
        if (nonNeg(a) && nonNeg(b)) return mkUDiv(a, b);
        if (b->isConst() && b->c.isStrictlyPositive() && a->op == Op::SDiv && a->b->isConst() && a->b->c.isStrictlyPositive()) { // x / c / d = x / (c * d)
            bool ov = false;
            APInt m = a->b->c.smul_ov(b->c, ov);
            if (!ov) return mkSDiv(a->a, constant(m));
            APInt w = a->b->c.zext(2 * a->width) * b->c.zext(2 * a->width);
            if (w.ugt(APInt::getOneBitSet(2 * a->width, a->width - 1))) return constant(a->width, 0);
        }
        return bin(Op::SDiv, a, b);
    }
    E mkSRem(E a, E b) {
        if (a->isConst() && b->isConst() && !b->c.isZero()) return constant(a->c.srem(b->c));
        if (b->isConst() && b->c.isOne()) return constant(a->width, 0);
        if (nonNeg(a) && nonNeg(b)) return mkURem(a, b);
        return bin(Op::SRem, a, b);
    }
    // --- bitwise
    E mkAnd(E a, E b) {
        if (a->isConst() && b->isConst()) return constant(a->c & b->c);
        if (a->isConst()) std::swap(a, b);
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c.isZero()) return b;
            if (b->c.isAllOnes()) return a;
            if (a->op == Op::And && a->b->isConst()) return mkAnd(a->a, constant(a->b->c & b->c));
            if (a->op == Op::ZExt) return mkZExt(mkAnd(a->a, constant(b->c.trunc(a->a->width))), a->width);
            if (a->op == Op::Concat) {
                unsigned lw = a->b->width;
                return mkConcat(mkAnd(a->a, constant(b->c.lshr(lw).trunc(a->a->width))),
                                mkAnd(a->b, constant(b->c.trunc(lw))));
            }
            // low mask -> zext(extract)
            if (b->c.isMask()) {
                unsigned n = b->c.countr_one();
                return mkZExt(mkExtract(a, 0, n), a->width);
            }
        } else {
            if (a->width == 1 && (isNotOf(a, b) || isNotOf(b, a))) return bit(false);
            if (a->id > b->id) std::swap(a, b);
        }
        return bin(Op::And, a, b);
    }
    E mkOr(E a, E b) {
        if (a->isConst() && b->isConst()) return constant(a->c | b->c);
        if (a->isConst()) std::swap(a, b);
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c.isZero()) return a;
            if (b->c.isAllOnes()) return b;
            if (a->op == Op::Or && a->b->isConst()) return mkOr(a->a, constant(a->b->c | b->c));
            if (a->op == Op::Concat) {
                unsigned lw = a->b->width;
                return mkConcat(mkOr(a->a, constant(b->c.lshr(lw).trunc(a->a->width))),
                                mkOr(a->b, constant(b->c.trunc(lw))));
            }
            if (a->op == Op::ZExt && a->a->width < a->width) {
                unsigned lw = a->a->width;
                return mkConcat(constant(b->c.lshr(lw).trunc(a->width - lw)),
                                mkOr(a->a, constant(b->c.trunc(lw))));
            }
        } else {
            if (a->width == 1 && (isNotOf(a, b) || isNotOf(b, a))) return bit(true);
            // or of values with disjoint halves -> concat
            if (E r = disjointOr(a, b)) return r;
            if (E r = disjointOr(b, a)) return r;
            if (a->id > b->id) std::swap(a, b);
        }
        return bin(Op::Or, a, b);
    }
    E mkXor(E a, E b) {
        if (a->isConst() && b->isConst()) return constant(a->c ^ b->c);
        if (a->isConst()) std::swap(a, b);
        if (a == b) return constant(a->width, 0);
        if (b->isConst()) {
            if (b->c.isZero()) return a;
            if (a->op == Op::Xor && a->b->isConst()) return mkXor(a->a, constant(a->b->c ^ b->c));
            if (a->op == Op::Ite && a->b->isConst() && a->d->isConst())
                return mkIte(a->a, constant(a->b->c ^ b->c), constant(a->d->c ^ b->c));
        } else if (a->id > b->id) std::swap(a, b);
        return bin(Op::Xor, a, b);
    }
    E mkShl(E a, E b) {
        if (b->isConst()) {
            if (b->c.uge(a->width)) return constant(a->width, 0);
            unsigned n = b->c.getZExtValue();
            if (n == 0) return a;
            if (a->isConst()) return constant(a->c.shl(n));
            return mkConcat(mkExtract(a, 0, a->width - n), constant(n, 0));
        }
        return bin(Op::Shl, a, b);
    }
    E mkLShr(E a, E b) {
        if (b->isConst()) {
            if (b->c.uge(a->width)) return constant(a->width, 0);
            unsigned n = b->c.getZExtValue();
            if (n == 0) return a;
            return mkZExt(mkExtract(a, n, a->width - n), a->width);
        }
        return bin(Op::LShr, a, b);
    }
    E mkAShr(E a, E b) {
        if (b->isConst()) {
            unsigned n = b->c.uge(a->width) ? a->width - 1 : b->c.getZExtValue();
            if (n == 0) return a;
            if (a->isConst()) return constant(a->c.ashr(n));
            return mkSExt(mkExtract(a, n, a->width - n), a->width);
        }
        return bin(Op::AShr, a, b);
    }
    // --- comparisons
    E mkEq(E a, E b) {
        if (a == b) return bit(true);
        if (a->isConst() && b->isConst()) return bit(a->c == b->c);
        if (a->isConst()) std::swap(a, b);
        if (b->isConst()) {
            if (a->width == 1) return b->c.isOne() ? a : isZeroBit(a);
            switch (a->op) {
            case Op::SDiv: // x / c == 0 exactly when -c < x < c
                if (b->c.isZero() && a->b->isConst() && a->b->c.isStrictlyPositive() && a->b->c.getActiveBits() < a->width - 1)
                    return mkUlt(mkAdd(a->a, constant(a->b->c - 1)), constant(a->b->c + a->b->c - 1));
                break;
            case Op::UDiv: // x / c == k exactly when c * k <= x < c * k + c
                if (a->b->isConst() && !a->b->c.isZero()) {
                    bool ov = false;
                    APInt m = a->b->c.umul_ov(b->c, ov);
                    if (ov) return bit(false);
                    return mkUlt(mkSub(a->a, constant(m)), a->b);
                }
                break;
            case Op::ZExt:
                if (b->c.getActiveBits() > a->a->width) return bit(false);
                return mkEq(a->a, constant(b->c.trunc(a->a->width)));
            case Op::SExt: {
                APInt t = b->c.trunc(a->a->width);
                if (t.sext(a->width) != b->c) return bit(false);
                return mkEq(a->a, constant(t));
            }
            case Op::Add:
                if (a->b->isConst()) return mkEq(a->a, constant(b->c - a->b->c));
                break;
            case Op::Xor:
                if (a->b->isConst()) return mkEq(a->a, constant(b->c ^ a->b->c));
                break;
            case Op::Ite:
                if (a->b->isConst() && a->d->isConst()) {
                    bool t = a->b->c == b->c, f = a->d->c == b->c;
                    if (t && f) return bit(true);
                    if (!t && !f) return bit(false);
                    return t ? a->a : isZeroBit(a->a);
                }
                if (a->b->isConst() || a->d->isConst())
                    return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
                break;
            case Op::Concat: {
                unsigned lw = a->b->width;
                E h = mkEq(a->a, constant(b->c.lshr(lw).trunc(a->a->width)));
                if (h->isConst() && h->c.isZero()) return h;
                return mkAnd(h, mkEq(a->b, constant(b->c.trunc(lw))));
            }
            case Op::And:
                if (a->b->isConst() && !(b->c & ~a->b->c).isZero()) return bit(false);
                break;
            case Op::Or:
                if (a->b->isConst() && !(a->b->c & ~b->c).isZero()) return bit(false);
                break;
            default: break;
            }
        } else {
            if (a->width == 1) return isZeroBit(mkXor(a, b));
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
            if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
            if (a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width)
                return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
            if (a->op == Op::Add && a->b->isConst() && b->op == Op::Add && b->b->isConst())
                return mkEq(mkAdd(a->a, constant(a->b->c - b->b->c)), b->a);
            if (a->id > b->id) std::swap(a, b);
        }
        return cmp(Op::Eq, a, b);
    }
    E mkUlt(E a, E b) {
        if (a == b) return bit(false);
        if (a->isConst() && b->isConst()) return bit(a->c.ult(b->c));
        if (b->isConst()) {
            if (b->c.isZero()) return bit(false);
            if (b->c.isOne()) return mkEq(a, constant(a->width, 0));
            APInt mx = umax(a);
            if (mx.ult(b->c)) return bit(true);
            if (a->op == Op::UDiv && a->b->isConst() && !a->b->c.isZero()) { // x / c < d exactly when x < c * d
                bool ov = false;
                APInt m = a->b->c.umul_ov(b->c, ov);
                return ov ? bit(true) : mkUlt(a->a, constant(m));
            }
            if (a->op == Op::ZExt) return mkUlt(a->a, constant(b->c.trunc(a->a->width)));
            if (a->op == Op::Ite && a->b->isConst() && a->d->isConst())
                return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->d, b));
        } else if (a->isConst()) {
            if (a->c.isAllOnes()) return bit(false);
            if (umax(b).ule(a->c)) return bit(false);
            if (b->op == Op::UDiv && b->b->isConst() && !b->b->c.isZero()) // k < x / c exactly when not x / c < k + 1
                return isZeroBit(mkUlt(b, constant(a->c + 1)));
            if (b->op == Op::ZExt) return mkUlt(constant(a->c.trunc(b->a->width)), b->a);
            if (b->op == Op::Ite && b->b->isConst() && b->d->isConst())
                return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->d));
        } else if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width)
            return mkUlt(a->a, b->a);
        if (a->width == 1) return mkAnd(isZeroBit(a), b);
        return cmp(Op::Ult, a, b);
    }
    E mkUle(E a, E b) { return isZeroBit(mkUlt(b, a)); }
    E mkSlt(E a, E b) {
        if (a == b) return bit(false);
        if (a->isConst() && b->isConst()) return bit(a->c.slt(b->c));
        if (nonNeg(a) && nonNeg(b)) return mkUlt(a, b);
        if (b->isConst() && b->c.isZero()) return mkExtract(a, a->width - 1, 1);
        if (a->isConst() && a->c.isAllOnes()) return isZeroBit(mkExtract(b, b->width - 1, 1));
        if (a->op == Op::SExt && b->op == Op::SExt && a->a->width == b->a->width) return mkSlt(a->a, b->a);
        if (a->op == Op::SExt && b->isConst()) {
            unsigned w = a->a->width;
            if (b->c.getSignificantBits() <= w) return mkSlt(a->a, constant(b->c.trunc(w)));
            return bit(!b->c.isNegative());
        }
        if (b->op == Op::SExt && a->isConst()) {
            unsigned w = b->a->width;
            if (a->c.getSignificantBits() <= w) return mkSlt(constant(a->c.trunc(w)), b->a);
            return bit(a->c.isNegative());
        }
        if (a->op == Op::Ite && a->b->isConst() && a->d->isConst() && b->isConst())
            return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->d, b));
        return cmp(Op::Slt, a, b);
    }
    E mkSle(E a, E b) { return isZeroBit(mkSlt(b, a)); }
    E mkIte(E c, E t, E f) {
        if (c->isConst()) return c->c.isOne() ? t : f;
        if (t == f) return t;
        if (c->op == Op::Xor && c->b->isConst()) return mkIte(c->a, f, t);
        if (t->width == 1) {
            if (t->isConst() && f->isConst()) return t->c.isOne() ? c : isZeroBit(c);
            if (t->isConst()) return t->c.isOne() ? mkOr(c, f) : mkAnd(isZeroBit(c), f);
            if (f->isConst()) return f->c.isOne() ? mkOr(isZeroBit(c), t) : mkAnd(c, t);
        }
        if (t->op == Op::Ite && t->a == c) return mkIte(c, t->b, f);
        if (f->op == Op::Ite && f->a == c) return mkIte(c, t, f->d);
        Expr n = blank(Op::Ite, t->width);
        n.a = c; n.b = t; n.d = f;
        n.vars = c->vars | t->vars | f->vars;
        return intern(n);
    }
    E mkConcat(E hi, E lo) {
        unsigned w = hi->width + lo->width;
        if (hi->isConst() && lo->isConst()) return constant(hi->c.zext(w).shl(lo->width) | lo->c.zext(w));
        if (hi->isConst() && hi->c.isZero()) return mkZExt(lo, w);
        if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
            return mkExtract(hi->a, lo->aux, w);
        if (hi->op == Op::ZExt) // keep zero extension outermost
            return mkZExt(mkConcat(hi->a, lo), w);
        if (hi->op == Op::Extract && lo->op == Op::Concat && lo->a->op == Op::Extract && lo->a->a == hi->a &&
            hi->aux == lo->a->aux + lo->a->width)
            return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
        if (hi->isConst() && lo->op == Op::Concat && lo->a->isConst())
            return mkConcat(mkConcat(hi, lo->a), lo->b);
        if (hi->op == Op::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-assoc
        Expr n = blank(Op::Concat, w);
        n.a = hi; n.b = lo;
        n.vars = hi->vars | lo->vars;
        return intern(n);
    }
    E mkExtract(E x, unsigned lo, unsigned w) {
        if (lo == 0 && w == x->width) return x;
        if (x->isConst()) return constant(x->c.lshr(lo).trunc(w));
        switch (x->op) {
        case Op::Extract: return mkExtract(x->a, lo + x->aux, w);
        case Op::Concat: {
            unsigned lw = x->b->width;
            if (lo >= lw) return mkExtract(x->a, lo - lw, w);
            if (lo + w <= lw) return mkExtract(x->b, lo, w);
            return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
        }
        case Op::ZExt: {
            unsigned iw = x->a->width;
            if (lo >= iw) return constant(w, 0);
            if (lo + w <= iw) return mkExtract(x->a, lo, w);
            return mkZExt(mkExtract(x->a, lo, iw - lo), w);
        }
        case Op::SExt: {
            unsigned iw = x->a->width;
            if (lo + w <= iw) return mkExtract(x->a, lo, w);
            if (lo < iw) return mkSExt(mkExtract(x->a, lo, iw - lo), w);
            return mkSExt(mkExtract(x->a, iw - 1, 1), w);
        }
        case Op::And: return mkAnd(mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
        case Op::Or: return mkOr(mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
        case Op::Xor: return mkXor(mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
        case Op::Add: if (lo == 0) return mkAdd(mkExtract(x->a, 0, w), mkExtract(x->b, 0, w)); break;
        case Op::Sub: if (lo == 0) return mkSub(mkExtract(x->a, 0, w), mkExtract(x->b, 0, w)); break;
        case Op::Mul: if (lo == 0) return mkMul(mkExtract(x->a, 0, w), mkExtract(x->b, 0, w)); break;
        case Op::Ite:
            return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->d, lo, w));
        default: break;
        }
        Expr n = blank(Op::Extract, w);
        n.a = x; n.aux = lo; n.vars = x->vars;
        return intern(n);
    }
    E mkZExt(E x, unsigned w) {
        if (w == x->width) return x;
        if (x->isConst()) return constant(x->c.zext(w));
        if (x->op == Op::ZExt) return mkZExt(x->a, w);
        if (x->op == Op::Ite && x->b->isConst() && x->d->isConst())
            return mkIte(x->a, constant(x->b->c.zext(w)), constant(x->d->c.zext(w)));
        Expr n = blank(Op::ZExt, w);
        n.a = x; n.vars = x->vars;
        return intern(n);
    }
    E mkSExt(E x, unsigned w) {
        if (w == x->width) return x;
        if (x->isConst()) return constant(x->c.sext(w));
        if (x->op == Op::SExt) return mkSExt(x->a, w);
        if (x->op == Op::ZExt) return mkZExt(x, w);
        if (x->op == Op::Ite && x->b->isConst() && x->d->isConst())
            return mkIte(x->a, constant(x->b->c.sext(w)), constant(x->d->c.sext(w)));
        Expr n = blank(Op::SExt, w);
        n.a = x; n.vars = x->vars;
        return intern(n);
    }
    // --- floating point (operands: bit patterns)
    // Exact dyadic view of a floating-point term: value = v / 2^sc with v a signed
    // bit-vector in [lo, hi] that fits the significand, so no rounding took place.
    struct Fix { E v; int sc; APInt lo, hi; };
    static constexpr unsigned FW = 160;
    std::unordered_map<E, std::pair<bool, Fix>> fixMemo;
    static unsigned precision(unsigned w) { return w == 32 ? 24 : w == 64 ? 53 : w == 80 ? 64 : w == 16 ? 11 : 113; }
    static unsigned sbits(const APInt &lo, const APInt &hi) { return std::max(lo.getSignificantBits(), hi.getSignificantBits()); }
    E fit(E v, unsigned w) { return v->width == w ? v : v->width > w ? mkExtract(v, 0, w) : mkSExt(v, w); }
    bool fixMake(E v, int sc, APInt lo, APInt hi, unsigned w, Fix &o) {
        APInt m = lo.abs().ugt(hi.abs()) ? lo.abs() : hi.abs();
        if (m.getActiveBits() > precision(w) && !(lo == hi && lo.isPowerOf2())) return false;
        if (sc > 90) return false;
        o = Fix{fit(v, sbits(lo, hi)), sc, lo, hi};
        if (lo == hi) o.v = constant(lo.trunc(sbits(lo, hi)));
        return true;
    }
    bool fixAlign(Fix &x, int sc) { // to a larger scale
        int d = sc - x.sc;
        if (d == 0) return true;
        if (d < 0 || d > 60) return false;
        x.lo = x.lo.shl(d); x.hi = x.hi.shl(d);
        unsigned w = sbits(x.lo, x.hi);
        if (w > 130) return false;
        x.v = mkShl(fit(x.v, w), constant(w, d));
        x.sc = sc;
        return true;
    }
    bool fixPair(E a, E b, Fix &x, Fix &y) {
        if (!fix(a, x) || !fix(b, y)) return false;
        int sc = std::max(x.sc, y.sc);
        return fixAlign(x, sc) && fixAlign(y, sc);
    }
    bool rangeOf(E x, bool sgn, APInt &lo, APInt &hi) {
        if (x->width > 64) return false;
        if (!sgn || nonNeg(x)) { lo = APInt(FW, 0); hi = umax(x).zext(FW); return true; }
        if (x->op == Op::SExt) return rangeOf(x->a, true, lo, hi);
        lo = APInt::getSignedMinValue(x->width).sext(FW); hi = APInt::getSignedMaxValue(x->width).sext(FW);
        return true;
    }
    bool fix(E e, Fix &o) {
        auto it = fixMemo.find(e);
        if (it == fixMemo.end()) {
            Fix f;
            bool ok = fixCompute(e, f);
            it = fixMemo.emplace(e, std::make_pair(ok, f)).first;
        }
        if (it->second.first) o = it->second.second;
        return it->second.first;
    }
    bool fixCompute(E e, Fix &o) {
        Fix x, y;
        unsigned w = e->width;
        if (w != 32 && w != 64) return false;
        switch (e->op) {
        case Op::Const: {
            auto f = toF(e->c);
            if (!f.isFinite()) return false;
            if (f.isZero()) return fixMake(constant(1, 0), 0, APInt(FW, 0), APInt(FW, 0), w, o);
            int ex = ilogb(f), sc = 0;
            if (ex > 100 || ex < -60) return false;
            sc = std::max(0, (int)precision(w) - 1 - ex);
            auto g = scalbn(f, sc, llvm::APFloat::rmNearestTiesToEven);
            llvm::APSInt r(FW, false); bool exact;
            if (g.convertToInteger(r, llvm::APFloat::rmTowardZero, &exact) != llvm::APFloat::opOK || !exact) return false;
            APInt v = r;
            while (sc > 0 && !v[0]) { v = v.ashr(1); sc--; }
            return fixMake(constant(v), sc, v, v, w, o);
        }
        case Op::SIToF: case Op::UIToF: {
            APInt lo, hi;
            bool sg = e->op == Op::SIToF;
            if (!rangeOf(e->a, sg, lo, hi)) return false;
            return fixMake(sg ? mkSExt(e->a, FW) : mkZExt(e->a, FW), 0, lo, hi, w, o);
        }
        case Op::Xor:
            if (!e->b->isConst() || !e->b->c.isSignMask() || !fix(e->a, x)) return false;
            { unsigned nw = sbits(x.lo, x.hi) + 1; return fixMake(mkSub(constant(nw, 0), fit(x.v, nw)), x.sc, -x.hi, -x.lo, w, o); }
        case Op::And: case Op::ZExt: { // absolute value
            E in;
            if (e->op == Op::And) { if (!e->b->isConst() || !(~e->b->c).isSignMask()) return false; in = e->a; }
            else { if (e->a->op != Op::Extract || e->a->aux != 0 || e->a->width != w - 1 || e->a->a->width != w) return false; in = e->a->a; }
            if (!fix(in, x)) return false;
            if (!x.lo.isNegative()) { o = x; return true; }
            unsigned nw = sbits(x.lo, x.hi) + 1;
            E v = fit(x.v, nw);
            APInt h = (-x.lo).sgt(x.hi) ? -x.lo : x.hi;
            return fixMake(mkIte(mkSlt(v, constant(nw, 0)), mkSub(constant(nw, 0), v), v), x.sc, APInt(FW, 0), h, w, o);
        }
        case Op::FAdd: case Op::FSub: {
            if (e->op == Op::FSub && e->b->op == Op::FRound && e->b->aux == 0 && e->b->a == e->a && fix(e->a, x)) {
                if (x.sc <= 0) return fixMake(constant(1, 0), 0, APInt(FW, 0), APInt(FW, 0), w, o);
                unsigned nw = sbits(x.lo, x.hi);
                E low = nw >= (unsigned)x.sc ? mkExtract(x.v, 0, x.sc) : mkExtract(mkSExt(x.v, x.sc), 0, x.sc);
                APInt hi = APInt::getLowBitsSet(FW, x.sc);
                if (!x.lo.isNegative() && x.hi.slt(hi)) hi = x.hi;
                return fixMake(mkZExt(low, FW), x.sc, APInt(FW, 0), hi, w, o);
            }
            if (e->op == Op::FSub && e->b->op == Op::FRound && e->b->aux == 2 && e->b->a == e->a && fix(e->a, x)) { // remainder of truncation
                if (x.sc <= 0) return fixMake(constant(1, 0), 0, APInt(FW, 0), APInt(FW, 0), w, o);
                unsigned nw = std::max<unsigned>(sbits(x.lo, x.hi), x.sc) + 2;
                APInt m = APInt::getLowBitsSet(FW, x.sc);
                E v = fit(x.v, nw), mask = constant(m.trunc(nw)), z = constant(nw, 0), r = mkAnd(v, mask);
                if (x.lo.isNegative()) r = mkIte(mkSlt(v, z), mkSub(z, mkAnd(mkSub(z, v), mask)), r);
                APInt lo = x.lo.isNegative() ? (x.lo.sgt(-m) ? x.lo : -m) : APInt(FW, 0), hi = x.hi.isNegative() ? APInt(FW, 0) : x.hi.slt(m) ? x.hi : m;
                return fixMake(r, x.sc, lo, hi, w, o);
            }
            if (!fixPair(e->a, e->b, x, y)) return false;
            bool add = e->op == Op::FAdd;
            APInt lo = add ? x.lo + y.lo : x.lo - y.hi, hi = add ? x.hi + y.hi : x.hi - y.lo;
            unsigned nw = std::max(sbits(lo, hi), std::max(x.v->width, y.v->width) + 1);
            return fixMake(add ? mkAdd(fit(x.v, nw), fit(y.v, nw)) : mkSub(fit(x.v, nw), fit(y.v, nw)), x.sc, lo, hi, w, o);
        }
        case Op::FMul: {
            if (!fix(e->a, x) || !fix(e->b, y)) return false;
            if (x.lo == x.hi) std::swap(x, y);
            if (y.lo != y.hi) return false;
            if (y.lo.isZero()) { o = y; return true; }
            APInt c = y.lo;
            int sc = x.sc + y.sc;
            while (sc > 0 && !c[0]) { c = c.ashr(1); sc--; }
            APInt p = x.lo * c, q = x.hi * c;
            if (p.sgt(q)) std::swap(p, q);
            unsigned nw = sbits(p, q);
            if (nw > 130) return false;
            nw = std::max(nw, std::max(x.v->width, c.getSignificantBits()));
            return fixMake(mkMul(fit(x.v, nw), constant(c.trunc(nw))), sc, p, q, w, o);
        }
        case Op::FDiv: {
            if (!fix(e->a, x) || !fix(e->b, y) || y.lo != y.hi) return false;
            APInt c = y.lo;
            bool neg = c.isNegative();
            if (neg) c = -c;
            if (!c.isPowerOf2()) return false;
            int sc = x.sc - y.sc + (int)c.logBase2();
            if (sc < 0) return false;
            if (!neg) return fixMake(x.v, sc, x.lo, x.hi, w, o);
            unsigned nw = sbits(x.lo, x.hi) + 1;
            return fixMake(mkSub(constant(nw, 0), fit(x.v, nw)), sc, -x.hi, -x.lo, w, o);
        }
        case Op::FRound: {
            if (e->aux > 2 || !fix(e->a, x)) return false;
            if (x.sc == 0) { o = x; return true; }
            return fixMake(roundFix(x, e->aux), 0, roundC(x.lo, x.sc, e->aux), roundC(x.hi, x.sc, e->aux), w, o);
        }
        case Op::FConv:
            if (!fix(e->a, x)) return false;
            return fixMake(x.v, x.sc, x.lo, x.hi, w, o);
        case Op::Concat: // a zero of either sign
            if (!(e->b->isConst() && e->b->c.isZero() && e->a->width == 1)) return false;
            return fixMake(constant(1, 0), 0, APInt(FW, 0), APInt(FW, 0), w, o);
        case Op::Ite: {
            if (!fixPair(e->b, e->d, x, y)) return false;
            APInt lo = x.lo.slt(y.lo) ? x.lo : y.lo, hi = x.hi.sgt(y.hi) ? x.hi : y.hi;
            unsigned nw = sbits(lo, hi);
            return fixMake(mkIte(e->a, fit(x.v, nw), fit(y.v, nw)), x.sc, lo, hi, w, o);
        }
        default: return false;
        }
    }
    static APInt roundC(const APInt &v, int sc, unsigned mode) {
        if (mode == 1 || (mode == 2 && v.isNegative())) return -((-v).ashr(sc));
        return v.ashr(sc);
    }
    E roundFix(const Fix &x, unsigned mode) { // x.sc > 0
        unsigned nw = sbits(x.lo, x.hi) + 1;
        E v = fit(x.v, nw);
        unsigned sh = std::min<unsigned>(x.sc, nw - 1);
        auto down = [&](E t) { return x.lo.isNegative() || mode == 1 ? mkAShr(t, constant(nw, sh)) : mkLShr(t, constant(nw, sh)); };
        E z = constant(nw, 0);
        if (mode == 0 || (mode == 2 && !x.lo.isNegative())) return down(v);
        E up = mkSub(z, mkAShr(mkSub(z, v), constant(nw, sh)));
        if (mode == 1) return up;
        return mkIte(mkSlt(v, z), up, mkAShr(v, constant(nw, sh)));
    }
    E mkF(Op op, E a, E b) {
        if (!(a->isConst() && b->isConst()) && (op == Op::FEq || op == Op::FLt || op == Op::FLe)) {
            Fix x, y;
            if (fixPair(a, b, x, y)) {
                if (x.hi.slt(y.lo)) return bit(op != Op::FEq);
                if (x.lo.sgt(y.hi)) return bit(false);
                if (op == Op::FLe && x.hi.sle(y.lo)) return bit(true);
                if (op == Op::FLt && x.lo.sge(y.hi)) return bit(false);
                unsigned nw = std::max(x.v->width, y.v->width);
                E p = fit(x.v, nw), q = fit(y.v, nw);
                if (op == Op::FEq) return mkEq(p, q);
                if (op == Op::FLt) return mkSlt(p, q);
                return isZeroBit(mkSlt(q, p));
            }
            // against an infinity or NaN
            for (int side = 0; side < 2; side++) {
                E c = side ? a : b, t = side ? b : a;
                if (!c->isConst() || (c->width != 32 && c->width != 64) || toF(c->c).isFinite() || !fix(t, x)) continue;
                auto f = toF(c->c);
                if (op == Op::FEq || f.isNaN()) return bit(false);
                return bit(f.isNegative() == (side == 1));
            }
        }
        Expr n = blank(op, (op == Op::FEq || op == Op::FLt || op == Op::FLe) ? 1 : a->width);
        n.a = a; n.b = b;
        n.vars = a->vars | b->vars;
        if (a->isConst() && b->isConst()) return constant(evalF(op, a->c, b->c, n.width, 0));
        return intern(n);
    }
    E mkF1(Op op, E a, unsigned w, unsigned aux = 0) {
        if (a->isConst()) return constant(evalF(op, a->c, APInt(1, 0), w, aux));
        if (op == Op::FConv && a->width == w) return a;
        if (op == Op::FToSI || op == Op::FToUI) {
            Fix x;
            if (fix(a, x)) {
                E v = x.sc == 0 ? x.v : fit(roundFix(x, 2), sbits(roundC(x.lo, x.sc, 2), roundC(x.hi, x.sc, 2)));
                if (!x.lo.isNegative() && v->width < w) return mkZExt(mkExtract(v, 0, std::max(1u, v->width - 1)), w);
                return fit(v, w);
            }
        }
        Expr n = blank(op, w);
        n.a = a; n.aux = aux; n.vars = a->vars;
        return intern(n);
    }
    E mkIsNan(E a) { return isZeroBit(mkF(Op::FEq, a, a)); }

    static APInt evalF(Op op, const APInt &a, const APInt &b, unsigned w, unsigned aux) {
        using llvm::APFloat;
        auto RNE = APFloat::rmNearestTiesToEven;
        switch (op) {
        case Op::FAdd: { auto x = toF(a); x.add(toF(b), RNE); return x.bitcastToAPInt(); }
        case Op::FSub: { auto x = toF(a); x.subtract(toF(b), RNE); return x.bitcastToAPInt(); }
        case Op::FMul: { auto x = toF(a); x.multiply(toF(b), RNE); return x.bitcastToAPInt(); }
        case Op::FDiv: { auto x = toF(a); x.divide(toF(b), RNE); return x.bitcastToAPInt(); }
        case Op::FRem: { auto x = toF(a); x.mod(toF(b)); return x.bitcastToAPInt(); }
        case Op::FEq: return APInt(1, toF(a).compare(toF(b)) == APFloat::cmpEqual);
        case Op::FLt: return APInt(1, toF(a).compare(toF(b)) == APFloat::cmpLessThan);
        case Op::FLe: { auto r = toF(a).compare(toF(b)); return APInt(1, r == APFloat::cmpLessThan || r == APFloat::cmpEqual); }
        case Op::FToSI: case Op::FToUI: {
            llvm::APSInt r(w, op == Op::FToUI);
            bool ex;
            toF(a).convertToInteger(r, APFloat::rmTowardZero, &ex);
            return r;
        }
        case Op::SIToF: case Op::UIToF: {
            APFloat f(sem(w));
            f.convertFromAPInt(a, op == Op::SIToF, RNE);
            return f.bitcastToAPInt();
        }
        case Op::FConv: { auto x = toF(a); bool l; x.convert(sem(w), RNE, &l); return x.bitcastToAPInt(); }
        case Op::FRound: {
            auto x = toF(a);
            static const llvm::APFloat::roundingMode m[] = {APFloat::rmTowardNegative, APFloat::rmTowardPositive,
                APFloat::rmTowardZero, APFloat::rmNearestTiesToEven, APFloat::rmNearestTiesToAway};
            x.roundToIntegral(m[aux]);
            return x.bitcastToAPInt();
        }
        case Op::FSqrt: {
            if (w == 32) { float f = sqrtf(toF(a).convertToFloat()); uint32_t u; memcpy(&u, &f, 4); return APInt(32, u); }
            double d = sqrt(toF(a).convertToDouble()); uint64_t u; memcpy(&u, &d, 8); return APInt(64, u);
        }
        default: abort();
        }
    }

    // --- evaluation under an assignment (values by var id; missing = 0)
    uint32_t gen = 0;
    const APInt &eval(E e, const std::vector<APInt> &asg) { ++gen; return evalRec(e, asg); }

    bool nonNeg(E x) {
        switch (x->op) {
        case Op::Const: return !x->c.isNegative();
        case Op::ZExt: return x->width > x->a->width;
        case Op::And: return nonNeg(x->a) || nonNeg(x->b);
        case Op::Concat: return x->a->isConst() && !x->a->c.isNegative();
        case Op::Ite: return nonNeg(x->b) && nonNeg(x->d);
        case Op::URem: return x->b->isConst() && !x->b->c.isNegative();
        case Op::UDiv: return nonNeg(x->a) || (x->b->isConst() && x->b->c.ugt(1));
        default: return false;
        }
    }
    // cheap upper bound
    APInt umax(E x) {
        switch (x->op) {
        case Op::Const: return x->c;
        case Op::ZExt: return umax(x->a).zext(x->width);
        case Op::And: {
            APInt p = umax(x->a), q = umax(x->b);
            return p.ult(q) ? p : q;
        }
        case Op::URem:
            if (x->b->isConst() && !x->b->c.isZero()) return x->b->c - 1;
            break;
        case Op::UDiv:
            if (x->b->isConst() && !x->b->c.isZero()) return umax(x->a).udiv(x->b->c);
            break;
        case Op::Add: if (x->b->isConst()) {
            bool ov = false;
            APInt p = umax(x->a).uadd_ov(x->b->c, ov);
            if (!ov) return p;
        } break;
        case Op::Sub:
            if (x->a->isConst() && umax(x->b).ule(x->a->c)) return x->a->c;
            break;
        case Op::Ite: if (x->b->isConst() || x->d->isConst()) {
            APInt p = umax(x->b), q = umax(x->d);
            return p.ugt(q) ? p : q;
        } break;
        default: break;
        }
        return APInt::getAllOnes(x->width);
    }

private:
    struct H { size_t operator()(E e) const { return e->hash; } };
    struct Q {
        bool operator()(E x, E y) const {
            return x->hash == y->hash && x->op == y->op && x->width == y->width && x->aux == y->aux && x->a == y->a && x->b == y->b &&
                   x->d == y->d && (x->op != Op::Const || x->c == y->c);
        }
    };
    std::unordered_set<E, H, Q> tab;
    std::deque<Expr> arena;

    static Expr blank(Op op, unsigned w) {
        Expr t;
        t.op = op; t.width = w; t.aux = 0; t.a = t.b = t.d = nullptr;
        return t;
    }
    E intern(Expr &t) {
        size_t h = (size_t)t.op * 0x9E3779B97F4A7C15ull + t.width * 1315423911u + t.aux * 2654435761u;
        auto mix = [&](size_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
        mix((size_t)t.a); mix((size_t)t.b); mix((size_t)t.d);
        if (t.op == Op::Const) mix((size_t)llvm::hash_value(t.c));
        t.hash = h;
        auto it = tab.find(&t);
        if (it != tab.end()) return *it;
        t.id = nodes++;
        t.div = ((t.op >= Op::UDiv && t.op <= Op::SRem) && t.width >= 24) || (t.a && t.a->div) || (t.b && t.b->div) || (t.d && t.d->div);
        t.fp = t.op >= Op::FAdd || (t.a && t.a->fp) || (t.b && t.b->fp) || (t.d && t.d->fp);
        arena.push_back(t);
        tab.insert(&arena.back());
        return &arena.back();
    }
    E bin(Op op, E a, E b) {
        Expr n = blank(op, a->width);
        n.a = a; n.b = b; n.vars = a->vars | b->vars;
        return intern(n);
    }
    E cmp(Op op, E a, E b) {
        Expr n = blank(op, 1);
        n.a = a; n.b = b; n.vars = a->vars | b->vars;
        return intern(n);
    }
    static bool isNotOf(E x, E y) { return x->op == Op::Xor && x->b->isConst() && x->b->c.isAllOnes() && x->a == y; }
    // a = concat(h, 0...) and b = zext(l) with l narrower than the zero tail
    E disjointOr(E a, E b) {
        E top = a; unsigned zw = 0;
        if (a->op == Op::ZExt) top = a->a;
        if (top->op == Op::Concat && top->b->isConst() && top->b->c.isZero()) zw = top->b->width;
        if (!zw || b->op != Op::ZExt || b->a->width > zw) return nullptr;
        E r = mkConcat(top->a, mkZExt(b->a, zw));
        return mkZExt(r, a->width);
    }
    E narrowDiv(E a, E b, bool rem) {
        if (a->isConst() || !b->isConst()) return nullptr;
        APInt mx = umax(a);
        unsigned need = std::max(mx.getActiveBits(), b->c.getActiveBits());
        if (need == 0) need = 1;
        if (mx.ult(b->c)) return rem ? a : constant(a->width, 0);
        if (a->op == Op::Add && a->b->isConst()) { // (x + C) / k = C / k + (x + C % k) / k when x + C does not wrap
            APInt xm = umax(a->a);
            bool ov = false;
            (void)xm.uadd_ov(a->b->c, ov);
            if (!ov) {
                APInt q0 = a->b->c.udiv(b->c), r0 = a->b->c.urem(b->c);
                bool ov2 = false;
                APInt im = xm.uadd_ov(r0, ov2);
                unsigned nw = std::max(im.getActiveBits(), b->c.getActiveBits()) + 1;
                if (!ov2 && nw < a->width) {
                    E x = mkAdd(mkExtract(a->a, 0, nw), constant(r0.trunc(nw))), y = constant(b->c.trunc(nw));
                    if (rem) return mkZExt(mkURem(x, y), a->width);
                    return mkAdd(mkZExt(mkUDiv(x, y), a->width), constant(q0));
                }
            }
        }
        if (need < a->width && a->op == Op::ZExt) {
            unsigned iw = std::max(need, a->a->width);
            if (iw >= a->width) return nullptr;
            E x = mkExtract(a, 0, iw), y = constant(b->c.trunc(iw));
            return mkZExt(rem ? mkURem(x, y) : mkUDiv(x, y), a->width);
        }
        return nullptr;
    }
    const APInt &evalRec(E e, const std::vector<APInt> &asg) {
        if (e->op == Op::Const) return e->c;
        if (e->evalGen == gen) return e->evalVal;
        APInt r(1, 0);
        switch (e->op) {
        case Op::Var:
            r = e->aux < asg.size() && asg[e->aux].getBitWidth() == e->width ? asg[e->aux] : APInt(e->width, 0);
            break;
        case Op::Ite: r = evalRec(e->a, asg).isOne() ? evalRec(e->b, asg) : evalRec(e->d, asg); break;
        case Op::Extract: r = evalRec(e->a, asg).lshr(e->aux).trunc(e->width); break;
        case Op::ZExt: r = evalRec(e->a, asg).zext(e->width); break;
        case Op::SExt: r = evalRec(e->a, asg).sext(e->width); break;
        case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FConv: case Op::FRound: case Op::FSqrt:
            r = evalF(e->op, evalRec(e->a, asg), APInt(1, 0), e->width, e->aux); break;
        default: {
            APInt x = evalRec(e->a, asg), y = evalRec(e->b, asg);
            switch (e->op) {
            case Op::Add: r = x + y; break;
            case Op::Sub: r = x - y; break;
            case Op::Mul: r = x * y; break;
            case Op::UDiv: r = y.isZero() ? APInt::getAllOnes(e->width) : x.udiv(y); break;
            case Op::URem: r = y.isZero() ? x : x.urem(y); break;
            case Op::SDiv: r = y.isZero() ? (x.isNegative() ? APInt(e->width, 1) : APInt::getAllOnes(e->width)) : x.sdiv(y); break;
            case Op::SRem: r = y.isZero() ? x : x.srem(y); break;
            case Op::And: r = x & y; break;
            case Op::Or: r = x | y; break;
            case Op::Xor: r = x ^ y; break;
            case Op::Shl: r = y.uge(e->width) ? APInt(e->width, 0) : x.shl(y); break;
            case Op::LShr: r = y.uge(e->width) ? APInt(e->width, 0) : x.lshr(y); break;
            case Op::AShr: r = y.uge(e->width) ? x.ashr(e->width - 1) : x.ashr(y); break;
            case Op::Eq: r = APInt(1, x == y); break;
            case Op::Ult: r = APInt(1, x.ult(y)); break;
            case Op::Slt: r = APInt(1, x.slt(y)); break;
            case Op::Concat: r = x.zext(e->width).shl(e->b->width) | y.zext(e->width); break;
            default: r = evalF(e->op, x, y, e->width, e->aux);
            }
        }
        }
        e->evalGen = gen;
        e->evalVal = r;
        return e->evalVal;
    }
};
} // namespace eng
