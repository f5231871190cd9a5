// Z3 back end: path-constraint slicing, query cache, model reuse.
#pragma once
#include "expr.h"
#include <chrono>
#include <map>
#include <set>
#include <z3.h>

namespace eng {

struct Stats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
    double solverTime = 0, maxQuery = 0;
};

enum class Res { Sat, Unsat, Unknown };
using Asg = std::vector<APInt>;

class Solver {
public:
    Ctx &cx;
    Stats st;
    unsigned hardTimeoutMs = 120000;
    double deadline = 0; // absolute, seconds (steady clock)

    explicit Solver(Ctx &c) : cx(c) {
        Z3_config cfg = Z3_mk_config();
        z = Z3_mk_context(cfg); // ASTs are kept alive for the whole run
        Z3_del_config(cfg);
        Z3_set_error_handler(z, nullptr);
    }

    static double now() {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    // Is (conjunction of pc) && extra satisfiable?  `base` satisfies pc.
    // On Sat, `out` = base updated on the slice's variables.
    Res check(const std::vector<E> &pc, E extra, const Asg &base, Asg &out) {
        if (extra->isConst()) {
            out = base;
            return extra->c.isOne() ? Res::Sat : Res::Unsat;
        }
        if (cx.eval(extra, base).isOne()) { st.modelHits++; out = base; return Res::Sat; }
        // slice
        VarSet vs = extra->vars;
        std::vector<E> slice;
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++)
                if (!used[i] && (pc[i]->vars & vs).any()) {
                    used[i] = 1; vs |= pc[i]->vars; slice.push_back(pc[i]); ch = true;
                }
        }
        std::vector<uint32_t> key;
        for (E e : slice) key.push_back(e->id);
        std::sort(key.begin(), key.end());
        key.push_back(extra->id);
        auto it = cache.find(key);
        if (it != cache.end()) {
            st.cacheHits++;
            if (it->second.r == Res::Sat) merge(base, it->second.m, vs, out);
            return it->second.r;
        }
        slice.push_back(extra);
        Asg m;
        Res r = solve(slice, vs, m);
        if (r != Res::Unknown) cache[key] = {r, m};
        if (r == Res::Sat) {
            merge(base, m, vs, out);
            // guard against translation mismatches: the model must satisfy the query
            for (E e : slice)
                if (!cx.eval(e, out).isOne()) { modelMismatch++; break; }
        }
        return r;
    }
    uint64_t modelMismatch = 0;

private:
    Z3_context z;
    Z3_solver inc = nullptr;
    struct C { Res r; Asg m; };
    std::map<std::vector<uint32_t>, C> cache;

    void merge(const Asg &base, const Asg &m, const VarSet &vs, Asg &out) {
        Asg r = base;
        if (r.size() < cx.vars.size()) r.resize(cx.vars.size(), APInt(1, 0));
        for (size_t i = 0; i < cx.vars.size(); i++) {
            if (vs.test(i) && i < m.size()) r[i] = m[i];
            if (r[i].getBitWidth() != cx.vars[i].width) r[i] = APInt(cx.vars[i].width, 0);
        }
        out = r;
    }
    Res solve(const std::vector<E> &cs, const VarSet &vs, Asg &m) {
        double t0 = now();
        st.queries++;
        bool fp = false;
        for (E e : cs) fp = fp || e->fp;
        Res r = Res::Unknown;
        bool dv = false;
        for (E e : cs) dv = dv || e->div;
        if (dv && !fp) r = abstracted(cs, vs, m);
        if (!fp && r == Res::Unknown) {
            if (!inc) {
                inc = Z3_mk_simple_solver(z);
                Z3_solver_inc_ref(z, inc);
            }
            setTimeout(inc, 1500);
            Z3_solver_push(z, inc);
            for (E e : cs) Z3_solver_assert(z, inc, toBool(e));
            r = conv(Z3_solver_check(z, inc));
            if (r == Res::Sat) getModel(inc, vs, m);
            Z3_solver_pop(z, inc, 1);
            if (++incUses > 3000) { Z3_solver_dec_ref(z, inc); inc = nullptr; incUses = 0; }
        }
        if (r == Res::Unknown) {
            double left = deadline > 0 ? (deadline - now()) * 1000 : hardTimeoutMs;
            unsigned to = (unsigned)std::max(1000.0, std::min<double>(left, hardTimeoutMs));
            Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, fp ? "QF_FPBV" : "QF_BV"));
            Z3_solver_inc_ref(z, s);
            setTimeout(s, to);
            for (E e : cs) Z3_solver_assert(z, s, toBool(e));
            r = conv(Z3_solver_check(z, s));
            if (r == Res::Sat) getModel(s, vs, m);
            Z3_solver_dec_ref(z, s);
        }
        double dt = now() - t0;
        st.solverTime += dt;
        st.maxQuery = std::max(st.maxQuery, dt);
        if (dt > 2 && getenv("SYMX_VERBOSE")) { fprintf(stderr, "[slow query %.1fs fp=%d n=%zu r=%d]\n", dt, fp, cs.size(), (int)r); if (atoi(getenv("SYMX_VERBOSE")) > 1) for (E c : cs) fprintf(stderr, "  %s\n", Z3_ast_to_string(z, toBool(c))); }
        (r == Res::Sat ? st.sat : r == Res::Unsat ? st.unsat : st.unknown)++;
        return r;
    }
    unsigned incUses = 0;
    // Every outermost wide division becomes a fresh variable no larger than the
    // quotient or remainder can be.  Unsatisfiable then means unsatisfiable; a
    // model counts only if it satisfies the real terms.
    Res abstracted(const std::vector<E> &cs, const VarSet &vs, Asg &m) {
        std::vector<E> divs;
        std::set<E> seen;
        std::vector<E> todo(cs.begin(), cs.end());
        while (!todo.empty()) {
            E e = todo.back();
            todo.pop_back();
            if (!e || !e->div || !seen.insert(e).second) continue;
            if (e->op >= Op::UDiv && e->op <= Op::SRem && e->width >= 24) { divs.push_back(e); continue; }
            todo.push_back(e->a); todo.push_back(e->b); todo.push_back(e->d);
        }
        std::vector<Z3_ast> from, to;
        Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
        Z3_solver_inc_ref(z, s);
        setTimeout(s, 3000);
        for (E e : divs) {
            from.push_back(toBV(e));
            Z3_ast v = keep(Z3_mk_const(z, Z3_mk_string_symbol(z, ("quot" + std::to_string(e->id)).c_str()), bv(e->width)));
            to.push_back(v);
            if (e->op == Op::UDiv || e->op == Op::URem) Z3_solver_assert(z, s, Z3_mk_bvule(z, v, toBV(cx.constant(cx.umax(e)))));
            if (e->op == Op::UDiv && e->b->isConst() && !e->a->div && cx.umax(e).getActiveBits() <= 8) { // a small quotient is tied to its dividend
                Z3_ast x = toBV(e->a), c = toBV(e->b), p = Z3_mk_bvmul(z, v, c);
                Z3_solver_assert(z, s, Z3_mk_bvule(z, p, x));
                Z3_solver_assert(z, s, Z3_mk_bvult(z, Z3_mk_bvsub(z, x, p), c));
            }
        }
        for (E e : cs) Z3_solver_assert(z, s, keep(Z3_substitute(z, toBool(e), from.size(), from.data(), to.data())));
        Res r = conv(Z3_solver_check(z, s));
        if (r == Res::Sat) {
            getModel(s, vs, m);
            for (E e : cs)
                if (!cx.eval(e, m).isOne()) { r = Res::Unknown; break; }
        }
        Z3_solver_dec_ref(z, s);
        return r;
    }
    static Res conv(Z3_lbool b) { return b == Z3_L_TRUE ? Res::Sat : b == Z3_L_FALSE ? Res::Unsat : Res::Unknown; }
    void setTimeout(Z3_solver s, unsigned ms) {
        Z3_params p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
        Z3_solver_set_params(z, s, p);
        Z3_params_dec_ref(z, p);
    }
    void getModel(Z3_solver s, const VarSet &vs, Asg &m) {
        Z3_model mo = Z3_solver_get_model(z, s);
        Z3_model_inc_ref(z, mo);
        m.assign(cx.vars.size(), APInt(1, 0));
        for (size_t i = 0; i < cx.vars.size(); i++) {
            m[i] = APInt(cx.vars[i].width, 0);
            if (!vs.test(i) || i >= varAst.size() || !varAst[i]) continue;
            Z3_ast v;
            if (!Z3_model_eval(z, mo, varAst[i], true, &v) || !v) continue;
            if (Z3_get_ast_kind(z, v) == Z3_NUMERAL_AST) {
                const char *str = Z3_get_numeral_string(z, v);
                m[i] = APInt(std::max(cx.vars[i].width, APInt::getBitsNeeded(str, 10)) , str, 10).trunc(cx.vars[i].width);
            }
        }
        Z3_model_dec_ref(z, mo);
    }
    std::vector<Z3_ast> varAst;

    Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z, w); }
    Z3_sort fps(unsigned w) {
        switch (w) {
        case 16: return Z3_mk_fpa_sort_16(z);
        case 32: return Z3_mk_fpa_sort_32(z);
        case 64: return Z3_mk_fpa_sort_64(z);
        default: fprintf(stderr, "engine: unsupported symbolic fp width %u\n", w); exit(3);
        }
    }
    static bool isFP(E e) {
        switch (e->op) {
        case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::SIToF: case Op::UIToF:
        case Op::FConv: case Op::FRound: case Op::FSqrt: return true;
        case Op::Ite: return isFP(e->b) || isFP(e->d);
        default: return false;
        }
    }
    Z3_ast toFP(E e) {
        if (e->z3fp) return (Z3_ast)e->z3fp;
        Z3_ast r;
        Z3_ast rne = Z3_mk_fpa_rne(z);
        switch (e->op) {
        case Op::FAdd: r = Z3_mk_fpa_add(z, rne, toFP(e->a), toFP(e->b)); break;
        case Op::FSub: r = Z3_mk_fpa_sub(z, rne, toFP(e->a), toFP(e->b)); break;
        case Op::FMul: r = Z3_mk_fpa_mul(z, rne, toFP(e->a), toFP(e->b)); break;
        case Op::FDiv: r = Z3_mk_fpa_div(z, rne, toFP(e->a), toFP(e->b)); break;
        case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(z, rne, toBV(e->a), fps(e->width)); break;
        case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(z, rne, toBV(e->a), fps(e->width)); break;
        case Op::FConv: r = Z3_mk_fpa_to_fp_float(z, rne, toFP(e->a), fps(e->width)); break;
        case Op::FSqrt: r = Z3_mk_fpa_sqrt(z, rne, toFP(e->a)); break;
        case Op::FRound: {
            Z3_ast m[] = {Z3_mk_fpa_rtn(z), Z3_mk_fpa_rtp(z), Z3_mk_fpa_rtz(z), Z3_mk_fpa_rne(z), Z3_mk_fpa_rna(z)};
            r = Z3_mk_fpa_round_to_integral(z, m[e->aux], toFP(e->a));
            break;
        }
        case Op::Ite:
            if (isFP(e)) { r = Z3_mk_ite(z, toBool(e->a), toFP(e->b), toFP(e->d)); break; }
            [[fallthrough]];
        case Op::FRem: // the C fmod is not IEEE remainder; the executor rejects symbolic frem
        default: r = Z3_mk_fpa_to_fp_bv(z, toBV(e), fps(e->width)); break;
        }
        return (Z3_ast)(e->z3fp = keep(r));
    }
    Z3_ast toBool(E e) {
        if (e->z3bool) return (Z3_ast)e->z3bool;
        Z3_ast r;
        if (e->width != 1) { fprintf(stderr, "engine: toBool on width %u\n", e->width); exit(3); }
        switch (e->op) {
        case Op::Const: r = e->c.isOne() ? Z3_mk_true(z) : Z3_mk_false(z); break;
        case Op::And: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(z, 2, x); break; }
        case Op::Or: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(z, 2, x); break; }
        case Op::Xor:
            if (e->b->isConst()) r = e->b->c.isOne() ? Z3_mk_not(z, toBool(e->a)) : toBool(e->a);
            else r = Z3_mk_xor(z, toBool(e->a), toBool(e->b));
            break;
        case Op::Ite: r = Z3_mk_ite(z, toBool(e->a), toBool(e->b), toBool(e->d)); break;
        case Op::Eq:
            r = e->a->width == 1 ? Z3_mk_eq(z, toBool(e->a), toBool(e->b)) : Z3_mk_eq(z, toBV(e->a), toBV(e->b));
            break;
        case Op::Ult: r = Z3_mk_bvult(z, toBV(e->a), toBV(e->b)); break;
        case Op::Slt: r = Z3_mk_bvslt(z, toBV(e->a), toBV(e->b)); break;
        case Op::FEq: r = Z3_mk_fpa_eq(z, toFP(e->a), toFP(e->b)); break;
        case Op::FLt: r = Z3_mk_fpa_lt(z, toFP(e->a), toFP(e->b)); break;
        case Op::FLe: r = Z3_mk_fpa_leq(z, toFP(e->a), toFP(e->b)); break;
        default: r = Z3_mk_eq(z, toBV(e), Z3_mk_unsigned_int(z, 1, bv(1))); break;
        }
        return (Z3_ast)(e->z3bool = keep(r));
    }
    Z3_ast toBV(E e) {
        if (e->z3bv) return (Z3_ast)e->z3bv;
        Z3_ast r;
        switch (e->op) {
        case Op::Const: {
            llvm::SmallString<64> s;
            e->c.toString(s, 10, false);
            r = Z3_mk_numeral(z, s.c_str(), bv(e->width));
            break;
        }
        case Op::Var: {
            std::string n = "v" + std::to_string(e->aux) + "_" + cx.vars[e->aux].name;
            r = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), bv(e->width));
            if (varAst.size() <= e->aux) varAst.resize(e->aux + 1, nullptr);
            varAst[e->aux] = keep(r);
            break;
        }
        case Op::Add: r = Z3_mk_bvadd(z, toBV(e->a), toBV(e->b)); break;
        case Op::Sub: r = Z3_mk_bvsub(z, toBV(e->a), toBV(e->b)); break;
        case Op::Mul: r = Z3_mk_bvmul(z, toBV(e->a), toBV(e->b)); break;
        case Op::UDiv: r = Z3_mk_bvudiv(z, toBV(e->a), toBV(e->b)); break;
        case Op::SDiv: r = Z3_mk_bvsdiv(z, toBV(e->a), toBV(e->b)); break;
        case Op::URem: r = Z3_mk_bvurem(z, toBV(e->a), toBV(e->b)); break;
        case Op::SRem: r = Z3_mk_bvsrem(z, toBV(e->a), toBV(e->b)); break;
        case Op::Shl: r = Z3_mk_bvshl(z, toBV(e->a), toBV(e->b)); break;
        case Op::LShr: r = Z3_mk_bvlshr(z, toBV(e->a), toBV(e->b)); break;
        case Op::AShr: r = Z3_mk_bvashr(z, toBV(e->a), toBV(e->b)); break;
        case Op::Concat: r = Z3_mk_concat(z, toBV(e->a), toBV(e->b)); break;
        case Op::Extract: r = Z3_mk_extract(z, e->aux + e->width - 1, e->aux, toBV(e->a)); break;
        case Op::ZExt: r = Z3_mk_zero_ext(z, e->width - e->a->width, toBV(e->a)); break;
        case Op::SExt: r = Z3_mk_sign_ext(z, e->width - e->a->width, toBV(e->a)); break;
        case Op::And: if (e->width == 1) goto viaBool; r = Z3_mk_bvand(z, toBV(e->a), toBV(e->b)); break;
        case Op::Or: if (e->width == 1) goto viaBool; r = Z3_mk_bvor(z, toBV(e->a), toBV(e->b)); break;
        case Op::Xor: if (e->width == 1) goto viaBool; r = Z3_mk_bvxor(z, toBV(e->a), toBV(e->b)); break;
        case Op::Ite:
            if (isFP(e)) { r = Z3_mk_fpa_to_ieee_bv(z, toFP(e)); break; }
            r = Z3_mk_ite(z, toBool(e->a), toBV(e->b), toBV(e->d)); break;
        case Op::FToSI: r = Z3_mk_fpa_to_sbv(z, Z3_mk_fpa_rtz(z), toFP(e->a), e->width); break;
        case Op::FToUI: r = Z3_mk_fpa_to_ubv(z, Z3_mk_fpa_rtz(z), toFP(e->a), e->width); break;
        case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::SIToF: case Op::UIToF:
        case Op::FConv: case Op::FRound: case Op::FSqrt:
            r = Z3_mk_fpa_to_ieee_bv(z, toFP(e)); break;
        default:
        viaBool:
            r = Z3_mk_ite(z, toBool(e), Z3_mk_unsigned_int(z, 1, bv(1)), Z3_mk_unsigned_int(z, 0, bv(1)));
        }
        return (Z3_ast)(e->z3bv = keep(r));
    }
};
} // namespace eng
