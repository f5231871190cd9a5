// symx: symbolic executor for LLVM 18 bitcode.  Every path of an entry function
// is explored; branch feasibility and every assertion / memory-safety condition
// is decided by Z3 over all values of the symbolic inputs.
#include "state.h"
#include <cxxabi.h>
#include <fstream>
#include <functional>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <pthread.h>
#include <set>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
using namespace eng;

struct PathEnd {};                       // the current path is finished
struct Unsupported { std::string why; }; // the current path is abandoned

struct Violation {
    std::string kind, msg, where, ce, known;
    std::vector<std::string> stack;
};

struct Exec {
    std::unique_ptr<Module> M;
    const DataLayout *DL;
    Ctx cx;
    Solver sol{cx};
    std::map<uint64_t, Obj> ro; // constant globals, shared by all states
    DenseMap<const GlobalValue *, uint64_t> gaddr;
    std::unordered_map<uint64_t, const Function *> fnAt;
    DenseMap<const Function *, FuncInfo *> finfo;
    DenseMap<const Constant *, Val> cconst;
    std::vector<std::unique_ptr<State>> work;
    std::map<std::string, E> symVars;
    std::map<std::string, uint64_t> params;
    std::map<std::string, int> typeIds;
    std::map<uint64_t, std::string> typeName;
    std::map<std::string, uint64_t> typeAddr;
    std::map<std::string, std::vector<std::string>> typeBases;
    std::set<const Function *> executed;
    DenseSet<const BasicBlock *> bbSeen;
    unsigned maxWitness = 0, witnessNo = 0;
    std::map<std::string, uint64_t> covers;
    std::map<std::string, uint64_t> coverModels;
    std::vector<Violation> viols;
    std::set<std::string> violKeys;
    std::map<std::string, uint64_t> incomplete;
    std::string ceDir = ".", entry;
    uint64_t maxSteps = 3000000, maxEnum = 300, maxViol = 3, maxPaths = ~0ull;
    double timeLimit = 600, t0 = 0;
    bool hurry = false;
    uint64_t paths = 0, assumedAway = 0, insts = 0, forks = 0, asserts = 0, assertsSym = 0, memChecksSym = 0;
    State *cur = nullptr;
    uint64_t ceNo = 0;
    std::vector<std::string> samples;

    // ------------------------------------------------------------ values
    E toE(const Val &v) {
        if (v.e) return v.e;
        return cx.constant(v.w, v.c);
    }
    Val fromE(E e) {
        Val r;
        r.w = e->width;
        if (e->isConst() && e->width <= 64) r.c = e->c.getZExtValue();
        else r.e = e;
        return r;
    }
    Val aggv(std::vector<Val> v) {
        Val r;
        r.agg = new std::vector<Val>(std::move(v));
        return r;
    }
    unsigned bits(Type *t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        if (t->isX86_FP80Ty()) return 80;
        if (t->isHalfTy()) return 16;
        throw Unsupported{"type without bit width"};
    }
    bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
    Val zeroOf(Type *t) {
        if (isAgg(t)) {
            std::vector<Val> v;
            if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroOf(e));
            else if (auto *at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
            else { auto *vt = cast<FixedVectorType>(t); for (unsigned i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType())); }
            return aggv(v);
        }
        unsigned w = bits(t);
        if (w > 64) return fromE(cx.constant(APInt(w, 0)));
        return cv(w, 0);
    }
    Val constVal(const Constant *c) {
        auto it = cconst.find(c);
        if (it != cconst.end()) return it->second;
        Val v = constVal0(c);
        cconst[c] = v;
        return v;
    }
    Val constVal0(const Constant *c) {
        if (auto *ci = dyn_cast<ConstantInt>(c)) return fromE(cx.constant(ci->getValue()));
        if (auto *cf = dyn_cast<ConstantFP>(c)) return fromE(cx.constant(cf->getValueAPF().bitcastToAPInt()));
        if (isa<ConstantPointerNull>(c)) return cv(64, 0);
        if (isa<UndefValue>(c)) return zeroOf(c->getType());
        if (auto *gv = dyn_cast<GlobalValue>(c)) return cv(64, addrOf(gv));
        if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
        if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
            std::vector<Val> v;
            for (auto &o : ca->operands()) v.push_back(constVal(cast<Constant>(o)));
            return aggv(v);
        }
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
            std::vector<Val> v;
            for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
            return aggv(v);
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
                return cv(64, constVal(ce->getOperand(0)).c + off.getZExtValue());
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                Val v = constVal(ce->getOperand(0));
                unsigned w = bits(ce->getType());
                return fromE(w <= v.w ? cx.mkExtract(toE(v), 0, w) : cx.mkZExt(toE(v), w));
            }
            case Instruction::Add: return fromE(cx.mkAdd(toE(constVal(ce->getOperand(0))), toE(constVal(ce->getOperand(1)))));
            case Instruction::Sub: return fromE(cx.mkSub(toE(constVal(ce->getOperand(0))), toE(constVal(ce->getOperand(1)))));
            case Instruction::Trunc: return fromE(cx.mkExtract(toE(constVal(ce->getOperand(0))), 0, bits(ce->getType())));
            case Instruction::ICmp: {
                Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
                return icmp((CmpInst::Predicate)ce->getPredicate(), a, b);
            }
            default: break;
            }
        }
        std::string s; raw_string_ostream os(s); c->print(os);
        throw Unsupported{"constant " + s.substr(0, 80)};
    }

    // ------------------------------------------------------------ globals
    uint64_t addrOf(const GlobalValue *g) {
        auto it = gaddr.find(g);
        if (it != gaddr.end()) return it->second;
        if (auto *al = dyn_cast<GlobalAlias>(g)) {
            uint64_t a = constVal(al->getAliasee()).c;
            gaddr[g] = a;
            if (auto *f = dyn_cast<Function>(al->getAliaseeObject())) fnAt[a] = f;
            return a;
        }
        throw Unsupported{"global without address " + g->getName().str()};
    }
    void writeConst(MemObj &o, uint64_t off, const Constant *c) {
        Type *t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return; // zero-filled
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                writeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
            return;
        }
        if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
            Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t n = isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            uint64_t sz = DL->getTypeAllocSize(et);
            if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
                StringRef raw = cd->getRawDataValues();
                memcpy(o.data.data() + off, raw.data(), raw.size());
                return;
            }
            for (uint64_t i = 0; i < n; i++) writeConst(o, off + i * sz, c->getAggregateElement(i));
            return;
        }
        Val v = constVal(c);
        uint64_t n = DL->getTypeStoreSize(t);
        APInt a = toE(v)->c.zext(std::max<unsigned>(n * 8, v.w));
        for (uint64_t i = 0; i < n; i++) o.data[off + i] = a.extractBitsAsZExtValue(8, i * 8);
    }
    void initGlobals(State &s) {
        uint64_t fa = 0x400000, ra = 0x10000000, wa = 0x200000000ull;
        for (auto &f : *M) { gaddr[&f] = fa; fnAt[fa] = &f; fa += 16; }
        std::vector<std::pair<GlobalVariable *, Obj>> todo;
        for (auto &g : M->globals()) {
            if (g.getName().starts_with("llvm.")) continue;
            uint64_t sz = g.isDeclaration() ? 512 : std::max<uint64_t>(1, DL->getTypeAllocSize(g.getValueType()));
            bool isRo = g.isConstant() && !g.isDeclaration();
            uint64_t &a = isRo ? ra : wa;
            uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 1);
            a = (a + al - 1) / al * al;
            auto o = std::make_shared<MemObj>();
            o->addr = a; o->size = sz; o->kind = g.isDeclaration() ? Kind::Extern : Kind::Global; o->ro = isRo;
            o->data.assign(sz, 0);
            o->name = strdup(g.getName().str().c_str());
            gaddr[&g] = a;
            a += sz + 64;
            (isRo ? ro : s.mem)[o->addr] = o;
            if (!g.isDeclaration()) todo.push_back({&g, o});
        }
        for (auto &[g, o] : todo) writeConst(*o, 0, g->getInitializer());
        // type info hierarchy
        for (auto &g : M->globals()) {
            StringRef n = g.getName();
            if (!n.starts_with("_ZTI")) continue;
            std::string nm = n.str();
            typeName[gaddr[&g]] = nm;
            typeAddr[nm] = gaddr[&g];
            if (g.isDeclaration()) continue;
            auto *init = g.getInitializer();
            for (unsigned i = 2; i < init->getNumOperands(); i++)
                if (auto *b = dyn_cast<GlobalVariable>(init->getOperand(i)->stripPointerCasts()))
                    if (b->getName().starts_with("_ZTI")) typeBases[nm].push_back(b->getName().str());
        }
        auto base = [&](const char *d, const char *b) { if (typeBases[d].empty()) typeBases[d].push_back(b); };
        base("_ZTISt11logic_error", "_ZTISt9exception");
        base("_ZTISt13runtime_error", "_ZTISt9exception");
        base("_ZTISt9bad_alloc", "_ZTISt9exception");
        base("_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc");
        base("_ZTISt8bad_cast", "_ZTISt9exception");
        base("_ZTISt17bad_function_call", "_ZTISt9exception");
        base("_ZTISt18bad_variant_access", "_ZTISt9exception");
        base("_ZTISt19bad_optional_access", "_ZTISt9exception");
        base("_ZTISt12length_error", "_ZTISt11logic_error");
        base("_ZTISt12out_of_range", "_ZTISt11logic_error");
        base("_ZTISt16invalid_argument", "_ZTISt11logic_error");
        base("_ZTISt12domain_error", "_ZTISt11logic_error");
        base("_ZTISt11range_error", "_ZTISt13runtime_error");
        base("_ZTISt14overflow_error", "_ZTISt13runtime_error");
        base("_ZTISt12system_error", "_ZTISt13runtime_error");
        base("_ZTINSt10filesystem7__cxx1116filesystem_errorE", "_ZTISt12system_error");
    }
    bool derives(const std::string &d, const std::string &b, int depth = 0) {
        if (d == b) return true;
        if (depth > 20) return false;
        auto it = typeBases.find(d);
        if (it == typeBases.end()) return false;
        for (auto &x : it->second) if (derives(x, b, depth + 1)) return true;
        return false;
    }
    int typeId(const std::string &n) {
        auto it = typeIds.find(n);
        if (it != typeIds.end()) return it->second;
        int id = typeIds.size() + 1;
        return typeIds[n] = id;
    }

    FuncInfo *info(const Function *f) {
        auto &p = finfo[f];
        if (p) return p;
        p = new FuncInfo;
        p->f = f;
        for (auto &a : f->args()) p->idx[&a] = p->n++;
        for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
        executed.insert(f);
        return p;
    }

    // ------------------------------------------------------------ reporting
    std::string locOf(const Instruction *i) {
        if (!i) return "?";
        if (auto &dl = i->getDebugLoc()) {
            auto *sc = cast<DIScope>(dl.getScope());
            return (sc->getFilename() + ":" + Twine(dl.getLine())).str();
        }
        return demangle(i->getFunction()->getName().str());
    }
    void report(State &s, const std::string &kind, const std::string &msg, const Asg &m, const std::string &known = "") {
        Violation v;
        v.kind = kind; v.msg = msg; v.known = kind == "memory" && !s.region.empty() ? s.region : known;
        for (int i = (int)s.st.size() - 1; i >= 0; i--) {
            auto &f = s.st[i];
            const Instruction *in = i == (int)s.st.size() - 1 ? &*f.pc : s.st[i + 1].caller;
            v.stack.push_back(locOf(in) + " in " + demangle(f.fi->f->getName().str()).substr(0, 160));
        }
        v.where = v.stack.empty() ? "?" : v.stack[0];
        std::string key = kind + "|" + msg + "|" + v.known + "|" + v.where;
        if (!violKeys.insert(key).second) return;
        std::string path = ceDir + "/" + entry + suffix + "_" + std::to_string(ceNo++) + ".ce";
        std::ofstream f(path);
        f << "# entry " << entry << "\n# kind " << kind << ": " << msg << "\n# where " << v.where << "\n";
        for (auto &p : params) f << "param " << p.first << " " << p.second << "\n";
        f << dumpInputs(s, m);
        v.ce = path;
        viols.push_back(v);
        if (!hurry && v.known.empty()) { // look a little further, then report
            hurry = true;
            timeLimit = std::min(timeLimit, Solver::now() - t0 + 15);
            sol.deadline = t0 + timeLimit;
        }
    }
    std::string suffix;
    std::string dumpInputs(State &s, const Asg &m) {
        std::string r;
        for (unsigned id : s.symOrder) {
            APInt val = id < m.size() && m[id].getBitWidth() == cx.vars[id].width ? m[id] : APInt(cx.vars[id].width, 0);
            SmallString<40> str;
            val.toString(str, 16, false);
            r += "input " + cx.vars[id].name + " " + std::to_string(cx.vars[id].width / 8) + " " + str.c_str() + "\n";
        }
        return r;
    }

    // ------------------------------------------------------------ constraints
    void addC(State &s, E c) {
        if (c->isConst()) return;
        if (c->op == Op::And) { addC(s, c->a); addC(s, c->b); return; }
        if (c->op == Op::Eq && c->b->isConst()) s.known.emplace(c->a, c->b->c);
        if (c->op == Op::Xor && c->b->isConst()) s.known.emplace(c->a, APInt(1, 0));
        if (!s.known.emplace(c, APInt(1, 1)).second) return;
        s.pc.push_back(c);
    }
    E subst(State &s, E e) {
        auto it = s.known.find(e);
        if (it != s.known.end()) return cx.constant(it->second);
        if (e->width == 1 && e->op == Op::Xor && e->b->isConst()) {
            auto j = s.known.find(e->a);
            if (j != s.known.end()) return cx.constant(j->second ^ e->b->c);
        }
        return e;
    }
    bool feasible(State &s, E c, Asg &m) {
        Res r = sol.check(s.pc, c, s.asg, m);
        if (r == Res::Unknown) { incomplete["solver timeout"]++; throw Unsupported{"solver timeout"}; }
        return r == Res::Sat;
    }
    State *clone(State &s) {
        auto n = std::make_unique<State>(s);
        State *p = n.get();
        work.push_back(std::move(n));
        forks++;
        return p;
    }
    // decide a symbolic condition; forks when both outcomes are feasible.
    // The clone re-executes the current instruction with the negation assumed.
    bool decide(State &s, E c) {
        c = subst(s, c);
        if (c->isConst()) return c->c.isOne();
        bool side = cx.eval(c, s.asg).isOne();
        E me = side ? c : cx.isZeroBit(c), other = cx.isZeroBit(me);
        Asg m;
        if (feasible(s, other, m)) {
            State *n = clone(s);
            addC(*n, other);
            n->asg = m;
            addC(s, me);
        } else
            s.known.emplace(c, APInt(1, side));
        return side;
    }
    bool truth(State &s, const Val &v) {
        if (!v.e) return v.c & 1;
        return decide(s, v.e);
    }
    // Narrow an integer that is about to become a floating-point value: find a
    // width that holds it on this path, so that the exact dyadic view applies.
    E boundInt(State &s, E e) {
        APInt lo, hi;
        if (e->isConst() || e->width > 64 || e->fp) return e;
        if (e->op != Op::Ite && cx.rangeOf(e, true, lo, hi) && cx.sbits(lo, hi) <= 17) return e;
        APInt cur = cx.eval(e, s.asg);
        { E c = cx.mkEq(e, cx.constant(cur)); Asg m; if (sol.check(s.pc, cx.isZeroBit(c), s.asg, m) == Res::Unsat) return cx.constant(cur); }
        for (unsigned b : {8u, 16u, 24u, 40u, 52u}) {
            if (b >= e->width) break;
            for (int sg = 0; sg < 2; sg++) {
                if (sg ? !cur.isSignedIntN(b) : !cur.isIntN(b)) continue;
                E n = cx.mkExtract(e, 0, b);
                E w = sg ? cx.mkSExt(n, e->width) : cx.mkZExt(n, e->width);
                E c = cx.mkEq(w, e);
                Asg m;
                if (c->isConst() ? c->c.isOne() : sol.check(s.pc, cx.isZeroBit(c), s.asg, m) == Res::Unsat) return w;
            }
        }
        return e;
    }
    uint64_t concretize(State &s, const Val &v) {
        if (!v.e) return v.c;
        E e = subst(s, v.e);
        if (e->isConst()) return e->c.getZExtValue();
        APInt k = cx.eval(e, s.asg);
        E eq = cx.mkEq(e, cx.constant(k));
        // all other values
        E excl = cx.isZeroBit(eq);
        Asg m;
        uint64_t n = 0;
        std::vector<std::pair<APInt, Asg>> others;
        E acc = excl;
        while (feasible(s, acc, m)) {
            if (++n > maxEnum) throw Unsupported{"enumeration limit at " + locOf(&*s.st.back().pc)};
            APInt kv = cx.eval(e, m);
            others.push_back({kv, m});
            acc = cx.mkAnd(acc, cx.isZeroBit(cx.mkEq(e, cx.constant(kv))));
        }
        for (auto &[kv, mm] : others) {
            State *c = clone(s);
            addC(*c, cx.mkEq(e, cx.constant(kv)));
            c->known.emplace(e, kv);
            c->asg = mm;
        }
        if (!others.empty()) addC(s, eq);
        s.known.emplace(e, k);
        return k.getZExtValue();
    }

    // ------------------------------------------------------------ memory
    Obj find(State &s, uint64_t a) {
        auto look = [&](std::map<uint64_t, Obj> &m) -> Obj {
            auto it = m.upper_bound(a);
            if (it == m.begin()) return nullptr;
            --it;
            if (a >= it->first && a < it->first + it->second->size) return it->second;
            if (a == it->first && it->second->size == 0) return it->second;
            return nullptr;
        };
        if (a >= 0x10000000 && a < 0x200000000ull) return look(ro);
        return look(s.mem);
    }
    bool wholly(State &s, uint64_t a, uint64_t n) {
        Obj o = find(s, a);
        return o && o->alive && a >= o->addr && a + n <= o->addr + o->size;
    }
    MemObj &writable(State &s, Obj &o) {
        Obj &slot = s.mem[o->addr];
        if (slot.use_count() > 2 || (slot.get() == o.get() && slot.use_count() > 2)) {
            slot = std::make_shared<MemObj>(*slot);
            o = slot;
        }
        return *slot;
    }
    uint64_t alloc(State &s, uint64_t n, Kind k, uint64_t align = 16, const char *name = "") {
        auto o = std::make_shared<MemObj>();
        uint64_t &nx = k == Kind::Stack ? s.stackNext : s.heapNext;
        align = std::max<uint64_t>(align, 16);
        nx = (nx + align - 1) / align * align;
        o->addr = nx; o->size = n; o->kind = k; o->name = name;
        o->data.assign(n, 0xAA);
        nx += n + 128;
        s.mem[o->addr] = o;
        return o->addr;
    }
    [[noreturn]] void memViolation(State &s, const std::string &what, uint64_t a, uint64_t n, const Asg &m) {
        report(s, "memory", what + " of " + std::to_string(n) + " bytes", m);
        (void)a;
        throw PathEnd{};
    }
    // resolve a concrete address; reports a violation when it is not valid
    Obj resolve(State &s, uint64_t a, uint64_t n, bool wr, const Asg &m) {
        const char *op = wr ? "write" : "read";
        Obj o = find(s, a);
        if (!o) memViolation(s, a < 4096 ? std::string("null-pointer ") + op : std::string("out-of-bounds ") + op, a, n, m);
        if (!o->alive) memViolation(s, std::string("use-after-free ") + op, a, n, m);
        if (a + n > o->addr + o->size) memViolation(s, std::string("out-of-bounds ") + op, a, n, m);
        if (wr && o->ro) memViolation(s, "write to constant memory", a, n, m);
        return o;
    }
    // Resolve a possibly symbolic address into one object + list of feasible offsets.
    struct Target { Obj o; std::vector<uint64_t> offs; E addr = nullptr; uint64_t step = 0; };
    Target target(State &s, const Val &p, uint64_t n, bool wr) {
        Target t;
        E e = p.e ? subst(s, p.e) : nullptr;
        if (!e || e->isConst()) {
            uint64_t a = e ? e->c.getZExtValue() : p.c;
            t.o = resolve(s, a, n, wr, s.asg);
            t.offs.push_back(a - t.o->addr);
            return t;
        }
        memChecksSym++;
        uint64_t a0 = cx.eval(e, s.asg).getZExtValue();
        // does the model's address fall in a live object?
        Obj o = find(s, a0);
        bool ok = o && o->alive && a0 + n <= o->addr + o->size && !(wr && o->ro);
        if (!ok) {
            report(s, "memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes", s.asg);
            // continue on the values that stay in bounds of some object, if any: restrict to a neighbour object
            throw PathEnd{};
        }
        E lo = cx.constant(64, o->addr), hi = cx.constant(64, o->addr + o->size - n);
        E in = cx.mkAnd(cx.mkUle(lo, e), cx.mkUle(e, hi));
        if (!decide(s, in)) throw Unsupported{"address model"}; // model satisfies `in`
        t.o = o;
        Asg m;
        if (!wr && o->size <= 512 && std::all_of(o->sym.begin(), o->sym.end(), [](E x) { return !x; })) { // a table: take the whole of it
            uint64_t step = n;
            while (step > 1 && ((step & (step - 1)) || feasible(s, cx.isZeroBit(cx.mkEq(cx.mkAnd(cx.mkSub(e, lo), cx.constant(64, step - 1)), cx.constant(64, 0))), m))) step /= 2;
            if (o->size / step <= 256) {
                for (uint64_t i = 0; i + n <= o->size; i += step) t.offs.push_back(i);
                t.step = step;
                if (t.offs.size() == 1) s.known.emplace(e, APInt(64, o->addr + t.offs[0]));
                else t.addr = e;
                return t;
            }
        }
        // enumerate feasible offsets (solver-driven); beyond 64 take the whole object
        E acc = cx.bit(true);
        bool many = false;
        while (feasible(s, acc, m)) {
            uint64_t k = cx.eval(e, m).getZExtValue();
            t.offs.push_back(k - o->addr);
            acc = cx.mkAnd(acc, cx.isZeroBit(cx.mkEq(e, cx.constant(64, k))));
            if (t.offs.size() > 64) { many = true; break; }
        }
        if (many) {
            if (o->size > 4096) throw Unsupported{"symbolic offset in large object"};
            t.offs.clear();
            for (uint64_t i = 0; i + n <= o->size; i++) t.offs.push_back(i);
        }
        std::sort(t.offs.begin(), t.offs.end());
        if (t.offs.size() == 1) s.known.emplace(e, APInt(64, o->addr + t.offs[0]));
        else t.addr = e;
        return t;
    }
    E byteAt(const MemObj &o, uint64_t i) {
        if (o.anySym() && o.sym[i]) return o.sym[i];
        return cx.constant(8, o.data[i]);
    }
    Val loadAt(const MemObj &o, uint64_t off, unsigned w) {
        uint64_t n = (w + 7) / 8;
        bool sym = false;
        if (o.anySym()) for (uint64_t i = 0; i < n; i++) if (o.sym[off + i]) { sym = true; break; }
        if (!sym && w <= 64) {
            uint64_t v = 0;
            for (uint64_t i = 0; i < n; i++) v |= (uint64_t)o.data[off + i] << (8 * i);
            return cv(w, v);
        }
        E e = byteAt(o, off + n - 1);
        for (int64_t i = n - 2; i >= 0; i--) e = cx.mkConcat(e, byteAt(o, off + i));
        if (e->width != w) e = cx.mkExtract(e, 0, w);
        return fromE(e);
    }
    void storeAt(MemObj &o, uint64_t off, const Val &v, unsigned w) {
        uint64_t n = (w + 7) / 8;
        if (!v.e) {
            for (uint64_t i = 0; i < n; i++) {
                o.data[off + i] = i < 8 ? v.c >> (8 * i) : 0;
                if (o.anySym()) o.sym[off + i] = nullptr;
            }
            return;
        }
        E e = v.e;
        if (e->width != n * 8) e = cx.mkZExt(e, n * 8);
        for (uint64_t i = 0; i < n; i++) setByte(o, off + i, cx.mkExtract(e, 8 * i, 8));
    }
    void setByte(MemObj &o, uint64_t i, E b) {
        if (b->isConst()) {
            o.data[i] = b->c.getZExtValue();
            if (o.anySym()) o.sym[i] = nullptr;
        } else {
            if (!o.anySym()) o.sym.assign(o.size, nullptr);
            o.sym[i] = b;
        }
    }
    Val loadScalar(State &s, const Val &p, unsigned w) {
        uint64_t n = (w + 7) / 8;
        Target t = target(s, p, n, false);
        if (!t.addr) return loadAt(*t.o, t.offs[0], w);
        if (t.step && w <= 64) { // runs of equal or consecutive values become one term each
            std::vector<E> v;
            for (uint64_t off : t.offs) v.push_back(toE(loadAt(*t.o, off, w)));
            E idx = cx.mkLShr(cx.mkSub(t.addr, cx.constant(64, t.o->addr)), cx.constant(64, Log2_64(t.step)));
            auto diff = [&](size_t i, uint64_t k) { return v[i]->isConst() && v[i - 1]->isConst() && v[i]->c == v[i - 1]->c + k; };
            E r = nullptr;
            for (size_t end = v.size(); end > 0;) {
                size_t i = end - 1;
                uint64_t k = i > 0 && diff(i, 1) ? 1 : 0;
                while (i > 0 && (diff(i, k) || (k == 0 && v[i] == v[i - 1]))) i--;
                E val = v[i];
                if (k) {
                    E d = cx.mkSub(idx, cx.constant(64, i));
                    val = cx.mkAdd(w < 64 ? cx.mkExtract(d, 0, w) : d, v[i]);
                }
                // higher elements were handled before, so idx >= i selects this run
                E in = cx.mkAnd(cx.mkUlt(idx, cx.constant(64, end)), cx.mkUle(cx.constant(64, i), idx));
                Asg m;
                bool can = true;
                if (end - i > 2) can = in->isConst() ? in->c.isOne() : feasible(s, in, m);
                if (can) r = !r ? val : cx.mkIte(cx.mkUlt(idx, cx.constant(64, end)), val, r);
                end = i;
            }
            if (!r) r = v[0];
            return fromE(r);
        }
        E r = toE(loadAt(*t.o, t.offs.back(), w));
        for (int i = (int)t.offs.size() - 2; i >= 0; i--)
            r = cx.mkIte(cx.mkEq(t.addr, cx.constant(64, t.o->addr + t.offs[i])), toE(loadAt(*t.o, t.offs[i], w)), r);
        return fromE(r);
    }
    void storeScalar(State &s, const Val &p, const Val &v, unsigned w) {
        uint64_t n = (w + 7) / 8;
        Target t = target(s, p, n, true);
        MemObj &o = writable(s, t.o);
        if (!t.addr) { storeAt(o, t.offs[0], v, w); return; }
        E val = toE(v);
        if (val->width != n * 8) val = cx.mkZExt(val, n * 8);
        for (uint64_t off : t.offs) {
            E c = cx.mkEq(t.addr, cx.constant(64, o.addr + off));
            for (uint64_t i = 0; i < n; i++)
                setByte(o, off + i, cx.mkIte(c, cx.mkExtract(val, 8 * i, 8), byteAt(o, off + i)));
        }
    }
    Val load(State &s, const Val &p, Type *t) {
        if (!isAgg(t)) return loadScalar(s, p, bits(t));
        std::vector<Val> v;
        Val base = p;
        if (p.e) { base = cv(64, concretize(s, p)); }
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                v.push_back(load(s, cv(64, base.c + sl->getElementOffset(i)), st->getElementType(i)));
        } else {
            Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t n = isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            uint64_t sz = DL->getTypeAllocSize(et);
            for (uint64_t i = 0; i < n; i++) v.push_back(load(s, cv(64, base.c + i * sz), et));
        }
        return aggv(v);
    }
    void store(State &s, const Val &p, const Val &v, Type *t) {
        if (!isAgg(t)) { storeScalar(s, p, v, bits(t)); return; }
        Val base = p;
        if (p.e) base = cv(64, concretize(s, p));
        if (auto *st = dyn_cast<StructType>(t)) {
            auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                store(s, cv(64, base.c + sl->getElementOffset(i)), (*v.agg)[i], st->getElementType(i));
        } else {
            Type *et = isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
            uint64_t sz = DL->getTypeAllocSize(et);
            for (uint64_t i = 0; i < v.agg->size(); i++) store(s, cv(64, base.c + i * sz), (*v.agg)[i], et);
        }
    }
    void copyMem(State &s, uint64_t d, uint64_t sr, uint64_t n) {
        if (!n) return;
        Obj so = resolve(s, sr, n, false, s.asg);
        Obj dob = resolve(s, d, n, true, s.asg);
        uint64_t so_off = sr - so->addr, d_off = d - dob->addr;
        std::vector<uint8_t> data(so->data.begin() + so_off, so->data.begin() + so_off + n);
        std::vector<E> sym;
        if (so->anySym()) sym.assign(so->sym.begin() + so_off, so->sym.begin() + so_off + n);
        so.reset();
        MemObj &o = writable(s, dob);
        memcpy(o.data.data() + d_off, data.data(), n);
        bool any = false;
        for (E e : sym) if (e) any = true;
        if (any) {
            if (!o.anySym()) o.sym.assign(o.size, nullptr);
            std::copy(sym.begin(), sym.end(), o.sym.begin() + d_off);
        } else if (o.anySym()) std::fill(o.sym.begin() + d_off, o.sym.begin() + d_off + n, nullptr);
    }
    void setMem(State &s, uint64_t d, const Val &v, uint64_t n) {
        if (!n) return;
        Obj dob = resolve(s, d, n, true, s.asg);
        MemObj &o = writable(s, dob);
        uint64_t off = d - o.addr;
        E b = v.e ? cx.mkExtract(v.e, 0, 8) : nullptr;
        for (uint64_t i = 0; i < n; i++) {
            if (b) setByte(o, off + i, b);
            else { o.data[off + i] = v.c; if (o.anySym()) o.sym[off + i] = nullptr; }
        }
    }
    std::string cstr(State &s, uint64_t a) {
        std::string r;
        for (;; a++) {
            Obj o = resolve(s, a, 1, false, s.asg);
            Val v = loadAt(*o, a - o->addr, 8);
            if (v.e) throw Unsupported{"symbolic C string"};
            if (!v.c) return r;
            r.push_back((char)v.c);
        }
    }

    // ------------------------------------------------------------ scalar ops
    Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
        if (a.agg || b.agg) throw Unsupported{"vector icmp"};
        if (!a.e && !b.e) {
            unsigned sh = 64 - a.w;
            int64_t sa = (int64_t)(a.c << sh) >> sh, sb = (int64_t)(b.c << sh) >> sh;
            bool r;
            switch (p) {
            case CmpInst::ICMP_EQ: r = a.c == b.c; break;
            case CmpInst::ICMP_NE: r = a.c != b.c; break;
            case CmpInst::ICMP_ULT: r = a.c < b.c; break;
            case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case CmpInst::ICMP_UGT: r = a.c > b.c; break;
            case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
            case CmpInst::ICMP_SLT: r = sa < sb; break;
            case CmpInst::ICMP_SLE: r = sa <= sb; break;
            case CmpInst::ICMP_SGT: r = sa > sb; break;
            default: r = sa >= sb; break;
            }
            return cv(1, r);
        }
        E x = toE(a), y = toE(b);
        switch (p) {
        case CmpInst::ICMP_EQ: return fromE(cx.mkEq(x, y));
        case CmpInst::ICMP_NE: return fromE(cx.isZeroBit(cx.mkEq(x, y)));
        case CmpInst::ICMP_ULT: return fromE(cx.mkUlt(x, y));
        case CmpInst::ICMP_ULE: return fromE(cx.mkUle(x, y));
        case CmpInst::ICMP_UGT: return fromE(cx.mkUlt(y, x));
        case CmpInst::ICMP_UGE: return fromE(cx.mkUle(y, x));
        case CmpInst::ICMP_SLT: return fromE(cx.mkSlt(x, y));
        case CmpInst::ICMP_SLE: return fromE(cx.mkSle(x, y));
        case CmpInst::ICMP_SGT: return fromE(cx.mkSlt(y, x));
        default: return fromE(cx.mkSle(y, x));
        }
    }
    Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
        E x = toE(a), y = toE(b);
        auto eq = [&] { return cx.mkF(Op::FEq, x, y); };
        auto lt = [&] { return cx.mkF(Op::FLt, x, y); };
        auto gt = [&] { return cx.mkF(Op::FLt, y, x); };
        auto le = [&] { return cx.mkF(Op::FLe, x, y); };
        auto ge = [&] { return cx.mkF(Op::FLe, y, x); };
        auto uno = [&] { return cx.mkOr(cx.mkIsNan(x), cx.mkIsNan(y)); };
        E r;
        switch (p) {
        case CmpInst::FCMP_FALSE: r = cx.bit(false); break;
        case CmpInst::FCMP_TRUE: r = cx.bit(true); break;
        case CmpInst::FCMP_OEQ: r = eq(); break;
        case CmpInst::FCMP_OGT: r = gt(); break;
        case CmpInst::FCMP_OGE: r = ge(); break;
        case CmpInst::FCMP_OLT: r = lt(); break;
        case CmpInst::FCMP_OLE: r = le(); break;
        case CmpInst::FCMP_ONE: r = cx.mkAnd(cx.isZeroBit(eq()), cx.isZeroBit(uno())); break;
        case CmpInst::FCMP_ORD: r = cx.isZeroBit(uno()); break;
        case CmpInst::FCMP_UNO: r = uno(); break;
        case CmpInst::FCMP_UEQ: r = cx.mkOr(eq(), uno()); break;
        case CmpInst::FCMP_UGT: r = cx.isZeroBit(le()); break;
        case CmpInst::FCMP_UGE: r = cx.isZeroBit(lt()); break;
        case CmpInst::FCMP_ULT: r = cx.isZeroBit(ge()); break;
        case CmpInst::FCMP_ULE: r = cx.isZeroBit(gt()); break;
        default: r = cx.isZeroBit(eq()); break; // UNE
        }
        return fromE(r);
    }
    static uint64_t sx(uint64_t v, unsigned w) { unsigned s = 64 - w; return (uint64_t)((int64_t)(v << s) >> s); }
    Val binop(State &s, unsigned op, const Val &a, const Val &b) {
        if (a.agg) {
            std::vector<Val> r;
            for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binop(s, op, (*a.agg)[i], (*b.agg)[i]));
            return aggv(r);
        }
        unsigned w = a.w;
        bool div = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
        if (div) {
            if (!b.e && w <= 64 && b.c == 0) { report(s, "ub", "integer division by zero", s.asg); throw PathEnd{}; }
            if (b.e) {
                if (decide(s, cx.mkEq(b.e, cx.constant(APInt(w, 0))))) { report(s, "ub", "integer division by zero", s.asg); throw PathEnd{}; }
            }
        }
        if (!a.e && !b.e && w <= 64) {
            uint64_t x = a.c, y = b.c;
            switch (op) {
            case Instruction::Add: return cv(w, x + y);
            case Instruction::Sub: return cv(w, x - y);
            case Instruction::Mul: return cv(w, x * y);
            case Instruction::And: return cv(w, x & y);
            case Instruction::Or: return cv(w, x | y);
            case Instruction::Xor: return cv(w, x ^ y);
            case Instruction::Shl: return cv(w, y >= w ? 0 : x << y);
            case Instruction::LShr: return cv(w, y >= w ? 0 : x >> y);
            case Instruction::AShr: return cv(w, (int64_t)sx(x, w) >> (y >= w ? w - 1 : y));
            case Instruction::UDiv: return cv(w, x / y);
            case Instruction::URem: return cv(w, x % y);
            default: break;
            }
        }
        E x = toE(a), y = toE(b);
        switch (op) {
        case Instruction::Add: return fromE(cx.mkAdd(x, y));
        case Instruction::Sub: return fromE(cx.mkSub(x, y));
        case Instruction::Mul: return fromE(cx.mkMul(x, y));
        case Instruction::UDiv: return fromE(cx.mkUDiv(x, y));
        case Instruction::SDiv: return fromE(cx.mkSDiv(x, y));
        case Instruction::URem: return fromE(cx.mkURem(x, y));
        case Instruction::SRem: return fromE(cx.mkSRem(x, y));
        case Instruction::And: return fromE(cx.mkAnd(x, y));
        case Instruction::Or: return fromE(cx.mkOr(x, y));
        case Instruction::Xor: return fromE(cx.mkXor(x, y));
        case Instruction::Shl: return fromE(cx.mkShl(x, y));
        case Instruction::LShr: return fromE(cx.mkLShr(x, y));
        case Instruction::AShr: return fromE(cx.mkAShr(x, y));
        case Instruction::FAdd: return fromE(cx.mkF(Op::FAdd, x, y));
        case Instruction::FSub: return fromE(cx.mkF(Op::FSub, x, y));
        case Instruction::FMul: return fromE(cx.mkF(Op::FMul, x, y));
        case Instruction::FDiv: return fromE(cx.mkF(Op::FDiv, x, y));
        case Instruction::FRem:
            if (!x->isConst() || !y->isConst()) throw Unsupported{"symbolic frem"};
            return fromE(cx.mkF(Op::FRem, x, y));
        }
        throw Unsupported{"binop"};
    }
    Val castop(unsigned op, const Val &v, Type *from, Type *to) {
        if (v.agg) {
            if (op == Instruction::BitCast) throw Unsupported{"vector bitcast"};
            std::vector<Val> r;
            for (auto &x : *v.agg) r.push_back(castop(op, x, cast<FixedVectorType>(from)->getElementType(), cast<FixedVectorType>(to)->getElementType()));
            return aggv(r);
        }
        if (isAgg(to)) throw Unsupported{"cast to vector"};
        unsigned w = bits(to);
        switch (op) {
        case Instruction::Trunc: if (!v.e && w <= 64) return cv(w, v.c); return fromE(cx.mkExtract(toE(v), 0, w));
        case Instruction::ZExt: if (!v.e && w <= 64) return cv(w, v.c); return fromE(cx.mkZExt(toE(v), w));
        case Instruction::SExt: if (!v.e && w <= 64) return cv(w, sx(v.c, v.w)); return fromE(cx.mkSExt(toE(v), w));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
            return fromE(w == v.w ? toE(v) : w < v.w ? cx.mkExtract(toE(v), 0, w) : cx.mkZExt(toE(v), w));
        case Instruction::FPToSI: return fromE(cx.mkF1(Op::FToSI, toE(v), w));
        case Instruction::FPToUI: return fromE(cx.mkF1(Op::FToUI, toE(v), w));
        case Instruction::SIToFP: return fromE(cx.mkF1(Op::SIToF, toE(v), w));
        case Instruction::UIToFP: return fromE(cx.mkF1(Op::UIToF, toE(v), w));
        case Instruction::FPExt: case Instruction::FPTrunc: return fromE(cx.mkF1(Op::FConv, toE(v), w));
        }
        throw Unsupported{"cast"};
    }

    // ------------------------------------------------------------ frames
    const Val &reg(Frame &f, const Value *v) { return f.regs[f.fi->idx.find(v)->second]; }
    Val op(State &s, const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
        Frame &f = s.st.back();
        auto it = f.fi->idx.find(v);
        if (it == f.fi->idx.end()) throw Unsupported{"operand"};
        return f.regs[it->second];
    }
    void set(State &s, const Value *v, const Val &x) {
        Frame &f = s.st.back();
        f.regs[f.fi->idx.find(v)->second] = x;
    }
    void jump(State &s, const BasicBlock *to) {
        Frame &f = s.st.back();
        const BasicBlock *from = f.bb;
        std::vector<std::pair<const Value *, Val>> ph;
        for (auto &phi : to->phis()) ph.push_back({&phi, op(s, phi.getIncomingValueForBlock(from))});
        for (auto &[p, v] : ph) set(s, p, v);
        f.bb = to;
        bbSeen.insert(to);
        f.pc = to->getFirstNonPHIIt();
    }
    void enter(State &s, const Function *f, std::vector<Val> args, const CallBase *cb) {
        if (s.st.size() > 2000) { report(s, "nontermination", "unbounded recursion", s.asg); throw PathEnd{}; }
        FuncInfo *fi = info(f);
        Frame fr;
        fr.fi = fi;
        fr.regs.resize(fi->n);
        fr.caller = cb;
        for (unsigned i = 0; i < f->arg_size(); i++) {
            Val a = i < args.size() ? args[i] : zeroOf(f->getArg(i)->getType());
            if (cb && f->getArg(i)->hasByValAttr()) {
                uint64_t n = DL->getTypeAllocSize(f->getArg(i)->getParamByValType());
                uint64_t na = alloc(s, n, Kind::Stack, 16, "byval");
                copyMem(s, na, concretize(s, a), n);
                fr.allocas.push_back(na);
                a = cv(64, na);
            }
            fr.regs[i] = a;
        }
        for (size_t i = f->arg_size(); i < args.size(); i++) fr.varargs.push_back(args[i]);
        fr.bb = &f->getEntryBlock();
        bbSeen.insert(fr.bb);
        fr.pc = fr.bb->begin();
        s.st.push_back(std::move(fr));
    }
    void popFrame(State &s) {
        for (uint64_t a : s.st.back().allocas) s.mem.erase(a);
        s.st.pop_back();
    }
    void advanceAfterCall(State &s, const CallBase *cb, const Val *ret) {
        if (ret && !cb->getType()->isVoidTy()) set(s, cb, *ret);
        if (auto *iv = dyn_cast<InvokeInst>(cb)) jump(s, iv->getNormalDest());
        else ++s.st.back().pc;
    }
    // start unwinding with the current frame's current instruction being the throwing call
    void unwind(State &s, uint64_t addr, uint64_t type, bool popFirst) {
        if (popFirst) { // the throw originates in a frame that is left (resume)
            const CallBase *cb = s.st.back().caller;
            bool ctor = s.st.back().ctor;
            popFrame(s);
            if (ctor || s.st.empty()) uncaught(s, type);
            (void)cb;
        }
        for (;;) {
            Frame &f = s.st.back();
            auto *in = &*f.pc;
            if (auto *iv = dyn_cast<InvokeInst>(in)) {
                const BasicBlock *ub = iv->getUnwindDest();
                auto *lp = ub->getLandingPadInst();
                int sel;
                if (lp && selects(s, lp, type, sel)) {
                    f.excAddr = addr; f.excType = type;
                    jump(s, ub);
                    return;
                }
            } else if (auto *c = dyn_cast<CallInst>(in); c && c->doesNotThrow() && c->getCalledFunction() && !c->getCalledFunction()->isDeclaration() && false) {
            }
            bool ctor = f.ctor;
            if (ctor || s.st.size() == 1) uncaught(s, type);
            popFrame(s);
        }
    }
    [[noreturn]] void uncaught(State &s, uint64_t type) {
        report(s, "terminate", "uncaught exception " + demangle(tname(type).substr(4)), s.asg);
        throw PathEnd{};
    }
    std::string tname(uint64_t t) { auto it = typeName.find(t); return it == typeName.end() ? "_ZTI?" : it->second; }
    bool selects(State &, const LandingPadInst *lp, uint64_t type, int &sel) {
        std::string tn = tname(type);
        for (unsigned i = 0; i < lp->getNumClauses(); i++) {
            if (lp->isCatch(i)) {
                Constant *c = lp->getClause(i);
                if (isa<ConstantPointerNull>(c)) { sel = typeId("*"); return true; }
                auto *g = dyn_cast<GlobalVariable>(c->stripPointerCasts());
                if (g && derives(tn, g->getName().str())) { sel = typeId(g->getName().str()); return true; }
            } else { // filter: exception specification
                auto *arr = lp->getClause(i);
                bool ok = false;
                if (auto *ca = dyn_cast<ConstantArray>(arr))
                    for (auto &o : ca->operands())
                        if (auto *g = dyn_cast<GlobalVariable>(cast<Constant>(o)->stripPointerCasts()))
                            ok |= derives(tn, g->getName().str());
                if (!ok) { sel = -1; return true; }
            }
        }
        if (lp->isCleanup()) { sel = 0; return true; }
        return false;
    }
    void throwStd(State &s, const char *ti) {
        uint64_t &a = typeAddr[ti];
        if (!a) { a = 0x3f0000 + 16 * typeAddr.size(); typeName[a] = ti; }
        uint64_t t = a;
        uint64_t o = alloc(s, 64, Kind::Heap, 16, "exception");
        unwind(s, o, t, false);
    }

    // ------------------------------------------------------------ driver
    void run() {
        t0 = Solver::now();
        sol.deadline = t0 + timeLimit;
        auto init = std::make_unique<State>();
        try {
            initGlobals(*init);
            if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
                if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
                    std::vector<std::pair<uint64_t, Function *>> fs;
                    for (auto &o : arr->operands()) {
                        auto *cs = cast<ConstantStruct>(o);
                        if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                            fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
                    }
                    std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
                    for (auto &[p, f] : fs) {
                        enter(*init, f, {}, nullptr);
                        init->st.back().ctor = true;
                        while (!init->st.empty()) step(*init);
                    }
                }
        } catch (PathEnd &) {
            incomplete["path ended in a global constructor"]++;
            return;
        } catch (Unsupported &u) {
            incomplete["global constructors: " + u.why]++;
            return;
        }
        Function *ef = M->getFunction(entry);
        if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
        executed.clear();
        bbSeen.clear();
        finfo.clear();
        enter(*init, ef, {}, nullptr);
        init->st.back().ctor = true;
        init->steps = 0;
        work.push_back(std::move(init));
        while (!work.empty()) {
            if (Solver::now() - t0 > timeLimit) { incomplete["time limit, " + std::to_string(work.size()) + " states pending"]++; break; }
            if (viols.size() >= maxViol) break;
            if (paths >= maxPaths) { incomplete["path limit"]++; break; }
            auto s = std::move(work.back());
            work.pop_back();
            runPath(*s);
        }
    }
    void runPath(State &s) {
        try {
            unsigned k = 0;
            while (!s.st.empty()) {
                step(s);
                if (++s.steps > maxSteps) {
                    report(s, "nontermination", "path exceeds " + std::to_string(maxSteps) + " steps", s.asg);
                    incomplete["step limit"]++;
                    return;
                }
                if ((++k & 0xffff) == 0 && Solver::now() - t0 > timeLimit) { incomplete["time limit inside a path"]++; return; }
            }
            paths++;
            if (witnessNo < maxWitness && (paths <= maxWitness / 2 || (paths & (paths - 1)) == 0 || paths % 97 == 0)) {
                std::ofstream f(ceDir + "/" + entry + suffix + "_" + std::to_string(witnessNo++) + ".wit");
                f << "# entry " << entry << "\n";
                for (auto &p : params) f << "param " << p.first << " " << p.second << "\n";
                f << dumpInputs(s, s.asg);
            }
            if (samples.size() < 6 && (paths & (paths - 1)) == 0) {
                std::string d = dumpInputs(s, s.asg);
                for (auto &ch : d) if (ch == '\n') ch = ';';
                samples.push_back(d.substr(0, 400));
            }
        } catch (PathEnd &) {
        } catch (Unsupported &u) {
            incomplete[u.why]++;
            if (getenv("SYMX_VERBOSE")) {
                fprintf(stderr, "[unsupported: %s]\n", u.why.c_str());
                for (int i = (int)s.st.size() - 1; i >= 0; i--)
                    fprintf(stderr, "   at %s\n", (locOf(i == (int)s.st.size() - 1 ? &*s.st[i].pc : s.st[i + 1].caller) + " in " + demangle(s.st[i].fi->f->getName().str())).c_str());
            }
        }
    }

    void step(State &s) {
        Frame &f = s.st.back();
        const Instruction &I = *f.pc;
        insts++;
        cur = &s;
        switch (I.getOpcode()) {
        case Instruction::Ret: {
            Val r;
            bool has = false;
            if (I.getNumOperands()) { r = op(s, I.getOperand(0)); has = true; }
            const CallBase *cb = f.caller;
            popFrame(s);
            if (s.st.empty()) return;
            if (!cb) return;
            advanceAfterCall(s, cb, has ? &r : nullptr);
            return;
        }
        case Instruction::Br: {
            auto &b = cast<BranchInst>(I);
            if (b.isUnconditional()) { jump(s, b.getSuccessor(0)); return; }
            bool t = truth(s, op(s, b.getCondition()));
            jump(s, b.getSuccessor(t ? 0 : 1));
            return;
        }
        case Instruction::Switch: {
            auto &sw = cast<SwitchInst>(I);
            Val c = op(s, sw.getCondition());
            if (c.e) { E e = subst(s, c.e); c = fromE(e); }
            if (!c.e) {
                for (auto &cs : sw.cases())
                    if (cs.getCaseValue()->getValue().getZExtValue() == c.c) { jump(s, cs.getCaseSuccessor()); return; }
                jump(s, sw.getDefaultDest());
                return;
            }
            std::vector<const BasicBlock *> order;
            std::map<const BasicBlock *, E> conds;
            E any = cx.bit(false);
            for (auto &cs : sw.cases()) {
                E q = cx.mkEq(c.e, cx.constant(cs.getCaseValue()->getValue()));
                any = cx.mkOr(any, q);
                auto *bb = cs.getCaseSuccessor();
                if (!conds.count(bb)) { order.push_back(bb); conds[bb] = q; }
                else conds[bb] = cx.mkOr(conds[bb], q);
            }
            auto *dd = sw.getDefaultDest();
            if (!conds.count(dd)) { order.push_back(dd); conds[dd] = cx.isZeroBit(any); }
            else conds[dd] = cx.mkOr(conds[dd], cx.isZeroBit(any));
            const BasicBlock *mine = nullptr;
            std::vector<std::pair<const BasicBlock *, Asg>> oth;
            for (auto *bb : order) {
                if (!mine && cx.eval(conds[bb], s.asg).isOne()) { mine = bb; continue; }
                Asg m;
                if (feasible(s, conds[bb], m)) oth.push_back({bb, m});
            }
            for (auto &[bb, m] : oth) {
                State *n = clone(s);
                addC(*n, conds[bb]);
                n->asg = m;
                jump(*n, bb);
            }
            if (!mine) throw PathEnd{};
            addC(s, conds[mine]);
            jump(s, mine);
            return;
        }
        case Instruction::Unreachable:
            report(s, "ub", "unreachable code reached", s.asg);
            throw PathEnd{};
        case Instruction::Invoke:
        case Instruction::Call:
            call(s, cast<CallBase>(I));
            return;
        case Instruction::Resume: {
            Val v = op(s, I.getOperand(0));
            (void)v;
            uint64_t a = f.excAddr, t = f.excType;
            unwind(s, a, t, true);
            return;
        }
        case Instruction::LandingPad: {
            int sel = 0;
            selects(s, cast<LandingPadInst>(&I), f.excType, sel);
            set(s, &I, aggv({cv(64, f.excAddr), cv(32, (uint32_t)sel)}));
            break;
        }
        case Instruction::Alloca: {
            auto &al = cast<AllocaInst>(I);
            uint64_t n = concretize(s, op(s, al.getArraySize()));
            uint64_t sz = DL->getTypeAllocSize(al.getAllocatedType()) * n;
            uint64_t a = alloc(s, sz, Kind::Stack, al.getAlign().value(), "stack");
            f.allocas.push_back(a);
            set(s, &I, cv(64, a));
            break;
        }
        case Instruction::Load: {
            Val v = load(s, op(s, I.getOperand(0)), I.getType());
            set(s, &I, v);
            break;
        }
        case Instruction::Store:
            store(s, op(s, I.getOperand(1)), op(s, I.getOperand(0)), I.getOperand(0)->getType());
            break;
        case Instruction::GetElementPtr: {
            auto *g = cast<GEPOperator>(&I);
            Val base = op(s, g->getPointerOperand());
            if (base.agg) throw Unsupported{"vector gep"};
            uint64_t coff = 0;
            E soff = nullptr;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                if (auto *st = gi.getStructTypeOrNull()) {
                    coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                } else {
                    uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                    Val ix = op(s, gi.getOperand());
                    if (!ix.e) coff += sx(ix.c, ix.w) * sz;
                    else {
                        E x = ix.e->width < 64 ? cx.mkSExt(ix.e, 64) : ix.e;
                        x = cx.mkMul(x, cx.constant(64, sz));
                        soff = soff ? cx.mkAdd(soff, x) : x;
                    }
                }
            }
            Val r;
            if (!base.e && !soff) r = cv(64, base.c + coff);
            else {
                E e = cx.mkAdd(toE(base), cx.constant(64, coff));
                if (soff) e = cx.mkAdd(e, soff);
                r = fromE(e);
            }
            set(s, &I, r);
            break;
        }
        case Instruction::ICmp: {
            auto &c = cast<ICmpInst>(I);
            set(s, &I, icmp(c.getPredicate(), op(s, c.getOperand(0)), op(s, c.getOperand(1))));
            break;
        }
        case Instruction::FCmp: {
            auto &c = cast<FCmpInst>(I);
            set(s, &I, fcmp(c.getPredicate(), op(s, c.getOperand(0)), op(s, c.getOperand(1))));
            break;
        }
        case Instruction::FNeg: {
            Val v = op(s, I.getOperand(0));
            set(s, &I, fromE(cx.mkXor(toE(v), cx.constant(APInt::getSignMask(v.w)))));
            break;
        }
        case Instruction::Select: {
            Val c = op(s, I.getOperand(0));
            if (c.agg) throw Unsupported{"vector select"};
            if (c.e) c = fromE(subst(s, c.e));
            Val t = op(s, I.getOperand(1)), e = op(s, I.getOperand(2));
            if (!c.e) set(s, &I, c.c ? t : e);
            else if (t.agg) set(s, &I, decide(s, c.e) ? t : e);
            else set(s, &I, fromE(cx.mkIte(c.e, toE(t), toE(e))));
            break;
        }
        case Instruction::ExtractValue: {
            auto &ev = cast<ExtractValueInst>(I);
            Val v = op(s, ev.getAggregateOperand());
            for (unsigned i : ev.indices()) { Val t = (*v.agg)[i]; v = t; }
            set(s, &I, v);
            break;
        }
        case Instruction::InsertValue: {
            auto &iv = cast<InsertValueInst>(I);
            Val v = op(s, iv.getAggregateOperand());
            set(s, &I, insertAt(v, iv.getIndices(), op(s, iv.getInsertedValueOperand())));
            break;
        }
        case Instruction::ExtractElement: {
            Val v = op(s, I.getOperand(0));
            set(s, &I, (*v.agg)[concretize(s, op(s, I.getOperand(1)))]);
            break;
        }
        case Instruction::InsertElement: {
            Val v = op(s, I.getOperand(0));
            std::vector<Val> r = *v.agg;
            r[concretize(s, op(s, I.getOperand(2)))] = op(s, I.getOperand(1));
            set(s, &I, aggv(r));
            break;
        }
        case Instruction::ShuffleVector: {
            auto &sv = cast<ShuffleVectorInst>(I);
            Val a = op(s, I.getOperand(0)), b = op(s, I.getOperand(1));
            std::vector<Val> r;
            for (int m : sv.getShuffleMask()) {
                if (m < 0) r.push_back(zeroOf(cast<FixedVectorType>(I.getType())->getElementType()));
                else r.push_back((size_t)m < a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()]);
            }
            set(s, &I, aggv(r));
            break;
        }
        case Instruction::Freeze: set(s, &I, op(s, I.getOperand(0))); break;
        case Instruction::Fence: break;
        case Instruction::AtomicCmpXchg: {
            auto &x = cast<AtomicCmpXchgInst>(I);
            Type *t = x.getCompareOperand()->getType();
            Val p = op(s, x.getPointerOperand()), old = load(s, p, t);
            Val eq = icmp(CmpInst::ICMP_EQ, old, op(s, x.getCompareOperand()));
            if (truth(s, eq)) store(s, p, op(s, x.getNewValOperand()), t), eq = cv(1, 1);
            else eq = cv(1, 0);
            set(s, &I, aggv({old, eq}));
            break;
        }
        case Instruction::AtomicRMW: {
            auto &x = cast<AtomicRMWInst>(I);
            Type *t = x.getValOperand()->getType();
            Val p = op(s, x.getPointerOperand()), old = load(s, p, t), v = op(s, x.getValOperand()), n;
            switch (x.getOperation()) {
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = binop(s, Instruction::Add, old, v); break;
            case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, old, v); break;
            case AtomicRMWInst::And: n = binop(s, Instruction::And, old, v); break;
            case AtomicRMWInst::Or: n = binop(s, Instruction::Or, old, v); break;
            case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, old, v); break;
            default: throw Unsupported{"atomicrmw"};
            }
            store(s, p, n, t);
            set(s, &I, old);
            break;
        }
        case Instruction::VAArg: throw Unsupported{"va_arg"};
        default:
            if (I.isBinaryOp()) { set(s, &I, binop(s, I.getOpcode(), op(s, I.getOperand(0)), op(s, I.getOperand(1)))); break; }
            if (I.isCast()) {
                Val cvv = op(s, I.getOperand(0));
                if ((I.getOpcode() == Instruction::SIToFP || I.getOpcode() == Instruction::UIToFP) && cvv.e && !cvv.agg) {
                    E nb = boundInt(s, cvv.e);
                    if (I.getOpcode() == Instruction::SIToFP || nb->isConst() || nb->op == Op::ZExt) cvv = fromE(nb);
                }
                set(s, &I, castop(I.getOpcode(), cvv, I.getOperand(0)->getType(), I.getType())); 
                break;
            }
            throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
        }
        ++s.st.back().pc;
    }
    Val insertAt(const Val &v, ArrayRef<unsigned> idx, const Val &x) {
        if (idx.empty()) return x;
        std::vector<Val> r = *v.agg;
        r[idx[0]] = insertAt(r[idx[0]], idx.slice(1), x);
        return aggv(r);
    }

    // ------------------------------------------------------------ calls
    void call(State &s, const CallBase &cb) {
        if (cb.isInlineAsm()) {
            if (cb.getType()->isVoidTy()) { advanceAfterCall(s, &cb, nullptr); return; }
            throw Unsupported{"inline asm"};
        }
        const Function *f = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
        if (!f) {
            if (auto *ga = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) f = dyn_cast<Function>(ga->getAliaseeObject());
        }
        if (!f) {
            uint64_t a = concretize(s, op(s, cb.getCalledOperand()));
            auto it = fnAt.find(a);
            if (it == fnAt.end()) {
                report(s, "memory", "call through an invalid function pointer", s.asg);
                throw PathEnd{};
            }
            f = it->second;
        }
        if (f->isIntrinsic()) { intrinsic(s, cb, f); return; }
        StringRef name = f->getName();
        std::vector<Val> args;
        for (auto &a : cb.args()) args.push_back(a->getType()->isMetadataTy() ? Val{} : op(s, a));
        // environment redirection: calls to NAME go to __wrap_NAME when the harness defines it
        if (f->isDeclaration()) {
            if (auto *w = M->getFunction(("__wrap_" + name).str()); w && !w->isDeclaration()) { enter(s, w, args, &cb); return; }
            if (auto *w = M->getFunction(("__rt_" + name).str()); w && !w->isDeclaration()) { enter(s, w, args, &cb); return; }
            external(s, cb, name.str(), args);
            return;
        }
        if (name == "__clang_call_terminate") {
            report(s, "terminate", "exception escapes a noexcept function", s.asg);
            throw PathEnd{};
        }
        enter(s, f, args, &cb);
    }
    void ret(State &s, const CallBase &cb, const Val &v) { advanceAfterCall(s, &cb, &v); }
    void retVoid(State &s, const CallBase &cb) { advanceAfterCall(s, &cb, nullptr); }

    Val fitW(const Val &v, unsigned w) {
        return fromE(v.w == w ? toE(v) : v.w > w ? cx.mkExtract(toE(v), 0, w) : cx.mkZExt(toE(v), w));
    }

    void external(State &s, const CallBase &cb, const std::string &n, std::vector<Val> &a) {
        auto is = [&](std::initializer_list<const char *> l) { for (auto *x : l) if (n == x) return true; return false; };
        // ---- harness interface
        if (n == "symx_make") {
            uint64_t p = concretize(s, a[0]), sz = concretize(s, a[1]);
            std::string nm = cstr(s, concretize(s, a[2]));
            Obj o = resolve(s, p, sz, true, s.asg);
            MemObj &m = writable(s, o);
            auto mk = [&](const std::string &base, unsigned w) {
                unsigned k = s.symCount[base]++;
                std::string full = base + (k ? "#" + std::to_string(k) : "");
                auto it = symVars.find(full + ":" + std::to_string(w));
                E e = it != symVars.end() ? it->second : (symVars[full + ":" + std::to_string(w)] = cx.var(full, w));
                s.symOrder.push_back(e->aux);
                if (s.asg.size() <= e->aux) s.asg.resize(e->aux + 1, APInt(1, 0));
                s.asg[e->aux] = APInt(w, 0);
                return e;
            };
            if (sz <= 8) storeAt(m, p - m.addr, fromE(mk(nm, sz * 8)), sz * 8);
            else for (uint64_t i = 0; i < sz; i++) setByte(m, p - m.addr + i, mk(nm + "[" + std::to_string(i) + "]", 8));
            return retVoid(s, cb);
        }
        if (n == "symx_assume") {
            Val c = icmp(CmpInst::ICMP_NE, a[0], cv(a[0].w, 0));
            if (c.e) {
                E e = subst(s, c.e);
                if (e->isConst()) c = fromE(e);
                else {
                    Asg m;
                    if (!feasible(s, e, m)) { assumedAway++; throw PathEnd{}; }
                    s.asg = m;
                    addC(s, e);
                    return retVoid(s, cb);
                }
            }
            if (!c.c) { assumedAway++; throw PathEnd{}; }
            return retVoid(s, cb);
        }
        if (n == "symx_known_memory") { s.region = cstr(s, concretize(s, a[0])); return retVoid(s, cb); }
        if (n == "symx_assert" || n == "symx_known") {
            asserts++;
            std::string msg = cstr(s, concretize(s, a[1]));
            std::string known = n == "symx_known" ? cstr(s, concretize(s, a[2])) : "";
            Val c = icmp(CmpInst::ICMP_NE, a[0], cv(a[0].w, 0));
            if (c.e) {
                E e = subst(s, c.e);
                if (e->isConst()) c = fromE(e);
                else {
                    assertsSym++;
                    Asg m;
                    if (feasible(s, cx.isZeroBit(e), m)) {
                        report(s, "assert", msg, m, known);
                        if (!feasible(s, e, m)) throw PathEnd{};
                        s.asg = m;
                        addC(s, e);
                    } else s.known.emplace(e, APInt(1, 1));
                    return retVoid(s, cb);
                }
            }
            if (!c.c) { report(s, "assert", msg, s.asg, known); throw PathEnd{}; }
            return retVoid(s, cb);
        }
        if (n == "symx_cover") { covers[cstr(s, concretize(s, a[0]))]++; return retVoid(s, cb); }
        if (n == "symx_concrete") { uint64_t v = concretize(s, a[0]); return ret(s, cb, cv(64, v)); }
        if (n == "symx_param") {
            std::string k = cstr(s, concretize(s, a[0]));
            uint64_t d = concretize(s, a[1]);
            auto it = params.find(k);
            if (it == params.end()) params[k] = d; else d = it->second;
            return ret(s, cb, cv(64, d));
        }
        if (n == "symx_unsupported") throw Unsupported{"harness: " + cstr(s, concretize(s, a[0]))};
        if (n == "symx_debug") {
            SmallString<64> str;
            if (a[1].e) str = "<symbolic>"; else str = std::to_string(a[1].c);
            fprintf(stderr, "[debug] %s = %s\n", cstr(s, concretize(s, a[0])).c_str(), str.c_str());
            return retVoid(s, cb);
        }
        if (n == "symx_live_heap") { // number of live heap objects (leak / ownership checks)
            uint64_t k = 0;
            for (auto &[ad, o] : s.mem) if (o->kind == Kind::Heap && o->alive && strcmp(o->name, "exception")) k++;
            return ret(s, cb, cv(64, k));
        }
        // ---- allocation
        if (is({"_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "g_malloc"})) {
            uint64_t sz = concretize(s, a[0]);
            if (sz > (1ull << 28)) {
                if (n == "malloc" || n.find("nothrow") != std::string::npos) return ret(s, cb, cv(64, 0));
                throwStd(s, "_ZTISt9bad_alloc");
                return;
            }
            return ret(s, cb, cv(64, alloc(s, sz, Kind::Heap, 16, n == "malloc" ? "malloc" : n[2] == 'n' && n[3] == 'a' ? "new[]" : "new")));
        }
        if (n == "calloc") {
            uint64_t sz = concretize(s, a[0]) * concretize(s, a[1]);
            uint64_t p = alloc(s, sz, Kind::Heap, 16, "malloc");
            setMem(s, p, cv(8, 0), sz);
            return ret(s, cb, cv(64, p));
        }
        if (n == "realloc") {
            uint64_t p = concretize(s, a[0]), sz = concretize(s, a[1]);
            uint64_t q = alloc(s, sz, Kind::Heap, 16, "malloc");
            if (p) { uint64_t os = resolve(s, p, 1, false, s.asg)->size; copyMem(s, q, p, std::min(os, sz)); s.mem.find(p)->second = std::make_shared<MemObj>(*s.mem[p]); s.mem[p]->alive = false; }
            return ret(s, cb, cv(64, q));
        }
        if (n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0 || n == "free") {
            uint64_t p = concretize(s, a[0]);
            if (p) {
                auto it = s.mem.find(p);
                if (it == s.mem.end() || it->second->kind != Kind::Heap) { report(s, "memory", "free of an invalid pointer", s.asg); throw PathEnd{}; }
                if (!it->second->alive) { report(s, "memory", "double free", s.asg); throw PathEnd{}; }
                Obj o = it->second;
                MemObj &m = writable(s, o);
                m.alive = false;
            }
            return retVoid(s, cb);
        }
        // ---- memory / string
        if (is({"memcpy", "memmove", "mempcpy"})) {
            uint64_t len = concretize(s, a[2]);
            if (!len) return ret(s, cb, a[0]);
            uint64_t d = concretize(s, a[0]), sr = concretize(s, a[1]);
            copyMem(s, d, sr, len);
            return ret(s, cb, cv(64, n == "mempcpy" ? d + len : d));
        }
        if (n == "wmemcpy" || n == "wmemmove") {
            uint64_t len = concretize(s, a[2]), d = concretize(s, a[0]), sr = concretize(s, a[1]);
            copyMem(s, d, sr, len * 4);
            return ret(s, cb, cv(64, d));
        }
        if (n == "memset") {
            uint64_t len = concretize(s, a[2]), d = concretize(s, a[0]);
            setMem(s, d, fitW(a[1], 8), len);
            return ret(s, cb, cv(64, d));
        }
        if (n == "wmemset") {
            uint64_t len = concretize(s, a[2]), d = concretize(s, a[0]);
            for (uint64_t i = 0; i < len; i++) storeScalar(s, cv(64, d + 4 * i), a[1], 32);
            return ret(s, cb, cv(64, d));
        }
        if (is({"memcmp", "bcmp", "wmemcmp"})) {
            unsigned ew = n == "wmemcmp" ? 32 : 8;
            uint64_t len = concretize(s, a[2]), x = concretize(s, a[0]), y = concretize(s, a[1]);
            E r = cx.constant(32, 0);
            for (int64_t i = (int64_t)len - 1; i >= 0; i--) {
                E p = toE(loadScalar(s, cv(64, x + i * (ew / 8)), ew)), q = toE(loadScalar(s, cv(64, y + i * (ew / 8)), ew));
                E lt = ew == 32 ? cx.mkSlt(p, q) : cx.mkUlt(p, q);
                r = cx.mkIte(cx.mkEq(p, q), r, n == "bcmp" ? cx.constant(32, 1) : cx.mkIte(lt, cx.constant(APInt(32, (uint64_t)-1, true)), cx.constant(32, 1)));
            }
            return ret(s, cb, fromE(r));
        }
        if (n == "strlen" || n == "wcslen") {
            unsigned ew = n == "wcslen" ? 32 : 8;
            uint64_t p = concretize(s, a[0]), i = 0;
            for (;; i++) {
                Val c = loadScalar(s, cv(64, p + i * (ew / 8)), ew);
                if (truth(s, icmp(CmpInst::ICMP_EQ, c, cv(ew, 0)))) break;
            }
            return ret(s, cb, cv(64, i));
        }
        if (n == "memchr" || n == "wmemchr") {
            unsigned ew = n == "wmemchr" ? 32 : 8;
            uint64_t p = concretize(s, a[0]), len = concretize(s, a[2]);
            Val ch = fitW(a[1], ew);
            if (len && len <= 256 && wholly(s, p, len * (ew / 8))) { // one expression instead of a path for each position
                std::vector<Val> v;
                for (uint64_t i = 0; i < len; i++) v.push_back(loadScalar(s, cv(64, p + i * (ew / 8)), ew));
                Val r = cv(64, 0);
                for (uint64_t end = len; end > 0;) {
                    uint64_t i = end - 1;
                    if (ch.e) while (i > 0 && !v[i].e && !v[i - 1].e && v[i].c == v[i - 1].c + 1 && end - i < 250) i--;
                    if (end - i > 2) { // a run of consecutive values
                        E d = cx.mkSub(toE(ch), cx.constant(ew, v[i].c));
                        E at = cx.mkAdd(cx.mkMul(cx.mkZExt(d, 64), cx.constant(64, ew / 8)), cx.constant(64, p + i * (ew / 8)));
                        E in = cx.mkUlt(d, cx.constant(ew, end - i));
                        Asg m;
                        if (in->isConst() ? in->c.isOne() : feasible(s, in, m)) r = !in->isConst() && !feasible(s, cx.isZeroBit(in), m) ? fromE(at) : fromE(cx.mkIte(in, at, toE(r)));
                        end = i;
                        continue;
                    }
                    i = end - 1;
                    Val c = icmp(CmpInst::ICMP_EQ, v[i], ch);
                    if (!c.e) { if (c.c) r = cv(64, p + i * (ew / 8)); }
                    else r = fromE(cx.mkIte(c.e, cx.constant(64, p + i * (ew / 8)), toE(r)));
                    end = i;
                }
                return ret(s, cb, r);
            }
            for (uint64_t i = 0; i < len; i++) {
                Val c = loadScalar(s, cv(64, p + i * (ew / 8)), ew);
                if (truth(s, icmp(CmpInst::ICMP_EQ, c, ch))) return ret(s, cb, cv(64, p + i * (ew / 8)));
            }
            return ret(s, cb, cv(64, 0));
        }
        // ---- C++ ABI
        if (n == "__cxa_allocate_exception") return ret(s, cb, cv(64, alloc(s, concretize(s, a[0]), Kind::Heap, 16, "exception")));
        if (n == "__cxa_free_exception" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") {
            if (cb.getType()->isVoidTy()) return retVoid(s, cb);
            return ret(s, cb, cv(32, 0));
        }
        if (n == "__cxa_throw") { unwind(s, concretize(s, a[0]), concretize(s, a[1]), false); return; }
        if (n == "__cxa_begin_catch") {
            uint64_t p = concretize(s, a[0]);
            uint64_t ty = s.st.back().excType;
            s.caught.push_back({p, ty, false});
            return ret(s, cb, cv(64, p));
        }
        if (n == "__cxa_get_exception_ptr") return ret(s, cb, a[0]);
        if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return retVoid(s, cb); }
        if (n == "__cxa_rethrow") {
            if (s.caught.empty()) { report(s, "terminate", "rethrow without exception", s.asg); throw PathEnd{}; }
            auto c = s.caught.back();
            unwind(s, c.addr, c.type, false);
            return;
        }
        if (n == "__cxa_guard_acquire") {
            Val g = loadScalar(s, a[0], 8);
            return ret(s, cb, cv(32, g.c ? 0 : 1));
        }
        if (n == "__cxa_guard_release") { storeScalar(s, a[0], cv(8, 1), 8); return retVoid(s, cb); }
        if (n == "__cxa_guard_abort") return retVoid(s, cb);
        if (n == "__cxa_pure_virtual") { report(s, "terminate", "pure virtual call", s.asg); throw PathEnd{}; }
        if (n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
            report(s, "terminate", n == "abort" ? "abort called" : n == "_ZSt9terminatev" ? "std::terminate called" : "library assertion failed", s.asg);
            throw PathEnd{};
        }
        if (n == "exit" || n == "_exit") { report(s, "terminate", "exit called", s.asg); throw PathEnd{}; }
        if (n == "_ZSt20__throw_length_errorPKc") { throwStd(s, "_ZTISt12length_error"); return; }
        if (n == "_ZSt24__throw_out_of_range_fmtPKcz" || n == "_ZSt20__throw_out_of_rangePKc") { throwStd(s, "_ZTISt12out_of_range"); return; }
        if (n == "_ZSt19__throw_logic_errorPKc") { throwStd(s, "_ZTISt11logic_error"); return; }
        if (n == "_ZSt24__throw_invalid_argumentPKc") { throwStd(s, "_ZTISt16invalid_argument"); return; }
        if (n == "_ZSt21__throw_runtime_errorPKc") { throwStd(s, "_ZTISt13runtime_error"); return; }
        if (n == "_ZSt17__throw_bad_allocv") { throwStd(s, "_ZTISt9bad_alloc"); return; }
        if (n == "_ZSt28__throw_bad_array_new_lengthv") { throwStd(s, "_ZTISt20bad_array_new_length"); return; }
        if (n == "_ZSt25__throw_bad_function_callv") { throwStd(s, "_ZTISt17bad_function_call"); return; }
        if (n == "symx_throw_filesystem_error") { throwStd(s, "_ZTINSt10filesystem7__cxx1116filesystem_errorE"); return; }
        // destructors / no-op library calls on std exceptions and streams
        if (n.rfind("_ZNSt9exceptionD", 0) == 0 || n.rfind("_ZNSt8ios_base4Init", 0) == 0 || n.rfind("_ZNSt13runtime_errorD", 0) == 0 ||
            n.rfind("_ZNSt11logic_errorD", 0) == 0 || n.rfind("_ZNSt13runtime_errorC", 0) == 0 || n.rfind("_ZNSt11logic_errorC", 0) == 0 ||
            n.rfind("_ZNSt12out_of_rangeD", 0) == 0 || n.rfind("_ZNSt12length_errorD", 0) == 0 || n.rfind("_ZNSt16invalid_argumentC", 0) == 0 ||
            n.rfind("_ZNSt16invalid_argumentD", 0) == 0 || n.rfind("_ZNSt12out_of_rangeC", 0) == 0)
            return retVoid(s, cb);
        if (n == "_ZNKSt9exception4whatEv") return ret(s, cb, cv(64, 0));
        if (n == "_ZNSt3_V215system_categoryEv" || n == "_ZNSt3_V216generic_categoryEv") return ret(s, cb, cv(64, n.size() == 28 ? 0xE000 : 0xE100));
        // std::filesystem::path internals: component list is not used by the library
        if (n == "_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv") return retVoid(s, cb);
        if (n == "_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE") return retVoid(s, cb);
        if (n == "_ZNSt10filesystem7__cxx114path5_ListC1Ev" || n == "_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_") {
            storeScalar(s, a[0], cv(64, 0), 64);
            return retVoid(s, cb);
        }
        if (n == "_ZNSt10filesystem7__cxx114path5_ListaSERKS2_") return ret(s, cb, a[0]);
        // ---- math
        if (is({"floor", "floorf", "ceil", "ceilf", "trunc", "truncf", "rint", "nearbyint", "round", "roundf"})) {
            unsigned m = n[0] == 'f' ? 0 : n[0] == 'c' ? 1 : n[0] == 't' ? 2 : n[1] == 'o' ? 4 : 3;
            return ret(s, cb, fromE(cx.mkF1(Op::FRound, toE(a[0]), a[0].w, m)));
        }
        if (is({"fabs", "fabsf"})) return ret(s, cb, fromE(cx.mkAnd(toE(a[0]), cx.constant(~APInt::getSignMask(a[0].w)))));
        if (is({"pow", "fmod", "powf", "fmodf", "log", "log10", "exp"})) {
            for (auto &x : a) if (x.e) throw Unsupported{"symbolic " + n};
            bool fl = a[0].w == 32;
            auto g = [&](const Val &v) { if (fl) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return (double)f; } double d; memcpy(&d, &v.c, 8); return d; };
            double x = g(a[0]), y = a.size() > 1 ? g(a[1]) : 0, r;
            if (n[0] == 'p') r = fl ? powf(x, y) : pow(x, y);
            else if (n[0] == 'f') r = fmod(x, y);
            else if (n == "log") r = log(x);
            else if (n == "log10") r = log10(x);
            else r = exp(x);
            if (fl) { float f = r; uint32_t u; memcpy(&u, &f, 4); return ret(s, cb, cv(32, u)); }
            uint64_t u; memcpy(&u, &r, 8);
            return ret(s, cb, cv(64, u));
        }
        // ---- C locale character classification (ASCII)
        if (is({"tolower", "toupper", "towlower", "towupper"})) {
            bool lo = n.find("lower") != std::string::npos;
            E c = toE(a[0]);
            unsigned w = a[0].w;
            E in = lo ? cx.mkAnd(cx.mkUle(cx.constant(w, 'A'), c), cx.mkUle(c, cx.constant(w, 'Z')))
                      : cx.mkAnd(cx.mkUle(cx.constant(w, 'a'), c), cx.mkUle(c, cx.constant(w, 'z')));
            E d = lo ? cx.mkAdd(c, cx.constant(w, 32)) : cx.mkSub(c, cx.constant(w, 32));
            return ret(s, cb, fromE(cx.mkIte(in, d, c)));
        }
        if (is({"isdigit", "isspace", "isalpha", "isalnum", "isupper", "islower", "isxdigit"})) {
            E c = toE(a[0]);
            unsigned w = a[0].w;
            auto rg = [&](int l, int h) { return cx.mkAnd(cx.mkUle(cx.constant(w, l), c), cx.mkUle(c, cx.constant(w, h))); };
            E r;
            if (n == "isdigit") r = rg('0', '9');
            else if (n == "isspace") r = cx.mkOr(rg(9, 13), rg(32, 32));
            else if (n == "isupper") r = rg('A', 'Z');
            else if (n == "islower") r = rg('a', 'z');
            else if (n == "isalpha") r = cx.mkOr(rg('A', 'Z'), rg('a', 'z'));
            else if (n == "isxdigit") r = cx.mkOr(rg('0', '9'), cx.mkOr(rg('A', 'F'), rg('a', 'f')));
            else r = cx.mkOr(rg('0', '9'), cx.mkOr(rg('A', 'Z'), rg('a', 'z')));
            return ret(s, cb, fromE(cx.mkZExt(r, 32)));
        }
        if (is({"abs", "labs", "llabs"})) {
            E x = toE(a[0]);
            return ret(s, cb, fromE(cx.mkIte(subst(s, cx.mkSlt(x, cx.constant(a[0].w, 0))), cx.mkSub(cx.constant(a[0].w, 0), x), x)));
        }
        if (n == "__errno_location") {
            static const char *nm = "errno";
            for (auto &[ad, o] : s.mem) if (o->name == nm) return ret(s, cb, cv(64, ad));
            uint64_t p = alloc(s, 4, Kind::Heap, 16, "errno_");
            s.mem[p]->name = nm; s.mem[p]->kind = Kind::Extern;
            setMem(s, p, cv(8, 0), 4);
            return ret(s, cb, cv(64, p));
        }
        throw Unsupported{"external function " + n};
    }

    void intrinsic(State &s, const CallBase &cb, const Function *f) {
        auto id = f->getIntrinsicID();
        auto A = [&](unsigned i) { return op(s, cb.getArgOperand(i)); };
        switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore:
        case Intrinsic::var_annotation: case Intrinsic::assume: case Intrinsic::sideeffect:
            return retVoid(s, cb);
        case Intrinsic::invariant_start: case Intrinsic::stacksave: return ret(s, cb, cv(64, 0));
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect:
        case Intrinsic::expect_with_probability: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
        case Intrinsic::threadlocal_address:
            return ret(s, cb, A(0));
        case Intrinsic::is_constant: return ret(s, cb, cv(1, 0));
        case Intrinsic::objectsize: return ret(s, cb, cv(bits(cb.getType()), cast<ConstantInt>(cb.getArgOperand(1))->isOne() ? 0 : ~0ull));
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
            std::string what = "undefined behaviour (trap)";
            if (id == Intrinsic::ubsantrap) {
                static const char *names[] = {"add overflow", "builtin unreachable", "cfi", "divrem overflow / float cast", "dynamic type cache miss", "float cast overflow",
                    "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "load of invalid value", "missing return", "mul overflow",
                    "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds",
                    "sub overflow", "type mismatch", "alignment assumption", "vla bound"};
                uint64_t k = A(0).c;
                what = std::string("undefined behaviour: ") + (k < 25 ? names[k] : "?");
            }
            report(s, "ub", what, s.asg);
            throw PathEnd{};
        }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            uint64_t n = concretize(s, A(2));
            if (!n) return retVoid(s, cb);
            uint64_t d = concretize(s, A(0)), sr = concretize(s, A(1));
            copyMem(s, d, sr, n);
            return retVoid(s, cb);
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            uint64_t n = concretize(s, A(2));
            if (!n) return retVoid(s, cb);
            uint64_t d = concretize(s, A(0));
            setMem(s, d, A(1), n);
            return retVoid(s, cb);
        }
        case Intrinsic::eh_typeid_for: {
            auto *g = dyn_cast<GlobalVariable>(cb.getArgOperand(0)->stripPointerCasts());
            return ret(s, cb, cv(32, typeId(g ? g->getName().str() : "*")));
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
        case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            E x = toE(A(0)), y = toE(A(1));
            unsigned w = x->width;
            bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            bool sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
            unsigned ww = mul ? 2 * w : w + 1;
            E r, ov;
            if (mul && (x->isConst() || y->isConst()) && !(x->isConst() && y->isConst())) {
                // multiplication by a constant: compare against precomputed limits
                E v = x->isConst() ? y : x;
                const APInt &k = x->isConst() ? x->c : y->c;
                r = cx.mkMul(x, y);
                if (k.isZero() || k.isOne()) ov = cx.bit(false);
                else if (!sg) ov = cx.mkUlt(cx.constant(APInt::getMaxValue(w).udiv(k)), v);
                else if (k.isAllOnes()) ov = cx.mkEq(v, cx.constant(APInt::getSignedMinValue(w)));
                else {
                    APInt a = APInt::getSignedMaxValue(w).sdiv(k), b = APInt::getSignedMinValue(w).sdiv(k);
                    APInt hi = k.isNegative() ? b : a, lo = k.isNegative() ? a : b;
                    ov = cx.mkOr(cx.mkSlt(cx.constant(hi), v), cx.mkSlt(v, cx.constant(lo)));
                }
            } else {
                auto ext = [&](E e, unsigned n) { return sg ? cx.mkSExt(e, n) : cx.mkZExt(e, n); };
                E wx = ext(x, ww), wy = ext(y, ww);
                E full = mul ? cx.mkMul(wx, wy) : sub ? cx.mkSub(wx, wy) : cx.mkAdd(wx, wy);
                r = mul ? cx.mkMul(x, y) : sub ? cx.mkSub(x, y) : cx.mkAdd(x, y);
                if (!sg && sub) ov = cx.mkUlt(x, y);
                else ov = cx.isZeroBit(cx.mkEq(full, ext(r, ww)));
            }
            return ret(s, cb, aggv({fromE(r), fromE(ov)}));
        }
        case Intrinsic::usub_sat: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(cx.mkUlt(x, y), cx.constant(x->width, 0), cx.mkSub(x, y)))); }
        case Intrinsic::uadd_sat: { E x = toE(A(0)), y = toE(A(1)); E r = cx.mkAdd(x, y); return ret(s, cb, fromE(cx.mkIte(cx.mkUlt(r, x), cx.constant(APInt::getAllOnes(x->width)), r))); }
        case Intrinsic::umin: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(subst(s, cx.mkUlt(x, y)), x, y))); }
        case Intrinsic::umax: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(subst(s, cx.mkUlt(x, y)), y, x))); }
        case Intrinsic::smin: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(subst(s, cx.mkSlt(x, y)), x, y))); }
        case Intrinsic::smax: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(subst(s, cx.mkSlt(x, y)), y, x))); }
        case Intrinsic::abs: { E x = toE(A(0)); return ret(s, cb, fromE(cx.mkIte(subst(s, cx.mkSlt(x, cx.constant(x->width, 0))), cx.mkSub(cx.constant(x->width, 0), x), x))); }
        case Intrinsic::bswap: {
            E x = toE(A(0)), r = nullptr;
            for (unsigned i = 0; i < x->width; i += 8) { E b = cx.mkExtract(x, i, 8); r = r ? cx.mkConcat(r, b) : b; }
            return ret(s, cb, fromE(r));
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            E x = toE(A(0)), y = toE(A(1)), z = toE(A(2));
            unsigned w = x->width;
            E cat = cx.mkConcat(x, y);
            E sh = cx.mkZExt(cx.mkURem(z, cx.constant(w, w)), 2 * w);
            E r = id == Intrinsic::fshl ? cx.mkExtract(cx.mkShl(cat, sh), w, w) : cx.mkExtract(cx.mkLShr(cat, sh), 0, w);
            return ret(s, cb, fromE(r));
        }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            E x = toE(A(0));
            unsigned w = x->width;
            E r;
            if (id == Intrinsic::ctpop) {
                r = cx.constant(w, 0);
                for (unsigned i = 0; i < w; i++) r = cx.mkAdd(r, cx.mkZExt(cx.mkExtract(x, i, 1), w));
            } else {
                r = cx.constant(w, w);
                for (unsigned k = 0; k < w; k++) {
                    unsigned i = id == Intrinsic::ctlz ? k : w - 1 - k; // last assignment wins: ctlz highest bit, cttz lowest bit
                    r = cx.mkIte(cx.mkExtract(x, i, 1), cx.constant(w, id == Intrinsic::ctlz ? w - 1 - i : i), r);
                }
            }
            return ret(s, cb, fromE(r));
        }
        case Intrinsic::floor: return ret(s, cb, fromE(cx.mkF1(Op::FRound, toE(A(0)), A(0).w, 0)));
        case Intrinsic::ceil: return ret(s, cb, fromE(cx.mkF1(Op::FRound, toE(A(0)), A(0).w, 1)));
        case Intrinsic::trunc: return ret(s, cb, fromE(cx.mkF1(Op::FRound, toE(A(0)), A(0).w, 2)));
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return ret(s, cb, fromE(cx.mkF1(Op::FRound, toE(A(0)), A(0).w, 3)));
        case Intrinsic::round: return ret(s, cb, fromE(cx.mkF1(Op::FRound, toE(A(0)), A(0).w, 4)));
        case Intrinsic::fabs: return ret(s, cb, fromE(cx.mkAnd(toE(A(0)), cx.constant(~APInt::getSignMask(A(0).w)))));
        case Intrinsic::sqrt: return ret(s, cb, fromE(cx.mkF1(Op::FSqrt, toE(A(0)), A(0).w)));
        case Intrinsic::copysign: {
            E x = toE(A(0)), y = toE(A(1));
            unsigned w = x->width;
            return ret(s, cb, fromE(cx.mkConcat(cx.mkExtract(y, w - 1, 1), cx.mkExtract(x, 0, w - 1))));
        }
        case Intrinsic::fmuladd: return ret(s, cb, fromE(cx.mkF(Op::FAdd, cx.mkF(Op::FMul, toE(A(0)), toE(A(1))), toE(A(2)))));
        case Intrinsic::minnum: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(cx.mkF(Op::FLt, y, x), y, x))); }
        case Intrinsic::maxnum: { E x = toE(A(0)), y = toE(A(1)); return ret(s, cb, fromE(cx.mkIte(cx.mkF(Op::FLt, x, y), y, x))); }
        case Intrinsic::pow: case Intrinsic::powi: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: {
            std::vector<Val> a;
            for (unsigned i = 0; i < cb.arg_size(); i++) a.push_back(A(i));
            if (id == Intrinsic::powi) throw Unsupported{"powi"};
            external(s, cb, id == Intrinsic::pow ? "pow" : id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : "log10", a);
            return;
        }
        case Intrinsic::is_fpclass: {
            E x = toE(A(0));
            Ctx::Fix fx;
            if (!x->isConst() && cx.fix(x, fx)) { // finite
                if ((A(1).c & 0x1F8) == 0x1F8) return ret(s, cb, cv(1, 1));
                if ((A(1).c & 0x1F8) == 0) return ret(s, cb, cv(1, 0));
            }
            unsigned w = x->width, m = A(1).c, mant = w == 64 ? 52 : 23, ex = w - 1 - mant;
            E exf = cx.mkExtract(x, mant, ex), mf = cx.mkExtract(x, 0, mant), sg = cx.mkExtract(x, w - 1, 1), ns = cx.isZeroBit(sg);
            E eAll = cx.mkEq(exf, cx.constant(APInt::getAllOnes(ex))), e0 = cx.mkEq(exf, cx.constant(ex, 0)), m0 = cx.mkEq(mf, cx.constant(mant, 0)), q = cx.mkExtract(x, mant - 1, 1);
            E nan = cx.mkAnd(eAll, cx.isZeroBit(m0)), inf = cx.mkAnd(eAll, m0), zero = cx.mkAnd(e0, m0), subn = cx.mkAnd(e0, cx.isZeroBit(m0));
            E norm = cx.mkAnd(cx.isZeroBit(eAll), cx.isZeroBit(e0));
            E cls[10] = {cx.mkAnd(nan, cx.isZeroBit(q)), cx.mkAnd(nan, q), cx.mkAnd(inf, sg), cx.mkAnd(norm, sg), cx.mkAnd(subn, sg), cx.mkAnd(zero, sg),
                cx.mkAnd(zero, ns), cx.mkAnd(subn, ns), cx.mkAnd(norm, ns), cx.mkAnd(inf, ns)};
            E r = cx.bit(false);
            for (int i = 0; i < 10; i++) if (m >> i & 1) r = cx.mkOr(r, cls[i]);
            return ret(s, cb, fromE(r));
        }
        case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: throw Unsupported{"fpto*i.sat"};
        default: break;
        }
        if (f->getName().starts_with("llvm.va_")) throw Unsupported{"varargs"};
        throw Unsupported{"intrinsic " + f->getName().str()};
    }

    // ------------------------------------------------------------ output
    static std::string js(const std::string &x) {
        std::string r = "\"";
        for (unsigned char c : x) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    void output(const std::string &path) {
        std::ofstream o(path);
        o << "{\n \"entry\": " << js(entry) << ",\n \"params\": {";
        bool c = false;
        for (auto &p : params) { o << (c ? ", " : "") << js(p.first) << ": " << p.second; c = true; }
        o << "},\n \"paths\": " << paths << ", \"assumed_away\": " << assumedAway << ", \"forks\": " << forks << ", \"instructions\": " << insts
          << ",\n \"asserts\": " << asserts << ", \"asserts_symbolic\": " << assertsSym << ", \"symbolic_memory_checks\": " << memChecksSym
          << ",\n \"queries\": " << sol.st.queries << ", \"sat\": " << sol.st.sat << ", \"unsat\": " << sol.st.unsat << ", \"unknown\": " << sol.st.unknown
          << ", \"cache_hits\": " << sol.st.cacheHits << ", \"model_hits\": " << sol.st.modelHits << ", \"model_mismatch\": " << sol.modelMismatch
          << ",\n \"solver_s\": " << sol.st.solverTime << ", \"max_query_s\": " << sol.st.maxQuery << ", \"wall_s\": " << Solver::now() - t0
          << ",\n \"symbolic_variables\": " << cx.vars.size() << ", \"symbolic_bits\": ";
        uint64_t b = 0;
        for (auto &v : cx.vars) b += v.width;
        o << b << ",\n \"incomplete\": {";
        c = false;
        for (auto &p : incomplete) { o << (c ? ", " : "") << js(p.first) << ": " << p.second; c = true; }
        o << "},\n \"covers\": {";
        c = false;
        for (auto &p : covers) { o << (c ? ", " : "") << js(p.first) << ": " << p.second; c = true; }
        o << "},\n \"samples\": [";
        c = false;
        for (auto &p : samples) { o << (c ? ", " : "") << js(p); c = true; }
        o << "],\n \"functions\": [";
        std::set<std::string> fs;
        std::map<std::string, std::set<unsigned>> lines;
        for (auto *bb : bbSeen)
            for (auto &in : *bb)
                for (const DILocation *l = in.getDebugLoc(); l; l = l->getInlinedAt()) {
                    auto *sp = l->getScope()->getSubprogram();
                    if (!sp) continue;
                    std::string file = l->getFilename().str();
                    auto k = file.find("/cmp/");
                    if (k == std::string::npos) continue;
                    if (l->getLine()) lines[file.substr(k + 1)].insert(l->getLine());
                    std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
                    fs.insert((file.substr(k + 1) + ": " + n).substr(0, 160));
                }
        c = false;
        for (auto &p : fs) { o << (c ? ",\n  " : "\n  ") << js(p); c = true; }
        o << "],\n \"lines\": {";
        c = false;
        for (auto &p : lines) {
            o << (c ? ",\n  " : "\n  ") << js(p.first) << ": [";
            bool d = false;
            for (unsigned l : p.second) { o << (d ? "," : "") << l; d = true; }
            o << "]";
            c = true;
        }
        o << "},\n \"violations\": [";
        c = false;
        for (auto &v : viols) {
            o << (c ? ",\n  {" : "\n  {") << "\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"known\": " << js(v.known) << ", \"where\": " << js(v.where)
              << ", \"ce\": " << js(v.ce) << ", \"stack\": [";
            bool d = false;
            for (auto &x : v.stack) { o << (d ? ", " : "") << js(x); d = true; }
            o << "]}";
            c = true;
        }
        o << "]\n}\n";
    }
};

static int realMain(int argc, char **argv) {
    Exec ex;
    std::string bc, out = "/dev/stdout";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") ex.entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--ce-dir") ex.ceDir = nx();
        else if (a == "--suffix") ex.suffix = nx();
        else if (a == "--time") ex.timeLimit = std::stod(nx());
        else if (a == "--witnesses") ex.maxWitness = std::stoul(nx());
        else if (a == "--max-steps") ex.maxSteps = std::stoull(nx());
        else if (a == "--max-enum") ex.maxEnum = std::stoull(nx());
        else if (a == "--max-violations") ex.maxViol = std::stoull(nx());
        else if (a == "--query-timeout") ex.sol.hardTimeoutMs = std::stoul(nx());
        else if (a == "--param") {
            std::string p = nx();
            auto e = p.find('=');
            ex.params[p.substr(0, e)] = std::stoull(p.substr(e + 1));
        } else bc = a;
    }
    LLVMContext lc;
    SMDiagnostic err;
    ex.M = parseIRFile(bc, err, lc);
    if (!ex.M) { err.print("symx", errs()); return 3; }
    ex.DL = &ex.M->getDataLayout();
    ex.run();
    ex.output(out);
    fflush(stdout);
    _exit(0);
}

static int g_argc; static char **g_argv; static int g_rc;
int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_t th;
    pthread_create(&th, &at, [](void *) -> void * { g_rc = realMain(g_argc, g_argv); return nullptr; }, nullptr);
    pthread_join(th, nullptr);
    return g_rc;
}
