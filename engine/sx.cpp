// sx: bounded symbolic execution of LLVM IR, decided by Z3.
// Usage: sx FILE.bc --entry NAME [--entry NAME ...] --out OUT.json [options]
#include "expr.h"
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <unistd.h>
using namespace llvm;
using namespace sx;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val { X x = nullptr; std::shared_ptr<std::vector<Val>> a; };
struct Opnd { int slot = -1; Val k; std::shared_ptr<std::string> why; };
struct Ins { const Instruction* i; unsigned opc; int dst = -1; std::vector<Opnd> o; bool seen = false; uint8_t far = 0; };
struct Blk { std::vector<Ins> ins; bool join = false; std::vector<int> out; std::map<int, std::vector<int>> live; };
struct Fn { const Function* f; std::vector<Blk> b; std::vector<const BasicBlock*> bbs; DenseMap<const BasicBlock*, int> bi; int nslots = 0; int nargs = 0; bool liveDone = false; };

struct Cell { X e = nullptr; uint8_t i = 0; };
enum OK : uint8_t { O_GLOBAL, O_STACK, O_HEAP, O_BUF, O_EXC };
static const char* okname[] = {"global", "stack", "heap", "buffer", "exception"};
struct Obj { uint64_t base = 0, size = 0; X ssize = nullptr; OK kind = O_STACK; bool ro = false, sparse = false; uint8_t alloc = 0;
             unsigned es = 1; std::string name; std::vector<Cell> cells; std::map<uint64_t, X> sp; std::vector<std::pair<X, X>> sym; }; // sp, sym: the elements read so far at concrete and at symbolic indices
using Mem = std::map<uint64_t, std::shared_ptr<Obj>>;
using Model = Ctx::Model;

struct Frame { Fn* f; int bb = 0, pc = 0, pbb = -1; std::vector<Val> r; std::vector<uint64_t> al; };
struct Exc { uint64_t obj; uint64_t ti, dtor; int handlers;  bool again = false; };
struct Input { int kind; unsigned bits; X x; uint64_t es; uint64_t base; std::string name; };
struct State {
    std::vector<Frame> fr; Mem mem; std::vector<X> cons; std::shared_ptr<Model> model; std::map<uint32_t, X> sub; // variables fixed by cons
    std::vector<Input> in; std::vector<X> obs; uint64_t steps = 0, bump = 0x20000000ull, bumpHi = 0x100000000000ull;
    int64_t live = 0; uint64_t allocs = 0, failAt = 0; std::vector<Exc> excs; std::vector<int> caught; int cur = -1; // exception in flight
    std::vector<int> covers; unsigned depth = 0; unsigned asserts = 0;
};
struct Stop { std::string why; }; // path ends: error kinds below
struct Violation { std::string kind, msg; };
struct Unsupported { std::string msg; };
struct Kill {};

// ------------------------------------------------------------------ globals of the run
static std::unique_ptr<Module> M; static const DataLayout* DL; static Ctx C;
static std::map<const Function*, std::unique_ptr<Fn>> fns;
static std::map<const Function*, uint64_t> faddr; static std::map<uint64_t, const Function*> faddrR;
static std::map<const GlobalVariable*, uint64_t> gaddr; static std::map<uint64_t, const GlobalVariable*> gaddrR;
static Mem gmem;
static std::map<std::string, uint64_t> synthTI; static std::map<uint64_t, std::string> synthName;
struct Cfg { double pathSteps = 4e6; double timeBudget = 600; unsigned maxPaths = 1000000; unsigned qtimeout = 60000; unsigned maxViol = 2; unsigned witnesses = 24; std::string smt; unsigned smtMax = 200; uint64_t seed = 1; } cfg;
struct Stats { uint64_t paths = 0, killed = 0, forks = 0, instrs = 0, queries = 0, sat = 0, unsat = 0, unk = 0, linear = 0, cacheHit = 0, aTotal = 0, aFolded = 0, aSmt = 0, aConcreteOnPath = 0, regions = 0, merged = 0, maxCons = 0, bugChecks = 0; double solver = 0, wall = 0; } st;
static std::vector<std::string> unsup; static std::map<std::string, uint64_t> coverCount; static std::vector<std::string> coverNames;
struct V { std::string kind, msg, loc; std::string trace; std::string inputs; };
static std::vector<V> viols; static std::vector<std::string> wit; static uint64_t witSeen = 0; static uint64_t rng = 1;
static std::set<std::string> repoFns, repoLines; static std::vector<std::string> samples;
static double deadline;

static int coverId(const std::string& n) { for (size_t i = 0; i < coverNames.size(); ++i) if (coverNames[i] == n) return i; coverNames.push_back(n); return coverNames.size() - 1; }

// ------------------------------------------------------------------ solver
static Z3_solver solvers[2];
struct QR { int r; std::shared_ptr<std::vector<std::pair<uint32_t, APInt>>> m; };
static std::unordered_map<std::string, QR> qcache;
// The query up to renaming of its variables: the same text means the same answer. names[i] is the variable called i.
static std::string canonical(const std::vector<X>& q, std::vector<uint32_t>& names) {
    std::string out; std::unordered_map<X, uint32_t> num; std::unordered_map<uint32_t, uint32_t> vn;
    auto raw = [&](const void* p, size_t n) { out.append(static_cast<const char*>(p), n); };
    auto u = [&](uint64_t v) { raw(&v, sizeof v); }; auto ap = [&](const APInt& a) { raw(a.getRawData(), a.getNumWords() * 8); };
    auto go = [&](auto& self, X e) -> uint32_t {
        auto it = num.find(e); if (it != num.end()) return it->second;
        llvm::SmallVector<uint32_t, 4> os; for (auto o : e->ops) os.push_back(self(self, o));
        out.push_back(char(e->k)); u(e->w);
        if (e->k == VAR) { auto i = vn.emplace(e->off, names.size()); if (i.second) names.push_back(e->off); u(i.first->second); auto& vi = C.vars[e->off]; u(vi.lo); u(vi.hi); }
        else { u(e->off); if (e->k == CONST || e->k == SUM) ap(e->c); for (auto& c : e->co) ap(c); u(os.size()); for (auto o : os) raw(&o, 4); }
        uint32_t n = num.size(); num.emplace(e, n); return n; };
    for (auto x : q) { uint32_t n = go(go, x); out.push_back(char(255)); raw(&n, 4); }
    return out;
}
static unsigned smtCount = 0;

static void slice(const std::vector<X>& cons, X e, std::vector<X>& out) {
    std::vector<bool> use(C.vars.size(), false); for (auto v : *e->vars) use[v] = true;
    std::vector<bool> taken(cons.size(), false); bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < cons.size(); ++i) if (!taken[i]) {
            bool hit = false; for (auto v : *cons[i]->vars) if (use[v]) { hit = true; break; }
            if (hit) { taken[i] = true; out.push_back(cons[i]); for (auto v : *cons[i]->vars) if (!use[v]) { use[v] = true; ch = true; } } } }
}
static void dumpSmt(const std::vector<X>& q, const std::set<uint32_t>& vs, int r) {
    if (cfg.smt.empty() || smtCount >= cfg.smtMax) return;
    std::ofstream f(cfg.smt + "." + std::to_string(smtCount++) + ".smt2");
    f << "(set-logic QF_BV)\n(set-info :status " << (r == 0 ? "unsat" : "sat") << ")\n";
    for (auto v : vs) f << "(declare-const v" << v << " (_ BitVec " << C.vars[v].w << "))\n";
    for (auto v : vs) if (C.vars[v].ranged) { unsigned w = C.vars[v].w; f << "(assert (bvule (_ bv" << C.vars[v].lo << " " << w << ") v" << v << "))(assert (bvule v" << v << " (_ bv" << C.vars[v].hi << " " << w << ")))\n"; }
    for (auto e : q) f << "(assert " << Z3_ast_to_string(C.z3, C.zb(e)) << ")\n";
    f << "(check-sat)\n";
}
// e under what the path already says: variables it fixes, conditions it contains
struct Reducer {
    const std::map<uint32_t, X>& sub; const std::vector<X>* cons; std::unordered_map<X, X> memo;
    bool touches(X e) { for (auto v : *e->vars) if (sub.count(v)) return true; return false; }
    X go(X e) {
        if (e->isC()) return e;
        if (e->k == VAR) { auto it = sub.find(e->off); return it == sub.end() ? e : it->second; }
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        X r = e; bool bl = e->w == 1 && cons;
        if (bl) { X n = C.not_(e); for (auto c : *cons) { if (c == e) { memo[e] = C.T(); return C.T(); } if (c == n) { memo[e] = C.F(); return C.F(); } } }
        if ((bl && (e->k == AND || e->k == OR || e->k == XOR || e->k == ITE)) || touches(e)) {
            std::vector<X> o; bool ch = false; for (auto x : e->ops) { X y = go(x); ch |= y != x; o.push_back(y); }
            if (ch) { r = C.rebuild(e, o); if (bl && r != e && !r->isC()) { X n = C.not_(r); for (auto c : *cons) { if (c == r) { r = C.T(); break; } if (c == n) { r = C.F(); break; } } } } }
        memo[e] = r; return r; }
};
static X reduce(const State& s, X e) { if (e->isC()) return e; Reducer r{s.sub, &s.cons, {}}; return r.go(e); }
static void addCons(State& s, X e) {
    e = reduce(s, e); if (e->isC()) return; // true: it was feasible
    if (e->k == AND && e->w == 1) { X a = e->ops[0], b = e->ops[1]; addCons(s, a); addCons(s, b); return; }
    bool neg = C.isNot(e); X i = neg ? e->ops[0] : e;
    if (neg && i->k == OR) { X a = C.not_(i->ops[0]), b = C.not_(i->ops[1]); addCons(s, a); addCons(s, b); return; }
    X var = nullptr, val = nullptr;
    if (i->k == VAR) { var = i; val = C.b(!neg); } else if (!neg && i->k == EQ && i->ops[0]->k == VAR && i->ops[1]->isC()) { var = i->ops[0]; val = i->ops[1]; }
    if (!var) { s.cons.push_back(e); return; }
    s.sub[var->off] = val; std::vector<X> old; old.swap(s.cons); std::map<uint32_t, X> one{{var->off, val}};
    std::vector<X> again;
    for (auto c : old) { if (!std::binary_search(c->vars->begin(), c->vars->end(), var->off)) { s.cons.push_back(c); continue; } Reducer r{one, nullptr, {}}; again.push_back(r.go(c)); }
    for (auto c : again) addCons(s, c);
}
// 1 sat, 0 unsat; throws Unsupported when the solver gives up
static int query(const State& s, X e, std::shared_ptr<Model>* out, bool isAssert = false) {
    e = reduce(s, e);
    if (e->isC()) { if (e->is(0)) return 0; if (out) *out = s.model; return 1; }
    std::vector<X> q; slice(s.cons, e, q); q.push_back(e);
    std::vector<uint32_t> names; std::string key = canonical(q, names);
    auto it = qcache.find(key); QR res;
    if (it != qcache.end()) { ++st.cacheHit; res.r = it->second.r; if (it->second.m) { res.m = std::make_shared<std::vector<std::pair<uint32_t, APInt>>>(); for (auto& p : *it->second.m) res.m->push_back({names[p.first], p.second}); } }
    else {
        std::set<uint32_t> vs; for (auto x : q) vs.insert(x->vars->begin(), x->vars->end());
        double t0 = now(); ++st.queries;
        std::vector<Z3_ast> iq; for (auto x : q) { Z3_ast a = C.ib(x); if (!a) break; iq.push_back(a); }
        res.r = 2;
        for (int ints = iq.size() == q.size(); ints >= 0 && res.r == 2; --ints) { // linear integers where exact, else bit-vectors
            Z3_solver& Z = solvers[ints];
            if (!Z) { Z = Z3_mk_solver_for_logic(C.z3, Z3_mk_string_symbol(C.z3, ints ? "QF_LIA" : "QF_BV")); Z3_solver_inc_ref(C.z3, Z);
                Z3_params p = Z3_mk_params(C.z3); Z3_params_inc_ref(C.z3, p); Z3_params_set_uint(C.z3, p, Z3_mk_string_symbol(C.z3, "timeout"), ints ? 5000 : cfg.qtimeout); Z3_solver_set_params(C.z3, Z, p); }
            Z3_solver_push(C.z3, Z);
            if (ints) { for (auto a : iq) Z3_solver_assert(C.z3, Z, a);
                for (auto v : vs) { auto& vi = C.vars[v]; X e = vi.e; Z3_solver_assert(C.z3, Z, Z3_mk_le(C.z3, C.inum(APInt(64, e->lo), false), C.ivar(e))); if (e->w <= 64) Z3_solver_assert(C.z3, Z, Z3_mk_le(C.z3, C.ivar(e), C.inum(APInt(64, e->hi), false))); else Z3_solver_assert(C.z3, Z, Z3_mk_le(C.z3, C.ivar(e), C.inum(APInt::getMaxValue(e->w), false))); } }
            else { for (auto x : q) Z3_solver_assert(C.z3, Z, C.zb(x));
                for (auto v : vs) if (C.vars[v].ranged) { auto& vi = C.vars[v];
                    Z3_solver_assert(C.z3, Z, Z3_mk_bvule(C.z3, C.z(C.c(vi.w, vi.lo)), C.z(vi.e))); Z3_solver_assert(C.z3, Z, Z3_mk_bvule(C.z3, C.z(vi.e), C.z(C.c(vi.w, vi.hi)))); } }
            Z3_lbool r = Z3_solver_check(C.z3, Z);
            res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 2;
            if (res.r == 1) { res.m = std::make_shared<std::vector<std::pair<uint32_t, APInt>>>(); Model chk;
                Z3_model m = Z3_solver_get_model(C.z3, Z); Z3_model_inc_ref(C.z3, m);
                for (auto v : vs) { Z3_ast val; if (!Z3_model_eval(C.z3, m, ints ? C.ivar(C.vars[v].e) : C.z(C.vars[v].e), true, &val)) { res.r = 2; break; }
                    res.m->push_back({v, APInt(C.vars[v].w, Z3_get_numeral_string(C.z3, val), 10)}); chk[v] = res.m->back().second; }
                Z3_model_dec_ref(C.z3, m);
                if (res.r == 1) for (auto x : q) if (C.eval(x, chk) != 1) throw Unsupported{"a model does not satisfy its query"}; }
            Z3_solver_pop(C.z3, Z, 1);
            if (res.r != 2 && ints) ++st.linear; }
        st.solver += now() - t0;
        if (Z3_get_error_code(C.z3) != Z3_OK) res.r = 2;
        (res.r == 1 ? st.sat : res.r == 0 ? st.unsat : st.unk)++;
        static const bool dbg = getenv("SX_DEBUG"); if (dbg) { fprintf(stderr, "query r=%d err=%d\n", res.r, (int)Z3_get_error_code(C.z3)); for (auto x : q) fprintf(stderr, "   %s\n", show(x).c_str()); }
        static const bool dumpAll = getenv("SX_DUMPALL"); if ((isAssert || dumpAll) && res.r != 2) dumpSmt(q, vs, res.r);
        if (res.r != 2) { QR c = res; if (res.m) { std::map<uint32_t, uint32_t> inv; for (uint32_t i = 0; i < names.size(); ++i) inv[names[i]] = i; c.m = std::make_shared<std::vector<std::pair<uint32_t, APInt>>>(); for (auto& p : *res.m) c.m->push_back({inv.at(p.first), p.second}); } qcache[std::move(key)] = std::move(c); }
    }
    if (res.r == 2) throw Unsupported{"solver gave no answer"};
    if (res.r == 1 && out) { auto m = std::make_shared<Model>(*s.model); for (auto& p : *res.m) (*m)[p.first] = p.second; *out = m; }
    return res.r;
}

// ------------------------------------------------------------------ values
static unsigned undefN = 0;
static X undefVar(unsigned w) { return C.var("undef" + std::to_string(undefN++), w, true); }
static unsigned bits(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
    throw Unsupported{"type"};
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned nEl(Type* t) { if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* elTy(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static uint64_t elOff(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return i * DL->getTypeAllocSize(elTy(t, i)).getFixedValue(); }
static Val sv(X x) { Val v; v.x = x; return v; }
static Val undefOf(Type* t) { Val v; if (isAgg(t)) { v.a = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < nEl(t); ++i) v.a->push_back(undefOf(elTy(t, i))); } return v; }
static uint64_t funAddr(const Function* f) { return faddr.at(f); }
static Val constVal(const Constant* k);
static X constX(const Constant* k) { Val v = constVal(k); if (!v.x) return undefVar(bits(k->getType())); return v.x; }
static X gepConst(const GEPOperator* g) {
    X p = constX(cast<Constant>(g->getPointerOperand()));
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        X ix = constX(cast<Constant>(it.getOperand()));
        if (StructType* s = it.getStructTypeOrNull()) p = C.add(p, C.c(64, DL->getStructLayout(s)->getElementOffset(ix->u64())));
        else p = C.add(p, C.mulc(C.sext(ix, 64), APInt(64, DL->getTypeAllocSize(it.getIndexedType()).getFixedValue()))); }
    return p;
}
static Val constVal(const Constant* k) {
    if (auto* c = dyn_cast<ConstantInt>(k)) return sv(C.c(c->getValue()));
    if (auto* c = dyn_cast<ConstantFP>(k)) return sv(C.c(c->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(k)) return sv(C.c(64, 0));
    if (isa<UndefValue>(k)) return undefOf(k->getType()); // includes poison
    if (auto* g = dyn_cast<GlobalVariable>(k)) return sv(C.c(64, gaddr.at(g)));
    if (auto* f = dyn_cast<Function>(k)) return sv(C.c(64, funAddr(f)));
    if (auto* a = dyn_cast<GlobalAlias>(k)) return constVal(a->getAliasee());
    if (isAgg(k->getType())) { Val v; v.a = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < nEl(k->getType()); ++i) v.a->push_back(constVal(k->getAggregateElement(i))); return v; }
    if (auto* e = dyn_cast<ConstantExpr>(k)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: return sv(gepConst(cast<GEPOperator>(e)));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: { X x = constX(e->getOperand(0)); unsigned w = bits(e->getType()); return sv(w <= x->w ? C.extract(x, 0, w) : C.zext(x, w)); }
        case Instruction::Trunc: return sv(C.extract(constX(e->getOperand(0)), 0, bits(e->getType())));
        case Instruction::ZExt: return sv(C.zext(constX(e->getOperand(0)), bits(e->getType())));
        case Instruction::Add: return sv(C.add(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::Sub: return sv(C.sub(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::Xor: return sv(C.xor_(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::And: return sv(C.and_(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::Or: return sv(C.or_(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::Mul: return sv(C.mul(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::Shl: return sv(C.shl(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::LShr: return sv(C.lshr(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::AShr: return sv(C.ashr(constX(e->getOperand(0)), constX(e->getOperand(1))));
        case Instruction::SExt: return sv(C.sext(constX(e->getOperand(0)), bits(e->getType())));
        case Instruction::ICmp: { X a = constX(e->getOperand(0)), b = constX(e->getOperand(1));
            switch (e->getPredicate()) {
            case CmpInst::ICMP_EQ: return sv(C.eq(a, b)); case CmpInst::ICMP_NE: return sv(C.not_(C.eq(a, b)));
            case CmpInst::ICMP_ULT: return sv(C.ult(a, b)); case CmpInst::ICMP_UGE: return sv(C.not_(C.ult(a, b)));
            case CmpInst::ICMP_UGT: return sv(C.ult(b, a)); case CmpInst::ICMP_ULE: return sv(C.not_(C.ult(b, a)));
            case CmpInst::ICMP_SLT: return sv(C.slt(a, b)); case CmpInst::ICMP_SGE: return sv(C.not_(C.slt(a, b)));
            case CmpInst::ICMP_SGT: return sv(C.slt(b, a)); case CmpInst::ICMP_SLE: return sv(C.not_(C.slt(b, a)));
            default: break; }
            break; }
        case Instruction::Select: { X p = constX(e->getOperand(0)); if (p->isC()) return constVal(p->is(1) ? e->getOperand(1) : e->getOperand(2)); break; }
        default: break;
        }
        throw Unsupported{std::string("constant expression ") + e->getOpcodeName()};
    }
    throw Unsupported{"constant"};
}

// ------------------------------------------------------------------ functions
static Fn* getFn(const Function* f) {
    auto& p = fns[f]; if (p) return p.get();
    p = std::make_unique<Fn>(); Fn* F = p.get(); F->f = f; DenseMap<const Value*, int> slot; int n = 0;
    for (auto& a : f->args()) slot[&a] = n++;
    F->nargs = n;
    int bi = 0; for (auto& b : *f) { F->bbs.push_back(&b); F->bi[&b] = bi++; for (auto& i : b) if (!i.getType()->isVoidTy()) slot[&i] = n++; }
    F->nslots = n;
    for (auto& b : *f) { F->b.emplace_back(); auto& B = F->b.back();
        for (auto& i : b) { if (isa<DbgInfoIntrinsic>(i)) continue;
            Ins I; I.i = &i; I.opc = i.getOpcode(); if (!i.getType()->isVoidTy()) I.dst = slot[&i];
            for (auto& u : i.operands()) { Opnd o; const Value* v = u.get();
                if (auto* k = dyn_cast<Constant>(v)) { if (isa<CallBase>(i) && isa<Function>(k)) { o.k = sv(C.c(64, funAddr(cast<Function>(k)))); } else try { o.k = constVal(k); } catch (Unsupported& e) { o.slot = -3; o.why = std::make_shared<std::string>(e.msg); } }
                else if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) o.slot = -2;
                else o.slot = slot.lookup(v);
                I.o.push_back(o); }
            B.ins.push_back(std::move(I)); } }
    return F;
}
static X op(State& s, const Ins& I, unsigned n) {
    const Opnd& o = I.o[n];
    if (o.slot < -1) throw Unsupported{"operand: " + (o.why ? *o.why : "")};
    const Val& v = o.slot >= 0 ? s.fr.back().r[o.slot] : o.k;
    if (v.x) return v.x;
    if (v.a) throw Unsupported{"aggregate operand"};
    X u = undefVar(bits(I.i->getOperand(n)->getType()));
    if (o.slot >= 0) s.fr.back().r[o.slot].x = u;
    return u;
}
static const Val& opv(State& s, const Ins& I, unsigned n) { const Opnd& o = I.o[n]; if (o.slot < -1) throw Unsupported{"operand: " + (o.why ? *o.why : "")}; return o.slot >= 0 ? s.fr.back().r[o.slot] : o.k; }

// ------------------------------------------------------------------ forking
static void jump(State& s, const BasicBlock* to);
static std::vector<State> work;
static State& forkOff(const State& s, X c, std::shared_ptr<Model> m) { State t = s; addCons(t, c); t.model = m; ++t.depth; ++st.forks; work.push_back(std::move(t)); return work.back(); }
static APInt ev(const State& s, X e) { return e->isC() ? e->c : C.eval(e, *s.model); }

static bool hasUndef(X e) { for (auto v : *e->vars) if (C.vars[v].undef) return true; return false; }
static X substUndef(X e, std::unordered_map<X, X>& memo) {
    auto it = memo.find(e); if (it != memo.end()) return it->second; X r = e;
    if (hasUndef(e)) { auto& o = e->ops; auto S = [&](int i) { return substUndef(o[i], memo); };
        switch (e->k) {
        case VAR: r = undefVar(e->w); break;
        case SUM: r = C.c(e->c); for (size_t i = 0; i < o.size(); ++i) r = C.add(r, C.mulc(S(i), e->co[i])); break;
        case MUL: r = C.mul(S(0), S(1)); break; case UDIV: r = C.udiv(S(0), S(1)); break; case SDIV: r = C.sdiv(S(0), S(1)); break;
        case UREM: r = C.urem(S(0), S(1)); break; case SREM: r = C.srem(S(0), S(1)); break; case AND: r = C.and_(S(0), S(1)); break;
        case OR: r = C.or_(S(0), S(1)); break; case XOR: r = C.xor_(S(0), S(1)); break; case SHL: r = C.shl(S(0), S(1)); break;
        case LSHR: r = C.lshr(S(0), S(1)); break; case ASHR: r = C.ashr(S(0), S(1)); break; case EQ: r = C.eq(S(0), S(1)); break;
        case ULT: r = C.ult(S(0), S(1)); break; case SLT: r = C.slt(S(0), S(1)); break; case ITE: r = C.ite(S(0), S(1), S(2)); break;
        case CONCAT: r = C.concat(S(0), S(1)); break; case EXTRACT: r = C.extract(S(0), e->off, e->w); break;
        case ZEXT: r = C.zext(S(0), e->w); break; case SEXT: r = C.sext(S(0), e->w); break; default: break; } }
    return memo[e] = r;
}
static void checkDefined(State& s, X c, const char* what) {
    if (!hasUndef(c)) return;
    std::unordered_map<X, X> memo; X d = substUndef(c, memo); std::shared_ptr<Model> m;
    if (query(s, C.not_(C.eq(c, d)), &m)) { s.model = m; throw Violation{"uninitialised", std::string(what) + " depends on an uninitialised value"}; }
}
static uint64_t conc(State& s, X e) {
    if (e->isC()) return e->u64();
    checkDefined(s, e, "a size, pointer or loop bound");
    APInt v = ev(s, e); X c = C.eq(e, C.c(v)); X n = C.not_(c); std::shared_ptr<Model> m;
    if (query(s, n, &m)) { forkOff(s, n, m); addCons(s, c); ++s.depth; }
    return v.getZExtValue();
}
// a condition that must hold, or else it is a violation with the model that breaks it
static void must(State& s, X c, const char* kind, const std::string& msg) {
    ++st.bugChecks; if (c->is(1)) return;
    std::shared_ptr<Model> m; if (ev(s, c) != 1) throw Violation{kind, msg};
    if (query(s, C.not_(c), &m)) { s.model = m; throw Violation{kind, msg}; }
}

// ------------------------------------------------------------------ memory
static Obj* objAt(State& s, uint64_t a) { auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it; Obj* o = it->second.get(); return a <= o->base + o->size ? o : nullptr; }
static Obj* W(State& s, uint64_t base) { auto& p = s.mem.at(base); if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static uint64_t newObj(State& s, uint64_t size, OK kind, const std::string& name, bool sparse = false, unsigned align = 16) {
    auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->name = name; o->sparse = sparse;
    uint64_t& b = sparse ? s.bumpHi : s.bump; uint64_t al = std::max(16u, align); b = (b + al - 1) / al * al; o->base = b; b += size + 64 + (size > 4096 ? size / 8 : 0);
    if (!sparse) o->cells.resize(size);
    uint64_t base = o->base; s.mem.emplace(base, std::move(o)); return base;
}
static std::string describe(State& s, uint64_t a, unsigned n) {
    auto it = s.mem.upper_bound(a); std::string r = std::to_string(n) + " byte(s) at ";
    if (it != s.mem.begin()) { --it; Obj* o = it->second.get(); uint64_t sz = o->ssize ? ev(s, o->ssize).getZExtValue() : o->size;
        if (a < o->base + o->size + 64) return r + okname[o->kind] + " object" + (o->name.empty() ? "" : " " + o->name) + " (size " + std::to_string(sz) + ") offset " + std::to_string((int64_t)(a - o->base)); }
    if (it != s.mem.end() && it->first == a) ++it;
    return r + "address outside every live object";
}
// resolve an address to one object; forks when it may point elsewhere; offset returned
static Obj* resolve(State& s, X p, uint64_t n, X& off, bool write, const char* what) {
    ++st.bugChecks;
    if (!p->isC()) checkDefined(s, p, "an address");
    uint64_t a = ev(s, p).getZExtValue(); auto it = s.mem.upper_bound(a);
    Obj* o = nullptr; if (it != s.mem.begin()) { --it; o = it->second.get(); }
    uint64_t sz = o ? (o->ssize ? ev(s, o->ssize).getZExtValue() : o->size) : 0;
    if (!o || a < o->base || a - o->base > sz || n > sz - (a - o->base)) throw Violation{"memory", std::string(write ? "write" : "read") + " out of bounds: " + what + " " + describe(s, a, n)};
    off = C.sub(p, C.c(64, o->base));
    X size = o->ssize ? o->ssize : C.c(64, o->size);
    X ok = C.and_(C.ule(C.c(64, n), size), C.ule(off, C.sub(size, C.c(64, n))));
    if (!ok->is(1)) { X bad = C.not_(ok); std::shared_ptr<Model> m; if (query(s, bad, &m)) { forkOff(s, bad, m); addCons(s, ok); ++s.depth; } }
    if (write && o->ro) throw Violation{"write-to-constant", std::string("write to ") + (o->kind == O_GLOBAL ? "global state " : "the input ") + o->name};
    return o;
}
static X bytesOf(X e) { return e->w % 8 ? C.zext(e, (e->w + 7) / 8 * 8) : e; }
static X cellByte(const Cell& c) { return C.extract(c.e, 8 * c.i, 8); }
static X loadConst(State& s, Obj* o, uint64_t off, unsigned n) { // n bytes, concrete offset
    if (o->sparse) {
        uint64_t el = off / o->es, in = off % o->es; X r = nullptr; unsigned got = 0;
        while (got < n) { unsigned t = std::min<uint64_t>(o->es - in, n - got); auto it = o->sp.find(el);
            if (it == o->sp.end()) { Obj* w = W(s, o->base); o = w; X v = C.var(w->name + "[" + std::to_string(el) + "]", w->es * 8); for (auto& y : w->sym) v = C.ite(C.eq(y.first, C.c(64, el)), y.second, v); w->sp[el] = v; it = w->sp.find(el); }
            X p = C.extract(it->second, 8 * in, 8 * t); r = r ? C.concat(p, r) : p; got += t; ++el; in = 0; }
        return r;
    }
    Cell* c = &o->cells[off];
    if (c->e && c->i == 0 && c->e->w >= 8 * n) { bool ok = true; for (unsigned k = 1; k < n; ++k) if (c[k].e != c->e || c[k].i != k) { ok = false; break; } if (ok) return C.extract(c->e, 0, 8 * n); }
    bool anyU = false; for (unsigned k = 0; k < n; ++k) if (!c[k].e) anyU = true;
    if (anyU) { bool all = true; for (unsigned k = 0; k < n; ++k) if (c[k].e) all = false;
        if (all) return nullptr; // wholly uninitialised
        Obj* w = W(s, o->base); c = &w->cells[off]; for (unsigned k = 0; k < n; ++k) if (!c[k].e) { c[k].e = undefVar(8); c[k].i = 0; } }
    X r = nullptr; for (unsigned k = 0; k < n;) { unsigned t = 1; while (k + t < n && c[k + t].e == c[k].e && c[k + t].i == c[k].i + t) ++t;
        X p = C.extract(c[k].e, 8 * c[k].i, 8 * t); r = r ? C.concat(p, r) : p; k += t; }
    return r;
}
static void storeConst(Obj* o, uint64_t off, X v) { unsigned n = v->w / 8; for (unsigned k = 0; k < n; ++k) { o->cells[off + k].e = v; o->cells[off + k].i = k; } }
static void offsets(X off, uint64_t limit, std::vector<uint64_t>& out) { // possible concrete values of off below limit
    uint64_t base = off->lo, stride = 1, hi = std::min(off->hi, limit);
    if (off->k == SUM) { APInt g(64, 0); for (auto& k : off->co) { APInt a = k.abs(); g = g == 0 ? a : APIntOps::GreatestCommonDivisor(g, a); } stride = g.getZExtValue(); if (!stride) stride = 1;
        uint64_t c = off->c.getZExtValue(); if (!APInt(64, stride).isPowerOf2() && off->lo == 0 && off->hi == ~0ull) stride = 1;
        uint64_t r = c % stride; if (base % stride != r) base += (r + stride - base % stride) % stride; }
    for (uint64_t k = base; k <= hi; k += stride) { out.push_back(k); if (out.size() > 70000) throw Unsupported{"symbolic offset into a large object"}; }
}
// an element of the read-only input at a symbolic index: a fresh value, equal to what any equal index gave
static X loadSym(State& s, Obj* o, X off, unsigned n) {
    X es = C.c(64, o->es), idx = C.udiv(off, es), in = C.urem(off, es); if (o->es == 1) { idx = off; in = C.c(64, 0); }
    uint64_t k = ev(s, in).getZExtValue(); if (n > o->es - k) throw Unsupported{"symbolic offset across elements of a sparse buffer"};
    X q = C.eq(in, C.c(64, k)); if (!q->is(1) && query(s, C.not_(q), nullptr)) throw Unsupported{"symbolic offset within an element of a sparse buffer"};
    o = W(s, o->base); X v = nullptr; for (auto& y : o->sym) if (y.first == idx) v = y.second;
    if (!v) { v = C.var(o->name + "[@" + std::to_string(o->sym.size()) + "]", o->es * 8);
        for (auto& y : o->sp) v = C.ite(C.eq(idx, C.c(64, y.first)), y.second, v);
        for (auto& y : o->sym) v = C.ite(C.eq(idx, y.first), y.second, v);
        o->sym.push_back({idx, v}); }
    return C.extract(v, 8 * k, 8 * n);
}
static X loadN(State& s, X p, unsigned n) {
    X off; Obj* o = resolve(s, p, n, off, false, "load");
    if (off->isC()) return loadConst(s, o, off->u64(), n);
    std::vector<uint64_t> c; if (o->sparse) return loadSym(s, o, off, n);
    offsets(off, o->size - n, c); X r = nullptr;
    uint64_t base = o->base;
    for (auto k = c.rbegin(); k != c.rend(); ++k) { o = s.mem.at(base).get(); X v = loadConst(s, o, *k, n); if (!v) v = undefVar(8 * n); r = r ? C.ite(C.eq(off, C.c(64, *k)), v, r) : v; }
    if (!r) throw Unsupported{"empty offset set"};
    return r;
}
static void storeN(State& s, X p, X v) {
    unsigned n = v->w / 8; X off; Obj* o = resolve(s, p, n, off, true, "store"); o = W(s, o->base);
    if (o->sparse) throw Unsupported{"store to sparse buffer"};
    if (off->isC()) return storeConst(o, off->u64(), v);
    std::vector<uint64_t> c; offsets(off, o->size - n, c);
    for (auto k : c) { X old = loadConst(s, o, k, n); o = s.mem.at(o->base).get(); if (!old) old = undefVar(8 * n); storeConst(o, k, C.ite(C.eq(off, C.c(64, k)), v, old)); }
}
static Val loadT(State& s, X p, Type* t) {
    if (isAgg(t)) { Val v; v.a = std::make_shared<std::vector<Val>>(); if (t->isVectorTy() && bits(elTy(t, 0)) % 8) throw Unsupported{"bit vector load"};
        for (unsigned i = 0; i < nEl(t); ++i) v.a->push_back(loadT(s, C.add(p, C.c(64, elOff(t, i))), elTy(t, i))); return v; }
    unsigned w = bits(t); unsigned n = (w + 7) / 8; X x = loadN(s, p, n); Val v; if (x) v.x = C.extract(x, 0, w); return v;
}
static void storeT(State& s, X p, const Val& v, Type* t) {
    if (isAgg(t)) { if (t->isVectorTy() && bits(elTy(t, 0)) % 8) throw Unsupported{"bit vector store"};
        for (unsigned i = 0; i < nEl(t); ++i) storeT(s, C.add(p, C.c(64, elOff(t, i))), (*v.a)[i], elTy(t, i)); return; }
    unsigned n = (bits(t) + 7) / 8;
    if (!v.x) { // undefined: forget what was there
        X off; Obj* o = resolve(s, p, n, off, true, "store"); if (off->isC() && !o->sparse) { o = W(s, o->base); for (unsigned k = 0; k < n; ++k) o->cells[off->u64() + k] = Cell{}; return; }
        storeN(s, p, undefVar(8 * n)); return; }
    storeN(s, p, bytesOf(v.x));
}
static void initGlobal(Obj* o, uint64_t off, const Constant* k) {
    if (isa<UndefValue>(k)) return; Type* t = k->getType();
    if (isa<ConstantAggregateZero>(k) || (isAgg(t) && k->isNullValue())) { uint64_t n = DL->getTypeAllocSize(t); X z = C.c(8, 0); for (uint64_t i = 0; i < n; ++i) { o->cells[off + i].e = z; o->cells[off + i].i = 0; } return; }
    if (isAgg(t)) { if (isa<StructType>(t)) { uint64_t n = DL->getTypeAllocSize(t); X z = C.c(8, 0); for (uint64_t i = 0; i < n; ++i) { o->cells[off + i].e = z; o->cells[off + i].i = 0; } }
        for (unsigned i = 0; i < nEl(t); ++i) initGlobal(o, off + elOff(t, i), k->getAggregateElement(i)); return; }
    Val v = constVal(k); if (v.x) storeConst(o, off, bytesOf(v.x));
}
static std::string readStr(State& s, X p) { // concrete NUL-terminated string for messages
    std::string r; if (!p->isC()) return "?"; uint64_t a = p->u64(); Obj* o = objAt(s, a); if (!o) return "?";
    for (uint64_t i = a - o->base; i < o->size; ++i) { auto& c = o->cells[i]; if (!c.e || !c.e->isC()) return r; uint64_t b = cellByte(c)->u64(); if (!b) return r; r += (char)b; } return r; }

// ------------------------------------------------------------------ reporting
static std::string js(const std::string& s) { std::string r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string hex(const APInt& v) { SmallString<40> t; v.toString(t, 16, false); return std::string(t.str()); }
static std::string caseText(State& s, const std::string& entry, bool obs) {
    std::ostringstream o; o << "case " << entry << "\n";
    for (auto& i : s.in) {
        if (i.kind == 0) o << "i " << hex(ev(s, i.x)) << " " << i.name << "\n";
        else { uint64_t n = ev(s, i.x).getZExtValue(); o << "b " << std::hex << n << std::dec << " " << i.es << " " << i.name; Obj* b = nullptr;
            auto it = s.mem.find(i.base); if (it != s.mem.end()) b = it->second.get();
            // element variables are named "<name>[k]"
            if (b) for (auto& e : b->sp) if (e.first < n) o << " " << std::hex << e.first << ":" << hex(ev(s, e.second)) << std::dec;
            if (b) for (auto& e : b->sym) { uint64_t k = ev(s, e.first).getZExtValue(); if (k < n) o << " " << std::hex << k << ":" << hex(ev(s, e.second)) << std::dec; }
            o << "\n"; } }
    if (obs) { o << "o"; for (auto x : s.obs) o << " " << hex(ev(s, x)); o << "\n"; }
    o << "end\n"; return o.str();
}
static std::string locOf(const Instruction* i) {
    if (auto& d = i->getDebugLoc()) { const DILocation* l = d.get(); std::string f = l->getFilename().str(); auto p = f.find("k3/tok3n/"); if (p != std::string::npos) f = f.substr(p); return f + ":" + std::to_string(l->getLine()); } return "?"; }
static std::string traceOf(State& s) {
    std::string r; int n = 0;
    for (auto f = s.fr.rbegin(); f != s.fr.rend() && n < 12; ++f) { if (f->pc >= (int)f->f->b[f->bb].ins.size()) continue; const Instruction* i = f->f->b[f->bb].ins[f->pc].i;
        for (const DILocation* l = i->getDebugLoc().get(); l && n < 12; l = l->getInlinedAt(), ++n) { std::string fn = l->getFilename().str(); auto p = fn.find("k3/tok3n/"); if (p != std::string::npos) fn = fn.substr(p);
            std::string nm; if (auto* sp = l->getScope()->getSubprogram()) nm = sp->getName().str(); r += fn + ":" + std::to_string(l->getLine()) + " " + nm.substr(0, 60) + " < "; } }
    return r;
}
static void noteLoc(const Instruction* i) {
    for (const DILocation* l = i->getDebugLoc().get(); l; l = l->getInlinedAt()) {
        StringRef f = l->getFilename(); if (auto p = f.find("k3/tok3n/"); p != StringRef::npos || (p = f.find("examples/")) != StringRef::npos) {
            std::string ff = f.substr(p).str(); repoLines.insert(ff + ":" + std::to_string(l->getLine()));
            if (auto* sp = l->getScope()->getSubprogram()) repoFns.insert(ff + ":" + sp->getName().split('<').first.str()); } }
}
static std::string curEntry;

// ------------------------------------------------------------------ calls
static void setDst(State& s, const Ins& I, Val v) { if (I.dst >= 0) s.fr.back().r[I.dst] = std::move(v); }
static void jump(State& s, const BasicBlock* to) {
    Frame& f = s.fr.back(); int from = f.bb, t = f.f->bi.lookup(to); auto& B = f.f->b[t]; unsigned n = 0;
    std::vector<std::pair<int, Val>> ph; const BasicBlock* fb = f.f->bbs[from];
    for (; n < B.ins.size() && B.ins[n].opc == Instruction::PHI; ++n) { auto& I = B.ins[n]; auto* p = cast<PHINode>(I.i); int ix = p->getBasicBlockIndex(fb); ph.push_back({I.dst, opv(s, I, ix)}); }
    for (auto& x : ph) f.r[x.first] = std::move(x.second);
    f.pbb = from; f.bb = t; f.pc = n;
}
static void popFrame(State& s) { for (auto a : s.fr.back().al) s.mem.erase(a); s.fr.pop_back(); }
static void ret(State& s, const Val* v) {
    Val rv; if (v) rv = *v; popFrame(s); if (s.fr.empty()) return;
    Frame& f = s.fr.back(); Ins& I = f.f->b[f.bb].ins[f.pc];
    if (I.i->getType()->isVoidTy() == false && v && I.dst >= 0 && isa<CallBase>(I.i)) f.r[I.dst] = std::move(rv);
    if (auto* iv = dyn_cast<InvokeInst>(I.i)) jump(s, iv->getNormalDest()); else ++f.pc;
}
static void finishCall(State& s, const Ins& I) { if (auto* iv = dyn_cast<InvokeInst>(I.i)) jump(s, iv->getNormalDest()); else ++s.fr.back().pc; }
static void enter(State& s, const Function* f, std::vector<Val> args) {
    if (s.fr.size() > 20000) throw Violation{"recursion", "unbounded recursion"};
    Fn* F = getFn(f); Frame fr; fr.f = F; fr.r.resize(F->nslots); for (size_t i = 0; i < args.size() && (int)i < F->nargs; ++i) fr.r[i] = std::move(args[i]);
    // byval arguments get their own copy
    for (auto& a : f->args()) if (a.hasByValAttr()) { uint64_t n = DL->getTypeAllocSize(a.getParamByValType()); uint64_t b = newObj(s, n, O_STACK, "byval"); fr.al.push_back(b); X src = fr.r[a.getArgNo()].x;
        X off; Obj* o = resolve(s, src, n, off, false, "byval"); uint64_t k = conc(s, off); std::vector<Cell> c(o->cells.begin() + k, o->cells.begin() + k + n); W(s, b)->cells = c; fr.r[a.getArgNo()] = sv(C.c(64, b)); }
    s.fr.push_back(std::move(fr));
}
static uint64_t tiParent(uint64_t ti) { auto it = gaddrR.find(ti); if (it == gaddrR.end() || !it->second->hasInitializer()) return 0; auto* cs = dyn_cast<ConstantStruct>(it->second->getInitializer()); if (!cs || cs->getNumOperands() < 3) return 0; if (!cs->getOperand(2)->getType()->isPointerTy()) return 0; return constX(cs->getOperand(2))->u64(); }
static bool tiMatch(uint64_t t, uint64_t want) { static const std::set<std::string> stdexc = {"_ZTISt9exception"};
    for (int k = 0; t && k < 20; ++k, t = tiParent(t)) if (t == want) return true;
    // library exceptions thrown out of line derive from std::exception
    auto it = gaddrR.find(want); return it != gaddrR.end() && it->second->getName() == "_ZTISt9exception" && synthName.count(t); }
static uint64_t synth(const std::string& n) { for (auto& g : gaddr) if (g.first->getName() == n) return g.second; auto& a = synthTI[n]; if (!a) { a = 0x8000000 + 64 * synthTI.size(); synthName[a] = n; } return a; }
static void unwind(State& s) { // exception s.cur in flight: find the first landing pad
    for (;;) {
        if (s.fr.empty()) throw Violation{"exception", "an exception leaves the harness"};
        Frame& f = s.fr.back(); Ins& I = f.f->b[f.bb].ins[f.pc];
        if (auto* iv = dyn_cast<InvokeInst>(I.i)) {
            auto* lp = iv->getLandingPadInst(); bool take = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses() && !take; ++k) if (lp->isCatch(k)) { const Constant* c = lp->getClause(k); if (isa<ConstantPointerNull>(c) || tiMatch(s.excs[s.cur].ti, constX(c)->u64())) take = true; }
            if (take) { jump(s, iv->getUnwindDest()); return; } }
        else if (auto* cb = dyn_cast<CallBase>(I.i)) { if (cb->doesNotThrow() && !isa<IntrinsicInst>(cb)) throw Violation{"terminate", "an exception leaves a function that may not throw"}; }
        if (f.f->f->doesNotThrow()) throw Violation{"terminate", "an exception leaves a noexcept function"};
        popFrame(s);
    }
}
static void throwExc(State& s, uint64_t obj, uint64_t ti, uint64_t dtor) { s.excs.push_back({obj, ti, dtor, 0}); s.cur = s.excs.size() - 1; unwind(s); }

static X heapNew(State& s, const Ins& I, unsigned a, uint8_t kind, unsigned align = 16) { uint64_t n = conc(s, op(s, I, a)); if (n > (1u << 30)) throw Violation{"allocation", "allocation of " + std::to_string(n) + " bytes"};
    uint64_t b = newObj(s, n, O_HEAP, "", false, align); s.mem[b]->alloc = kind; ++s.live; ++s.allocs; return C.c(64, b); }
static void heapFree(State& s, X p, uint8_t kind) { uint64_t a = conc(s, p); if (!a) return; auto it = s.mem.find(a);
    if (it == s.mem.end() || it->second->kind != O_HEAP) throw Violation{"memory", "free of something that is not a live heap allocation (double free?)"};
    if (it->second->alloc != kind) throw Violation{"memory", "allocation and deallocation functions do not match"};
    s.mem.erase(it); --s.live; }
static void copyBytes(State& s, X d, X p, uint64_t n, bool move) {
    if (!n) return; X so, dof; Obj* a = resolve(s, p, n, so, false, "memory copy"); Obj* b = resolve(s, d, n, dof, true, "memory copy");
    uint64_t ab = a->base, bb = b->base;
    if (so->isC() && dof->isC() && !a->sparse) {
        uint64_t x = so->u64(), y = dof->u64(); Obj* w = W(s, bb); a = s.mem.at(ab).get();
        if (ab != bb) std::copy(a->cells.begin() + x, a->cells.begin() + x + n, w->cells.begin() + y);
        else { if (!move && x != y && x < y + n && y < x + n) throw Violation{"memory", "overlapping memcpy"}; std::vector<Cell> t(w->cells.begin() + x, w->cells.begin() + x + n); std::copy(t.begin(), t.end(), w->cells.begin() + y); }
        return; }
    std::vector<X> t; for (uint64_t k = 0; k < n; ++k) { X v = loadN(s, C.add(p, C.c(64, k)), 1); t.push_back(v ? v : undefVar(8)); }
    for (uint64_t k = 0; k < n; ++k) storeN(s, C.add(d, C.c(64, k)), t[k]);
}
static void assume(State& s, X c) { // assume
    if (c->is(1)) return; if (c->is(0)) throw Kill{};
    if (ev(s, c) == 1) { addCons(s, c); return; }
    std::shared_ptr<Model> m; if (!query(s, c, &m)) throw Kill{}; s.model = m; addCons(s, c);
}
static void doAssert(State& s, X c, const std::string& msg) {
    if (c->w != 1) c = C.not_(C.eq(c, C.c(c->w, 0)));
    ++st.aTotal; ++s.asserts;
    if (c->is(1)) { ++st.aFolded; return; }
    if (c->is(0)) throw Violation{"assert", msg};
    checkDefined(s, c, "an asserted value");
    std::shared_ptr<Model> m;
    if (ev(s, c) != 1) throw Violation{"assert", msg};
    if (query(s, C.not_(c), &m, true)) { s.model = m; throw Violation{"assert", msg}; }
    ++st.aSmt;
}

// returns true if handled (and the pc advanced or control transferred)
static bool native(State& s, const Ins& I, StringRef n, const CallBase* cb) {
    auto A = [&](unsigned k) { return op(s, I, k); };
    auto done = [&](X r = nullptr) { if (I.dst >= 0 && r) setDst(s, I, sv(r)); finishCall(s, I); return true; };
    if (n.starts_with("sx_")) {
        if (n == "sx_sym" || n == "sx_range") { std::string nm = readStr(s, A(0)); X x;
            if (n == "sx_sym") { unsigned w = A(1)->u64(); x = C.var(nm, w); s.in.push_back({0, w, x, 0, 0, nm}); return done(C.zext(x, 64)); }
            uint64_t lo = conc(s, A(1)), hi = conc(s, A(2)); if (lo > hi) throw Kill{}; if (lo == hi) x = C.c(64, lo); else x = C.var(nm, 64, lo, hi); s.in.push_back({0, 64, x, 0, 0, nm}); return done(x); }
        if (n == "sx_buf") { std::string nm = readStr(s, A(0)); X cnt = A(1); uint64_t mx = conc(s, A(2)), es = conc(s, A(3));
            bool sparse = mx * es > (1u << 20); uint64_t b = newObj(s, mx * es, O_BUF, nm, sparse, 16); Obj* o = s.mem.at(b).get(); o->es = es; o->ssize = C.mulc(cnt, APInt(64, es)); o->ro = true;
            must(s, C.ule(cnt, C.c(64, mx)), "harness", "buffer larger than its bound");
            if (!sparse) for (uint64_t k = 0; k < mx; ++k) { X v = C.var(nm + "[" + std::to_string(k) + "]", es * 8); o->sp[k] = v; storeConst(o, k * es, v); }
            s.in.push_back({1, 0, cnt, es, b, nm}); return done(C.c(64, b)); }
        if (n == "sx_assume") { X c = A(0); if (c->w != 1) c = C.not_(C.eq(c, C.c(c->w, 0))); assume(s, c); return done(); }
        if (n == "sx_assert") { doAssert(s, A(0), readStr(s, A(1))); return done(); }
        if (n == "sx_cover") { s.covers.push_back(coverId(readStr(s, A(0)))); return done(); }
        if (n == "sx_observe") { X x = A(0); checkDefined(s, x, "an observed value"); s.obs.push_back(x); return done(); }
        if (n == "sx_fork") { uint64_t v = conc(s, A(0)); return done(C.c(64, v)); }
        if (n == "sx_heap_live") return done(C.c(64, s.live));
        if (n == "sx_alloc_fail") { uint64_t was = s.failAt; s.failAt = conc(s, A(0)); return done(C.c(64, was)); }
        if (n == "sx_allocs") return done(C.c(64, s.allocs));
        if (n == "sx_readonly") { uint64_t a = conc(s, A(0)); W(s, objAt(s, a)->base)->ro = true; return done(); }
        if (n == "sx_writable") { uint64_t a = conc(s, A(0)); W(s, objAt(s, a)->base)->ro = false; return done(); }
        if (n == "sx_is_heap") { uint64_t a = conc(s, A(0)); Obj* o = objAt(s, a); return done(C.c(32, o && o->kind == O_HEAP)); }
    }
    if (n == "memcmp" || n == "bcmp" || n == "wmemcmp") { unsigned es = n == "wmemcmp" ? 4 : 1; uint64_t k = conc(s, A(2)); X r = C.c(32, 0); if (!k) return done(r);
        X o1, o2; resolve(s, A(0), k * es, o1, false, "compare"); resolve(s, A(1), k * es, o2, false, "compare");
        for (uint64_t i = k; i-- > 0;) { X a = loadN(s, C.add(A(0), C.c(64, i * es)), es), b = loadN(s, C.add(A(1), C.c(64, i * es)), es); if (!a) a = undefVar(8 * es); if (!b) b = undefVar(8 * es);
            r = C.ite(C.eq(a, b), r, n == "bcmp" ? C.c(32, 1) : C.ite(es == 4 ? C.slt(a, b) : C.ult(a, b), C.c(32, -1), C.c(32, 1))); }
        return done(r); }
    if ((n == "memchr" || n == "wmemchr") && A(0)->isC() && A(2)->isC()) { // over a whole object known in advance: one expression instead of a path per element (otherwise the loop in rt.c)
        unsigned es = n == "wmemchr" ? 4 : 1; uint64_t a = A(0)->u64(), k = A(2)->u64(); Obj* o = objAt(s, a);
        if (o && o->kind != O_BUF && k <= 256 && k * es <= o->base + o->size - a && a >= o->base) { X r = C.c(64, 0), want = C.extract(A(1), 0, 8 * es);
            for (uint64_t i = k; i-- > 0;) { X v = loadN(s, C.c(64, a + i * es), es); if (!v) v = undefVar(8 * es); r = C.ite(C.eq(v, want), C.c(64, a + i * es), r); }
            return done(r); } }
    if (n == "memcpy" || n == "memmove") { copyBytes(s, A(0), A(1), conc(s, A(2)), n == "memmove"); return done(A(0)); }
    if (n == "memset") { uint64_t k = conc(s, A(2)); X v = C.extract(A(1), 0, 8); for (uint64_t i = 0; i < k; ++i) storeN(s, C.add(A(0), C.c(64, i)), v); return done(A(0)); }
    if (s.failAt && (n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t") && --s.failAt == 0) { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt9bad_alloc"), 0); return true; }
    if (n == "_Znwm") return done(heapNew(s, I, 0, 1)); if (n == "_Znam") return done(heapNew(s, I, 0, 2)); if (n == "malloc") return done(heapNew(s, I, 0, 3));
    if (n == "_ZnwmSt11align_val_t") { unsigned al = conc(s, A(1)); return done(heapNew(s, I, 0, 1, al)); }
    if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdlPvSt11align_val_t") { heapFree(s, A(0), 1); return done(); }
    if (n == "_ZdaPv" || n == "_ZdaPvm") { heapFree(s, A(0), 2); return done(); }
    if (n == "free") { heapFree(s, A(0), 3); return done(); }
    if (n == "__cxa_allocate_exception") { uint64_t k = conc(s, A(0)); return done(C.c(64, newObj(s, k, O_EXC, "exception"))); }
    if (n == "__cxa_free_exception") { s.mem.erase(conc(s, A(0))); return done(); }
    if (n == "__cxa_throw") { throwExc(s, conc(s, A(0)), A(1)->u64(), A(2)->u64()); return true; }
    if (n == "__cxa_begin_catch") { uint64_t a = conc(s, A(0)); int k = s.excs.size() - 1; while (k >= 0 && s.excs[k].obj != a) --k; if (k < 0) throw Unsupported{"begin_catch"}; ++s.excs[k].handlers; s.excs[k].again = false; s.caught.push_back(k); return done(C.c(64, a)); }
    if (n == "__cxa_end_catch") { int k = s.caught.back(); s.caught.pop_back(); Exc& e = s.excs[k]; int h = --e.handlers;
        if (h == 0 && !e.again) { uint64_t obj = e.obj, d = e.dtor;
            if (d) { auto* f = faddrR.at(d); if (!f->isDeclaration()) { enter(s, f, {sv(C.c(64, obj))}); return true; } } // run the destructor as if it were what is called here; ret() goes on behind it
            finishCall(s, I); s.mem.erase(obj); return true; }
        return done(); }
    if (n == "__cxa_rethrow") { if (s.caught.empty()) throw Violation{"terminate", "rethrow without exception"}; s.cur = s.caught.back(); s.excs[s.cur].again = true; unwind(s); return true; }
    if (n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "abort" || n == "__cxa_pure_virtual") throw Violation{"terminate", n.str() + " called"};
    if (n == "__cxa_guard_acquire") { Val v = loadT(s, A(0), Type::getInt8Ty(M->getContext())); return done(C.ite(C.eq(v.x, C.c(8, 0)), C.c(32, 1), C.c(32, 0))); }
    if (n == "__cxa_guard_release") { storeN(s, A(0), C.c(8, 1)); return done(); }
    if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "__cxa_thread_atexit") return done(C.c(32, 0));
    if (n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") throw Violation{"precondition", "standard library precondition violated: " + readStr(s, A(3)) + " in " + readStr(s, A(2)).substr(0, 200)};
    if (n == "_ZSt20__throw_length_errorPKc") { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt12length_error"), 0); return true; }
    if (n == "_ZSt17__throw_bad_allocv" || n == "_ZSt28__throw_bad_array_new_lengthv") { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt9bad_alloc"), 0); return true; }
    if (n.starts_with("_ZSt20__throw_out_of_range")) { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt12out_of_range"), 0); return true; }
    if (n == "_ZSt19__throw_logic_errorPKc") { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt11logic_error"), 0); return true; }
    if (n == "_ZSt26__throw_bad_variant_accessPKc" || n == "_ZSt26__throw_bad_variant_accessj" || n == "_ZSt26__throw_bad_variant_accessb") { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt18bad_variant_access"), 0); return true; }
    if (n == "_ZSt27__throw_bad_optional_accessv") { throwExc(s, newObj(s, 16, O_EXC, "exception"), synth("_ZTISt19bad_optional_access"), 0); return true; }
    if (n.starts_with("_ZNSt") && (n.contains("exceptionD") || n.contains("errorD") || n.contains("_accessD"))) return done();
    (void)cb; return false;
}
static X satOp(X a, X b, bool sg, bool sub) { unsigned w = a->w; X A = sg ? C.sext(a, w + 1) : C.zext(a, w + 1), B = sg ? C.sext(b, w + 1) : C.zext(b, w + 1); X r = sub ? C.sub(A, B) : C.add(A, B);
    if (sg) { X mx = C.c(APInt::getSignedMaxValue(w)), mn = C.c(APInt::getSignedMinValue(w)); return C.ite(C.slt(C.sext(mx, w + 1), r), mx, C.ite(C.slt(r, C.sext(mn, w + 1)), mn, C.extract(r, 0, w))); }
    X ov = C.extract(r, w, 1); return C.ite(ov, sub ? C.c(w, 0) : C.c(APInt::getAllOnes(w)), C.extract(r, 0, w)); }
static bool intrinsic(State& s, const Ins& I, const IntrinsicInst* ii) {
    auto A = [&](unsigned k) { return op(s, I, k); };
    auto done = [&](X r = nullptr) { if (I.dst >= 0 && r) setDst(s, I, sv(r)); finishCall(s, I); return true; };
    if (ii->getType()->isVectorTy()) throw Unsupported{"vector intrinsic"};
    switch (ii->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
        uint64_t a = ev(s, A(1)).getZExtValue(); Obj* o = objAt(s, a); if (o && o->base == a && o->kind == O_STACK) { Obj* w = W(s, a); std::fill(w->cells.begin(), w->cells.end(), Cell{}); } return done(); }
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::invariant_end: case Intrinsic::prefetch: return done();
    case Intrinsic::stacksave: case Intrinsic::stackrestore: return done(C.c(64, 0));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return done(A(0));
    case Intrinsic::is_constant: return done(C.F());
    case Intrinsic::objectsize: return done(A(1)->is(0) ? C.c(APInt::getAllOnes(bits(ii->getType()))) : C.c(bits(ii->getType()), 0));
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = conc(s, A(2)); copyBytes(s, A(0), A(1), n, ii->getIntrinsicID() == Intrinsic::memmove); return done(); }
    case Intrinsic::memset: { uint64_t n = conc(s, A(2)); if (!n) return done(); X v = A(1); X off; Obj* o = resolve(s, A(0), n, off, true, "memset");
        if (off->isC()) { o = W(s, o->base); for (uint64_t k = 0; k < n; ++k) { o->cells[off->u64() + k].e = v; o->cells[off->u64() + k].i = 0; } } else for (uint64_t k = 0; k < n; ++k) storeN(s, C.add(A(0), C.c(64, k)), v); return done(); }
    case Intrinsic::umax: return done(C.ite(C.ult(A(0), A(1)), A(1), A(0))); case Intrinsic::umin: return done(C.ite(C.ult(A(0), A(1)), A(0), A(1)));
    case Intrinsic::smax: return done(C.ite(C.slt(A(0), A(1)), A(1), A(0))); case Intrinsic::smin: return done(C.ite(C.slt(A(0), A(1)), A(0), A(1)));
    case Intrinsic::abs: return done(C.ite(C.slt(A(0), C.c(A(0)->w, 0)), C.sub(C.c(A(0)->w, 0), A(0)), A(0)));
    case Intrinsic::ctpop: { X a = A(0), r = C.c(a->w, 0); for (unsigned k = 0; k < a->w; ++k) r = C.add(r, C.zext(C.extract(a, k, 1), a->w)); return done(r); }
    case Intrinsic::ctlz: { X a = A(0), r = C.c(a->w, a->w); for (unsigned k = 0; k < a->w; ++k) r = C.ite(C.extract(a, k, 1), C.c(a->w, a->w - 1 - k), r); return done(r); }
    case Intrinsic::cttz: { X a = A(0), r = C.c(a->w, a->w); for (unsigned k = a->w; k-- > 0;) r = C.ite(C.extract(a, k, 1), C.c(a->w, k), r); return done(r); }
    case Intrinsic::bswap: { X a = A(0), r = nullptr; for (unsigned k = 0; k < a->w; k += 8) { X b = C.extract(a, k, 8); r = r ? C.concat(r, b) : b; } return done(r); }
    case Intrinsic::fshl: { X sh = C.urem(A(2), C.c(A(2)->w, A(2)->w)); unsigned w = A(0)->w; X cc = C.shl(C.concat(A(0), A(1)), C.zext(sh, 2 * w)); return done(C.extract(cc, w, w)); }
    case Intrinsic::fshr: { X sh = C.urem(A(2), C.c(A(2)->w, A(2)->w)); unsigned w = A(0)->w; X cc = C.lshr(C.concat(A(0), A(1)), C.zext(sh, 2 * w)); return done(C.extract(cc, 0, w)); }
    case Intrinsic::uadd_sat: return done(satOp(A(0), A(1), false, false)); case Intrinsic::usub_sat: return done(satOp(A(0), A(1), false, true));
    case Intrinsic::sadd_sat: return done(satOp(A(0), A(1), true, false)); case Intrinsic::ssub_sat: return done(satOp(A(0), A(1), true, true));
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = ii->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow; X a = A(0), b = A(1); unsigned w = a->w;
        bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow, sb = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow; X r, ov;
        if (id == Intrinsic::usub_with_overflow) { r = C.sub(a, b); ov = C.ult(a, b); }
        else { unsigned W2 = mul ? 2 * w : w + 1; X x = sg ? C.sext(a, W2) : C.zext(a, W2), y = sg ? C.sext(b, W2) : C.zext(b, W2); X f = mul ? C.mul(x, y) : sb ? C.sub(x, y) : C.add(x, y); r = C.extract(f, 0, w); ov = C.not_(C.eq(f, sg ? C.sext(r, W2) : C.zext(r, W2))); }
        Val v; v.a = std::make_shared<std::vector<Val>>(); v.a->push_back(sv(r)); v.a->push_back(sv(ov)); setDst(s, I, v); finishCall(s, I); return true; }
    case Intrinsic::trap: case Intrinsic::debugtrap: throw Violation{"trap", "trap reached"};
    case Intrinsic::ubsantrap: { static const char* nm[] = {"add overflow","builtin unreachable","cfi","division","dynamic cache","float cast","function type","implicit conversion","invalid builtin","invalid objc","invalid bool/enum value","missing return","multiplication overflow","negate overflow","null argument","null return","nullability arg","nullability ret","pointer out of bounds","array index","pointer overflow","shift","subtraction overflow","null or misaligned pointer","alignment"}; unsigned k = A(0)->u64(); throw Violation{"ub", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?")}; }
    case Intrinsic::eh_typeid_for: { uint64_t t = A(0)->u64(); return done(C.c(32, (t >> 4) & 0x7fffffff)); }
    case Intrinsic::is_fpclass: default: return false;
    }
}
static void call(State& s, const Ins& I) {
    auto* cb = cast<CallBase>(I.i);
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) { if (intrinsic(s, I, ii)) return; throw Unsupported{"intrinsic " + ii->getCalledFunction()->getName().str()}; }
    const Function* f = cb->getCalledFunction();
    if (!f) { if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) { finishCall(s, I); return; } throw Unsupported{"inline asm"}; }
        uint64_t a = conc(s, op(s, I, I.o.size() - 1)); auto it = faddrR.find(a); if (it == faddrR.end()) throw Violation{"memory", "call through an invalid function pointer"}; f = it->second; }
    StringRef n = f->getName();
    if ((f->isDeclaration() || n == "__clang_call_terminate" || n == "memchr" || n == "wmemchr") && native(s, I, n, cb)) return;
    if (f->isDeclaration()) throw Unsupported{"external function " + n.str()};
    std::vector<Val> args; for (unsigned k = 0; k < cb->arg_size(); ++k) args.push_back(opv(s, I, k));
    enter(s, f, std::move(args));
}
static X icmp(CmpInst::Predicate p, X a, X b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return C.eq(a, b); case CmpInst::ICMP_NE: return C.not_(C.eq(a, b));
    case CmpInst::ICMP_ULT: return C.ult(a, b); case CmpInst::ICMP_ULE: return C.ule(a, b); case CmpInst::ICMP_UGT: return C.ult(b, a); case CmpInst::ICMP_UGE: return C.ule(b, a);
    case CmpInst::ICMP_SLT: return C.slt(a, b); case CmpInst::ICMP_SLE: return C.sle(a, b); case CmpInst::ICMP_SGT: return C.slt(b, a); case CmpInst::ICMP_SGE: return C.sle(b, a);
    default: throw Unsupported{"comparison"}; }
}
static X fcmp(CmpInst::Predicate p, X a, X b) { // on the bit patterns, IEEE binary32 and binary64
    unsigned w = a->w; X z = C.c(w, 0); APInt mag = APInt::getSignedMaxValue(w), inf = w == 32 ? APInt(32, 0x7f800000) : APInt(64, 0x7ff0000000000000ull);
    auto nan = [&](X x) { return C.ult(C.c(inf), C.and_(x, C.c(mag))); }; auto key = [&](X x) { return C.ite(C.slt(x, z), C.sub(z, C.and_(x, C.c(mag))), x); };
    X un = C.or_(nan(a), nan(b)), ka = key(a), kb = key(b), r = C.b(false);
    if (p & 1) r = C.or_(r, C.eq(ka, kb)); if (p & 2) r = C.or_(r, C.slt(kb, ka)); if (p & 4) r = C.or_(r, C.slt(ka, kb));
    r = C.and_(r, C.not_(un)); return p & 8 ? C.or_(r, un) : r;
}
static X binop(State& s, unsigned opc, X a, X b) {
    switch (opc) {
    case Instruction::Add: return C.add(a, b); case Instruction::Sub: return C.sub(a, b); case Instruction::Mul: return C.mul(a, b);
    case Instruction::And: return C.and_(a, b); case Instruction::Or: return C.or_(a, b); case Instruction::Xor: return C.xor_(a, b);
    case Instruction::Shl: return C.shl(a, b); case Instruction::LShr: return C.lshr(a, b); case Instruction::AShr: return C.ashr(a, b);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        must(s, C.not_(C.eq(b, C.c(b->w, 0))), "ub", "division by zero");
        return opc == Instruction::UDiv ? C.udiv(a, b) : opc == Instruction::URem ? C.urem(a, b) : opc == Instruction::SDiv ? C.sdiv(a, b) : C.srem(a, b);
    default: throw Unsupported{"binary operator"}; }
}
static Val selectV(X p, const Val& a, const Val& b, Type* t) {
    if (p->isC()) return p->is(1) ? a : b;
    if (a.a || b.a) { Val v; v.a = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < nEl(t); ++i) v.a->push_back(selectV(p, (*a.a)[i], (*b.a)[i], elTy(t, i))); return v; }
    if (!a.x && !b.x) return a;
    return sv(C.ite(p, a.x ? a.x : undefVar(bits(t)), b.x ? b.x : undefVar(bits(t))));
}
static Val mapVec(Type* t, std::function<X(unsigned)> f) { Val v; v.a = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < nEl(t); ++i) v.a->push_back(sv(f(i))); return v; }
static X velem(const Val& v, unsigned i, Type* t) { if (!v.a) throw Unsupported{"vector"}; auto& e = (*v.a)[i]; if (!e.x) e.x = undefVar(bits(elTy(t, i))); return e.x; }

static void step(State& s);
// ------------------------------------------------------------------ merging side-effect-free regions
// At an undecided branch both sides are run on as far as they only compute (no store, no call, no load that might fail). Where ways
// lead to the same place with the same live registers they are the same state, and go on as one under the disjunction of their conditions.
static void liveness(Fn* F) {
    F->liveDone = true; size_t n = F->b.size(); std::vector<std::vector<bool>> in(n, std::vector<bool>(F->nslots)), out = in; bool ch = true;
    while (ch) { ch = false;
        for (size_t b = n; b-- > 0;) { std::vector<bool> o(F->nslots);
            for (const BasicBlock* sb : successors(F->bbs[b])) { int t = F->bi.lookup(sb); auto& B = F->b[t]; size_t k = 0; std::vector<bool> l = in[t]; // after the phis
                for (; k < B.ins.size() && B.ins[k].opc == Instruction::PHI; ++k) l[B.ins[k].dst] = false;
                for (k = 0; k < B.ins.size() && B.ins[k].opc == Instruction::PHI; ++k) { auto* p = cast<PHINode>(B.ins[k].i); int s = B.ins[k].o[p->getBasicBlockIndex(F->bbs[b])].slot; if (s >= 0) l[s] = true; }
                for (int s = 0; s < F->nslots; ++s) if (l[s]) o[s] = true; }
            std::vector<bool> l = o; auto& B = F->b[b];
            for (size_t k = B.ins.size(); k-- > 0 && B.ins[k].opc != Instruction::PHI;) { if (B.ins[k].dst >= 0) l[B.ins[k].dst] = false; for (auto& x : B.ins[k].o) if (x.slot >= 0) l[x.slot] = true; }
            if (o != out[b]) { out[b] = o; ch = true; } if (l != in[b]) { in[b] = l; ch = true; } } }
    for (size_t b = 0; b < n; ++b) { for (int s = 0; s < F->nslots; ++s) if (out[b][s]) F->b[b].out.push_back(s); F->b[b].join = F->bbs[b]->hasNPredecessorsOrMore(2); }
}
static const std::vector<int>& liveAt(Fn* F, int bb, int pc) {
    if (!F->liveDone) liveness(F);
    auto& B = F->b[bb]; auto it = B.live.find(pc); if (it != B.live.end()) return it->second;
    std::set<int> l(B.out.begin(), B.out.end()); for (int k = B.ins.size(); k-- > pc;) { if (B.ins[k].dst >= 0) l.erase(B.ins[k].dst); if (B.ins[k].opc != Instruction::PHI) for (auto& x : B.ins[k].o) if (x.slot >= 0) l.insert(x.slot); }
    return B.live[pc] = std::vector<int>(l.begin(), l.end());
}
// A select between two places of a constant table (binary search and the like): followed both ways, so that reads of the table stay reads of known places.
static bool intoTable(const SelectInst* si) {
    static DenseMap<const SelectInst*, bool> memo; if (auto it = memo.find(si); it != memo.end()) return it->second;
    bool r = false; if (!si->getCondition()->getType()->isVectorTy()) for (auto& o : *si->getParent()) { auto* q = dyn_cast<SelectInst>(&o); if (!q || q->getCondition() != si->getCondition()) continue;
        std::vector<const Value*> todo{q}; std::set<const Value*> had{q};
        while (!todo.empty() && had.size() < 60 && !r) { const Value* v = todo.back(); todo.pop_back();
            for (auto* u : v->users()) { auto* i = dyn_cast<Instruction>(u); if (!i) continue;
                if (auto* l = dyn_cast<LoadInst>(i)) { SmallVector<const Value*, 4> os; getUnderlyingObjects(l->getPointerOperand(), os); for (auto* x : os) if (auto* g = dyn_cast<GlobalVariable>(x)) r |= g->isConstant(); continue; }
                if ((isa<GetElementPtrInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i) || isa<CastInst>(i) || i->isBinaryOp()) && had.insert(i).second) todo.push_back(i); } } }
    return memo[si] = r;
}
static bool splits(State& s, const Ins& I, X& c) { // decided neither way, between known places
    if (I.opc != Instruction::Select || !intoTable(cast<SelectInst>(I.i))) return false; c = op(s, I, 0); if (c->isC() || hasUndef(c)) return false;
    X r = reduce(s, c); if (r->isC()) return false; Val a = opv(s, I, 1), b = opv(s, I, 2); return a.x && b.x && a.x->isC() && b.x->isC();
}
struct TooFar {}; static bool inRegion = false;
struct Region {
    struct Node { int leaf = -1; X c = nullptr; int t = -1, f = -1; }; struct Leaf { Frame f; uint64_t steps; std::vector<Ins*> ran; };
    std::vector<Node> n; std::vector<Leaf> l; std::map<std::string, int> at, leafAt; unsigned steps = 0, limit = 6000; std::vector<Ins*> ran;
    static void put(std::string& k, const Val& v) { k.append(reinterpret_cast<const char*>(&v.x), sizeof v.x); if (v.a) { k += '['; for (auto& e : *v.a) put(k, e); k += ']'; } }
    static std::string key(const Frame& f) { std::string k; k.append(reinterpret_cast<const char*>(&f.bb), sizeof(int)); k.append(reinterpret_cast<const char*>(&f.pc), sizeof(int)); for (int s : liveAt(f.f, f.bb, f.pc)) put(k, f.r[s]); return k; }
    int mk(X c, int t, int f) { if (t == f) return t; n.push_back({-1, c, t, f}); return n.size() - 1; }
    int leaf(State& s, const std::vector<std::string>& ks) {
        std::string k = key(s.fr.back()); auto it = leafAt.find(k); int r;
        if (it != leafAt.end()) r = it->second; else { if (l.size() >= 48) throw TooFar{}; l.push_back({s.fr.back(), s.steps, ran}); n.push_back({int(l.size()) - 1}); r = n.size() - 1; leafAt[k] = r; }
        for (auto& x : ks) at[x] = r; return r; }
    static bool safe(State& s, X p, Type* t) { // reading there cannot fail, whatever the side taken
        if (!p->isC()) return false; uint64_t a = p->u64(), nb = DL->getTypeStoreSize(t).getFixedValue(); Obj* o = objAt(s, a); if (!o || a < o->base) return false;
        if (!o->ssize) return a - o->base <= o->size && nb <= o->size - (a - o->base);
        return query(s, C.not_(C.ule(C.c(64, a - o->base + nb), o->ssize)), nullptr) == 0; }
    int side(State& s, const Frame& f, size_t nr, uint64_t st, const BasicBlock* to) { s.fr.back() = f; s.steps = st; ran.resize(nr); jump(s, to); return run(s); }
    int run(State& s, std::vector<std::pair<X, bool>> given = {}) { // given: conditions of selects up to the end of this block
        std::vector<std::string> ks; bool fresh = given.empty();
        for (;;) {
            Frame& f = s.fr.back(); auto& B = f.f->b[f.bb];
            if (fresh && B.join) { std::string k = key(f); auto it = at.find(k); if (it != at.end()) { for (auto& x : ks) at[x] = it->second; return it->second; } ks.push_back(std::move(k)); }
            fresh = false; if (++steps > limit) throw TooFar{};
            Ins& I = B.ins[f.pc]; const Instruction* in = I.i; bool stop = false; X sc;
            if (I.opc == Instruction::Select && !given.empty() && !in->getOperand(0)->getType()->isVectorTy()) { X c = op(s, I, 0); int v = -1; for (auto& g : given) if (g.first == c) v = g.second; if (v >= 0) { if (!I.seen) ran.push_back(&I); ++s.steps; ++::st.instrs; Val x = opv(s, I, v ? 1 : 2); f.r[I.dst] = x; ++f.pc; continue; } }
            if (splits(s, I, sc)) { Frame keep = f; size_t nr = ran.size(); uint64_t st = s.steps; auto gt = given; gt.push_back({sc, true}); int t = run(s, gt); s.fr.back() = keep; s.steps = st; ran.resize(nr); gt.back().second = false; int e = run(s, gt), r = mk(sc, t, e); for (auto& x : ks) at[x] = r; return r; }
            if (in->isTerminator()) given.clear();
            switch (I.opc) {
            case Instruction::Br: { auto* b = cast<BranchInst>(in); fresh = true; if (b->isUnconditional()) break; X c = op(s, I, 0); if (!c->isC()) c = reduce(s, c);
                if (c->isC()) { if (!I.seen) ran.push_back(&I); ++s.steps; ++::st.instrs; jump(s, b->getSuccessor(c->is(1) ? 0 : 1)); continue; }
                if (hasUndef(c)) { stop = true; break; }
                if (!I.seen) ran.push_back(&I); Frame keep = f; size_t nr = ran.size(); uint64_t st = ++s.steps; int t = side(s, keep, nr, st, b->getSuccessor(0)), e = side(s, keep, nr, st, b->getSuccessor(1)), r = mk(c, t, e); for (auto& x : ks) at[x] = r; return r; }
            case Instruction::Switch: { auto* w = cast<SwitchInst>(in); fresh = true; X c = op(s, I, 0); if (c->isC()) break; c = reduce(s, c); if (hasUndef(c)) { stop = true; break; }
                if (c->isC()) { const BasicBlock* to = w->getDefaultDest(); for (auto k : w->cases()) if (k.getCaseValue()->getValue() == c->c) to = k.getCaseSuccessor(); if (!I.seen) ran.push_back(&I); ++s.steps; ++::st.instrs; jump(s, to); continue; }
                std::vector<std::pair<const BasicBlock*, X>> d; for (auto k : w->cases()) { if (k.getCaseSuccessor() == w->getDefaultDest()) continue; X e = C.eq(c, C.c(k.getCaseValue()->getValue())); bool f2 = false; for (auto& p : d) if (p.first == k.getCaseSuccessor()) { p.second = C.or_(p.second, e); f2 = true; } if (!f2) d.push_back({k.getCaseSuccessor(), e}); }
                if (!I.seen) ran.push_back(&I); Frame keep = f; size_t nr = ran.size(); uint64_t st = ++s.steps; int r = side(s, keep, nr, st, w->getDefaultDest()); for (size_t k = d.size(); k-- > 0;) { int t = side(s, keep, nr, st, d[k].first); r = mk(d[k].second, t, r); } for (auto& x : ks) at[x] = r; return r; }
            case Instruction::Load: stop = I.o[0].slot < -1 || !safe(s, op(s, I, 0), in->getType()); break;
            case Instruction::GetElementPtr: case Instruction::ICmp: case Instruction::FCmp: case Instruction::Select: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
            case Instruction::BitCast: case Instruction::ExtractValue: case Instruction::InsertValue: break;
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: stop = true; break;
            default: stop = !in->isBinaryOp(); }
            if (!stop) { bool was = I.seen; I.seen = true; try { step(s); } catch (Violation&) { stop = true; } catch (Unsupported&) { stop = true; } I.seen = was; if (!was && !stop) ran.push_back(&I); }
            if (stop) return leaf(s, ks); } }
    X when(int node, int lf, std::vector<X>& memo) { // the condition under which node ends in leaf lf
        if (memo[node]) return memo[node]; auto& d = n[node]; X r; if (d.leaf >= 0) r = C.b(d.leaf == lf);
        else { X t = when(d.t, lf, memo), f = when(d.f, lf, memo); r = t == f ? t : t->is(1) ? C.or_(d.c, f) : t->is(0) ? C.and_(C.not_(d.c), f) : f->is(1) ? C.or_(C.not_(d.c), t) : f->is(0) ? C.and_(d.c, t) : C.ite(d.c, t, f); }
        return memo[node] = r; }
};
// true: done, every way out of the region has its state
static bool region(State& s, Ins& I) {
    static const bool off = getenv("SX_NOMERGE"); if (off || I.far >= 3) return false;
    Region R; Frame keep = s.fr.back(); uint64_t steps = s.steps; int root; struct In { In() { inRegion = true; } ~In() { inRegion = false; } } guard;
    if (I.opc == Instruction::Select) R.limit = 100000;
    try { root = R.run(s); if (I.opc == Instruction::Select && R.l.size() > 4) throw TooFar{}; } catch (TooFar&) { ++I.far; s.fr.back() = keep; s.steps = steps; return false; }
    ++st.regions; std::vector<X> cond; int mine = -1;
    for (size_t k = 0; k < R.l.size(); ++k) { std::vector<X> memo(R.n.size(), nullptr); cond.push_back(R.when(root, k, memo)); if (ev(s, cond[k]) == 1) mine = k; }
    st.merged += R.n.size() - R.l.size() + 1 >= R.l.size() ? R.n.size() - R.l.size() + 1 - R.l.size() : 0;
    auto take = [&](State& t, size_t k) { t.fr.back() = R.l[k].f; t.steps = R.l[k].steps; for (Ins* i : R.l[k].ran) if (!i->seen) { i->seen = true; noteLoc(i->i); } };
    bool more = false;
    for (size_t k = 0; k < R.l.size(); ++k) if ((int)k != mine) { std::shared_ptr<Model> m; if (query(s, cond[k], &m)) { take(forkOff(s, cond[k], m), k); more = true; } }
    if (more) { addCons(s, cond[mine]); ++s.depth; }
    take(s, mine); return true;
}

static void step(State& s) {
    Frame& f = s.fr.back(); Ins& I = f.f->b[f.bb].ins[f.pc]; const Instruction* in = I.i;
    ++st.instrs; ++s.steps; if (!I.seen) { I.seen = true; noteLoc(in); }
    if (s.steps > cfg.pathSteps) throw Violation{"nontermination", "no end after " + std::to_string((uint64_t)cfg.pathSteps) + " instructions"};
    Type* t = in->getType();
    switch (I.opc) {
    case Instruction::Ret: { if (in->getNumOperands()) { Val v = opv(s, I, 0); ret(s, &v); } else ret(s, nullptr); return; }
    case Instruction::Br: { auto* b = cast<BranchInst>(in); if (b->isUnconditional()) { jump(s, b->getSuccessor(0)); return; } X c = op(s, I, 0); if (c->isC()) { jump(s, b->getSuccessor(c->is(1) ? 0 : 1)); return; }
        checkDefined(s, c, "a branch"); if (!hasUndef(c) && region(s, I)) return; bool v = ev(s, c) == 1; X other = v ? C.not_(c) : c; std::shared_ptr<Model> m;
        if (query(s, other, &m)) { jump(forkOff(s, other, m), b->getSuccessor(v ? 1 : 0)); addCons(s, v ? c : C.not_(c)); ++s.depth; }
        jump(s, b->getSuccessor(v ? 0 : 1)); return; }
    case Instruction::Switch: { auto* w = cast<SwitchInst>(in); X c = op(s, I, 0);
        if (c->isC()) { for (auto k : w->cases()) if (k.getCaseValue()->getValue() == c->c) { jump(s, k.getCaseSuccessor()); return; } jump(s, w->getDefaultDest()); return; }
        checkDefined(s, c, "a branch"); if (!hasUndef(c) && region(s, I)) return;
        std::vector<std::pair<const BasicBlock*, X>> d; X def = C.T();
        for (auto k : w->cases()) { X e = C.eq(c, C.c(k.getCaseValue()->getValue())); def = C.and_(def, C.not_(e)); bool f2 = false; for (auto& p : d) if (p.first == k.getCaseSuccessor()) { p.second = C.or_(p.second, e); f2 = true; } if (!f2) d.push_back({k.getCaseSuccessor(), e}); }
        { bool f2 = false; for (auto& p : d) if (p.first == w->getDefaultDest()) { p.second = C.or_(p.second, def); f2 = true; } if (!f2) d.push_back({w->getDefaultDest(), def}); }
        int mine = -1; for (size_t k = 0; k < d.size(); ++k) if (ev(s, d[k].second) == 1) mine = k;
        bool more = false; for (size_t k = 0; k < d.size(); ++k) if ((int)k != mine) { std::shared_ptr<Model> m; if (query(s, d[k].second, &m)) { jump(forkOff(s, d[k].second, m), d[k].first); more = true; } }
        if (more) { addCons(s, d[mine].second); ++s.depth; }
        jump(s, d[mine].first); return; }
    case Instruction::Unreachable: throw Violation{"unreachable", "control reaches code the compiler may assume unreachable"};
    case Instruction::Call: case Instruction::Invoke: call(s, I); return;
    case Instruction::Resume: { Val v = opv(s, I, 0); X p = (*v.a)[0].x; uint64_t a = conc(s, p); for (size_t k = 0; k < s.excs.size(); ++k) if (s.excs[k].obj == a) s.cur = k; popFrame(s); unwind(s); return; }
    case Instruction::LandingPad: { auto* lp = cast<LandingPadInst>(in); Exc& e = s.excs[s.cur]; uint64_t sel = 0;
        for (unsigned k = 0; k < lp->getNumClauses(); ++k) if (lp->isCatch(k)) { const Constant* c = lp->getClause(k); if (isa<ConstantPointerNull>(c)) { sel = 1; break; } uint64_t ti = constX(c)->u64(); if (tiMatch(e.ti, ti)) { sel = (ti >> 4) & 0x7fffffff; break; } }
        Val v; v.a = std::make_shared<std::vector<Val>>(); v.a->push_back(sv(C.c(64, e.obj))); v.a->push_back(sv(C.c(32, sel))); s.cur = -1; setDst(s, I, v); break; }
    case Instruction::Alloca: { auto* a = cast<AllocaInst>(in); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue() * conc(s, op(s, I, 0)); uint64_t b = newObj(s, n, O_STACK, a->getName().str(), false, a->getAlign().value()); s.fr.back().al.push_back(b); setDst(s, I, sv(C.c(64, b))); break; }
    case Instruction::Load: { Val v = loadT(s, op(s, I, 0), t); setDst(s, I, std::move(v)); break; }
    case Instruction::Store: { storeT(s, op(s, I, 1), opv(s, I, 0), in->getOperand(0)->getType()); break; }
    case Instruction::GetElementPtr: { auto* g = cast<GetElementPtrInst>(in); if (t->isVectorTy()) throw Unsupported{"vector gep"}; X p = op(s, I, 0); unsigned k = 1;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) { X ix = op(s, I, k); if (StructType* stt = it.getStructTypeOrNull()) p = C.add(p, C.c(64, DL->getStructLayout(stt)->getElementOffset(ix->u64()))); else p = C.add(p, C.mulc(ix->w < 64 ? C.sext(ix, 64) : C.extract(ix, 0, 64), APInt(64, DL->getTypeAllocSize(it.getIndexedType()).getFixedValue()))); }
        setDst(s, I, sv(p)); break; }
    case Instruction::ICmp: { auto p = cast<ICmpInst>(in)->getPredicate(); if (t->isVectorTy()) { Type* ot = in->getOperand(0)->getType(); Val a = opv(s, I, 0), b = opv(s, I, 1); setDst(s, I, mapVec(t, [&](unsigned k) { return icmp(p, velem(a, k, ot), velem(b, k, ot)); })); } else setDst(s, I, sv(icmp(p, op(s, I, 0), op(s, I, 1)))); break; }
    case Instruction::FCmp: if (t->isVectorTy()) throw Unsupported{"vector comparison of floating point"}; setDst(s, I, sv(fcmp(cast<FCmpInst>(in)->getPredicate(), op(s, I, 0), op(s, I, 1)))); break;
    case Instruction::SIToFP: case Instruction::UIToFP: { X x = op(s, I, 0); if (!x->isC() || t->isVectorTy()) throw Unsupported{"conversion of a symbolic integer to floating point"}; APFloat v(t->getFltSemantics()); v.convertFromAPInt(x->c, I.opc == Instruction::SIToFP, APFloat::rmNearestTiesToEven); setDst(s, I, sv(C.c(v.bitcastToAPInt()))); break; }
    case Instruction::Select: { X p; if (!inRegion && I.far < 3 && splits(s, I, p) && region(s, I)) return; if (in->getOperand(0)->getType()->isVectorTy()) { Val c = opv(s, I, 0), a = opv(s, I, 1), b = opv(s, I, 2); Type* ct = in->getOperand(0)->getType(); setDst(s, I, mapVec(t, [&](unsigned k) { return C.ite(velem(c, k, ct), velem(a, k, t), velem(b, k, t)); })); break; }
        p = op(s, I, 0); setDst(s, I, selectV(p, opv(s, I, 1), opv(s, I, 2), t)); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        auto cv = [&](X x, unsigned w) { if (I.opc == Instruction::SExt) return C.sext(x, w); return w <= x->w ? C.extract(x, 0, w) : C.zext(x, w); };
        if (t->isVectorTy()) { Val a = opv(s, I, 0); Type* ot = in->getOperand(0)->getType(); setDst(s, I, mapVec(t, [&](unsigned k) { return cv(velem(a, k, ot), bits(elTy(t, k))); })); }
        else { if (I.opc != Instruction::SExt && I.opc != Instruction::ZExt) { const Val& v = opv(s, I, 0); if (!v.x && !v.a) { setDst(s, I, Val{}); break; } } setDst(s, I, sv(cv(op(s, I, 0), bits(t)))); } break; }
    case Instruction::BitCast: { Type* ot = in->getOperand(0)->getType();
        if (!t->isVectorTy() && !ot->isVectorTy()) { setDst(s, I, opv(s, I, 0)); break; }
        X all = nullptr; if (ot->isVectorTy()) { Val a = opv(s, I, 0); for (unsigned k = 0; k < nEl(ot); ++k) { X e = velem(a, k, ot); all = all ? C.concat(e, all) : e; } } else all = op(s, I, 0);
        if (t->isVectorTy()) { unsigned w = bits(elTy(t, 0)); setDst(s, I, mapVec(t, [&](unsigned k) { return C.extract(all, k * w, w); })); } else setDst(s, I, sv(all)); break; }
    case Instruction::Freeze: { Val v = opv(s, I, 0); if (!v.x && !v.a) v.x = undefVar(bits(t)); setDst(s, I, v); break; }
    case Instruction::ExtractValue: { Val v = opv(s, I, 0); for (unsigned k : cast<ExtractValueInst>(in)->indices()) { Val w = (*v.a)[k]; v = w; } setDst(s, I, v); break; }
    case Instruction::InsertValue: { Val v = opv(s, I, 0); Val x = opv(s, I, 1); std::function<Val(const Val&, unsigned)> ins = [&](const Val& o, unsigned d) -> Val { auto ix = cast<InsertValueInst>(in)->getIndices(); if (d == ix.size()) return x; Val r; r.a = std::make_shared<std::vector<Val>>(*o.a); (*r.a)[ix[d]] = ins((*o.a)[ix[d]], d + 1); return r; }; setDst(s, I, ins(v, 0)); break; }
    case Instruction::ExtractElement: { Val v = opv(s, I, 0); uint64_t k = conc(s, op(s, I, 1)); setDst(s, I, sv(velem(v, k, in->getOperand(0)->getType()))); break; }
    case Instruction::InsertElement: { Val v = opv(s, I, 0); Val x = opv(s, I, 1); uint64_t k = conc(s, op(s, I, 2)); Val r; r.a = std::make_shared<std::vector<Val>>(*v.a); (*r.a)[k] = x; setDst(s, I, r); break; }
    case Instruction::ShuffleVector: { auto* sh = cast<ShuffleVectorInst>(in); Val a = opv(s, I, 0), b = opv(s, I, 1); unsigned n = nEl(in->getOperand(0)->getType()); Val r; r.a = std::make_shared<std::vector<Val>>(); for (int k : sh->getShuffleMask()) r.a->push_back(k < 0 ? Val{} : k < (int)n ? (*a.a)[k] : (*b.a)[k - n]); setDst(s, I, r); break; }
    case Instruction::Fence: break;
    default:
        if (in->isBinaryOp()) { if (t->isVectorTy()) { Val a = opv(s, I, 0), b = opv(s, I, 1); setDst(s, I, mapVec(t, [&](unsigned k) { return binop(s, I.opc, velem(a, k, t), velem(b, k, t)); })); } else setDst(s, I, sv(binop(s, I.opc, op(s, I, 0), op(s, I, 1)))); break; }
        throw Unsupported{std::string("instruction ") + in->getOpcodeName()};
    }
    ++s.fr.back().pc;
}

// ------------------------------------------------------------------ driver
static void finishPath(State& s) {
    ++st.paths; st.maxCons = std::max<uint64_t>(st.maxCons, s.cons.size());
    std::set<int> cs(s.covers.begin(), s.covers.end()); for (int c : cs) ++coverCount[coverNames[c]];
    ++witSeen; rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    if (wit.size() < cfg.witnesses) wit.push_back(caseText(s, curEntry, true));
    else { uint64_t k = (rng >> 33) % witSeen; if (k < cfg.witnesses) wit[k] = caseText(s, curEntry, true); }
}
// labels starting with '*' that the entry can call must be reached on some path
static std::set<std::string> requiredCovers(const Function* e) {
    std::set<std::string> r; std::set<const Function*> seen{e}; std::vector<const Function*> q{e};
    while (!q.empty()) { auto* f = q.back(); q.pop_back();
        for (auto& b : *f) for (auto& i : b) if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* g = cb->getCalledFunction()) {
            if (g->getName() == "sx_cover") { if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (gv->hasInitializer()) if (auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) if (cd->isCString() && cd->getAsCString().starts_with("*")) r.insert(cd->getAsCString().str()); }
            else if (!g->isDeclaration() && seen.insert(g).second) q.push_back(g); } }
    return r;
}
static void runEntry(const Function* f, const State& init) {
    State s0 = init; enter(s0, f, {}); work.clear(); work.push_back(std::move(s0));
    unsigned nv = 0; uint64_t startPaths = st.paths;
    while (!work.empty()) {
        if (now() > deadline) { unsup.push_back("time budget exhausted in " + curEntry); work.clear(); break; }
        if (st.paths - startPaths > cfg.maxPaths) { unsup.push_back("path budget exhausted in " + curEntry); work.clear(); break; }
        State s = std::move(work.back()); work.pop_back(); uint64_t chk = 0;
        try {
            while (!s.fr.empty()) { step(s); if ((++chk & 0xffff) == 0 && now() > deadline) throw Unsupported{"time budget exhausted"}; }
            if (s.live != 0) throw Violation{"leak", std::to_string(s.live) + " heap allocation(s) not released"};
            finishPath(s);
        } catch (Violation& v) {
            const Instruction* at = s.fr.empty() ? nullptr : s.fr.back().f->b[s.fr.back().bb].ins[s.fr.back().pc].i;
            V r; r.kind = v.kind; r.msg = v.msg; r.loc = at ? locOf(at) : "end"; r.trace = traceOf(s); r.inputs = caseText(s, curEntry, false); viols.push_back(r); ++st.paths;
            if (++nv >= cfg.maxViol) { work.clear(); break; }
        } catch (Unsupported& u) { std::string m = u.msg + " in " + curEntry + " at " + (s.fr.empty() ? "end" : locOf(s.fr.back().f->b[s.fr.back().bb].ins[s.fr.back().pc].i)) + " < " + traceOf(s); if (unsup.size() < 20) unsup.push_back(m);
        } catch (Kill&) { ++st.killed; }
    }
}
int main(int argc, char** argv) {
    std::string file, out; std::vector<std::string> entries;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entries.push_back(nx()); else if (a == "--out") out = nx(); else if (a == "--steps") cfg.pathSteps = std::stod(nx()); else if (a == "--time") cfg.timeBudget = std::stod(nx());
        else if (a == "--witnesses") cfg.witnesses = std::stoul(nx()); else if (a == "--smt") cfg.smt = nx(); else if (a == "--smtmax") cfg.smtMax = std::stoul(nx()); else if (a == "--seed") cfg.seed = std::stoull(nx()); else if (a == "--maxviol") cfg.maxViol = std::stoul(nx()); else file = a; }
    rng = cfg.seed * 2654435761u + 12345; double t0 = now(); deadline = t0 + cfg.timeBudget;
    LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("sx", errs()); return 3; } DL = &M->getDataLayout();
    uint64_t fa = 0x10000; for (auto& f : *M) { faddr[&f] = fa; faddrR[fa] = &f; fa += 16; }
    uint64_t ga = 0x10000000;
    for (auto& g : M->globals()) { uint64_t n = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8; uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16); ga = (ga + al - 1) / al * al; gaddr[&g] = ga; gaddrR[ga] = &g; ga += n + 48; }
    State init; init.model = std::make_shared<Model>(); init.bump = (ga + 0xfffff) & ~0xfffffull;
    for (auto& p : gaddr) { auto* g = p.first; auto o = std::make_shared<Obj>(); o->base = p.second; o->kind = O_GLOBAL; o->name = g->getName().str(); if (!g->getValueType()->isSized()) continue; o->size = DL->getTypeAllocSize(g->getValueType()).getFixedValue(); o->cells.resize(o->size);
        o->ro = g->isConstant() || !(StringRef(o->name).contains("sxh") || StringRef(o->name).starts_with("sx_"));
        if (g->hasInitializer()) try { initGlobal(o.get(), 0, g->getInitializer()); } catch (Unsupported&) {}
        if (StringRef(o->name) == "_ZTVN10__cxxabiv120__si_class_type_infoE") {}
        init.mem.emplace(o->base, o); }
    std::ostringstream js_; js_ << "{\"entries\":[";
    bool first = true;
    for (auto& e : entries) { const Function* f = M->getFunction(e); curEntry = e; Stats before = st; double t1 = now(); coverCount.clear(); size_t v0 = viols.size(), w0 = 0, u0 = unsup.size(); wit.clear(); witSeen = 0; (void)w0;
        if (!f || f->isDeclaration()) { unsup.push_back("no such entry " + e); } else { try { runEntry(f, init); } catch (Unsupported& u) { unsup.push_back(u.msg + " in " + e); } }
        if (!first) js_ << ",\n"; first = false;
        js_ << "{\"entry\":" << js(e) << ",\"paths\":" << st.paths - before.paths << ",\"killed\":" << st.killed - before.killed << ",\"forks\":" << st.forks - before.forks << ",\"instrs\":" << st.instrs - before.instrs << ",\"queries\":" << st.queries - before.queries << ",\"unsat\":" << st.unsat - before.unsat << ",\"sat\":" << st.sat - before.sat
            << ",\"linear\":" << st.linear - before.linear << ",\"cache_hits\":" << st.cacheHit - before.cacheHit << ",\"solver_s\":" << st.solver - before.solver << ",\"asserts\":" << st.aTotal - before.aTotal << ",\"asserts_folded\":" << st.aFolded - before.aFolded << ",\"asserts_smt\":" << st.aSmt - before.aSmt << ",\"memory_checks\":" << st.bugChecks - before.bugChecks << ",\"wall_s\":" << now() - t1 << ",\"covers\":{";
        bool c1 = true; for (auto& c : coverCount) { if (!c1) js_ << ","; c1 = false; js_ << js(c.first) << ":" << c.second; }
        js_ << "},\"missing\":["; { bool m1 = true; if (f) for (auto& c : requiredCovers(f)) if (!coverCount.count(c)) { if (!m1) js_ << ","; m1 = false; js_ << js(c); } } js_ << "],\"violations\":["; for (size_t k = v0; k < viols.size(); ++k) { auto& v = viols[k]; if (k > v0) js_ << ","; js_ << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"trace\":" << js(v.trace) << ",\"case\":" << js(v.inputs) << "}"; }
        js_ << "],\"inconclusive\":["; for (size_t k = u0; k < unsup.size(); ++k) { if (k > u0) js_ << ","; js_ << js(unsup[k]); }
        js_ << "],\"witnesses\":["; for (size_t k = 0; k < wit.size(); ++k) { if (k) js_ << ","; js_ << js(wit[k]); } js_ << "]}"; }
    js_ << "],\n\"functions\":["; first = true; for (auto& x : repoFns) { if (!first) js_ << ","; first = false; js_ << js(x); }
    js_ << "],\n\"lines\":["; first = true; for (auto& x : repoLines) { if (!first) js_ << ","; first = false; js_ << js(x); }
    js_ << "],\"smt_files\":" << smtCount << ",\"exprs\":" << (uint64_t)C.vars.size() << ",\"wall_s\":" << now() - t0 << "}\n";
    if (out.empty()) fputs(js_.str().c_str(), stdout); else { std::ofstream o(out); o << js_.str(); }
    fflush(stdout); _exit(0);
}
