// vse: symbolic executor for LLVM 18 bitcode, z3 as the decision procedure.
//
//   vse FILE.bc ENTRY OUT.jsonl [-t seconds] [-j procs] [-s max-steps-per-path]
//       [-x] (re-discharge every pruned branch with z3) [-k] (keep going)
//
// Every path of ENTRY is executed on the real code's IR. Bytes returned by
// vf_u8() are SMT bit-vector variables. A branch whose two sides are both
// feasible splits the path. Memory accesses, frees, divisions and vf_check()
// conditions become queries; a satisfiable violation is reported with a model.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <atomic>
#include <string>
#include <map>
#include <set>
using namespace llvm;

// ---------------------------------------------------------------- shared
struct Shared {
  std::atomic<long> slots, procs, paths, dropped, steps, forks, queries, fast, domq, z3q, z3us, z3sat, z3unsat, z3unk,
      checks, checkz3, viols, stop, incomplete, assumeKill, objs, xcheck, xbad, maxsym, crashed;
};
static Shared *SH;
static int outFd = -1;
static double T0, TMAX = 600;
static long STEPMAX = 3000000;
static int NPROC = 8;
static bool XCHECK = false, KEEP = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void emit(const std::string &l) { std::string x = l + "\n"; if (write(outFd, x.data(), x.size()) < 0) {} }

// ---------------------------------------------------------------- memory
struct Obj {
  int rc = 0; uint32_t size = 0; uint8_t kind = 0; bool ro = false; // kind 0 global 1 stack 2 heap
  std::vector<uint8_t> d; std::vector<E> s;
};
enum { K_GLOBAL, K_STACK, K_HEAP };
struct Chunk { int rc = 1; Obj *o[64]; };

struct RVal { uint64_t c = 0; E e = nullptr; RVal() {} RVal(uint64_t v) : c(v) {} RVal(int v) : c((uint64_t)v) {} RVal(unsigned v) : c(v) {} RVal(unsigned long long v) : c(v) {} RVal(E x) { if (isC(x)) c = x->c; else e = x; } };
struct Agg { std::vector<RVal> v; };

struct Func;
struct Frame {
  int rc = 1; Func *f = nullptr; int bb = 0, ip = 0; std::vector<RVal> regs; std::vector<uint64_t> allocas; uint64_t va = 0; int dst = -1;
};

struct Mem {
  std::vector<Chunk *> ch; uint64_t next = 320; // addresses above 2^32, so that a truncated pointer is a wild one
  Mem() {}
  Mem(const Mem &o) : ch(o.ch), next(o.next) { for (auto c : ch) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto c : ch) if (--c->rc == 0) { for (auto p : c->o) if (p && --p->rc == 0) delete p; delete c; } }
  Obj *get(uint64_t id) const { size_t k = id >> 6; return k < ch.size() ? ch[k]->o[id & 63] : nullptr; }
  Chunk *wch(size_t k) {
    Chunk *c = ch[k];
    if (c->rc > 1) { Chunk *n = new Chunk; memcpy(n->o, c->o, sizeof n->o); for (auto p : n->o) if (p) p->rc++; c->rc--; ch[k] = c = n; }
    return c;
  }
  Obj *getw(uint64_t id) {
    Chunk *c = wch(id >> 6); Obj *&p = c->o[id & 63];
    if (p->rc > 1) { Obj *n = new Obj(*p); n->rc = 1; p->rc--; p = n; }
    return p;
  }
  uint64_t alloc(uint32_t size, uint8_t kind) {
    uint64_t id = next++; size_t k = id >> 6;
    while (ch.size() <= k) { Chunk *c = new Chunk; memset(c->o, 0, sizeof c->o); ch.push_back(c); }
    Obj *o = new Obj; o->rc = 1; o->size = size; o->kind = kind; o->d.assign(size, 0xAA);
    wch(k)->o[id & 63] = o;
    return id;
  }
  void free(uint64_t id) { Chunk *c = wch(id >> 6); Obj *&p = c->o[id & 63]; if (p) { if (--p->rc == 0) delete p; p = nullptr; } }
};

struct State {
  Mem mem; std::vector<Frame *> st;
  std::vector<Dom> dom; std::vector<std::vector<E>> single; std::vector<E> multi;
  std::vector<uint8_t> model; uint64_t mm0 = 0, mm1 = 0; // symbols in multi constraints
  unsigned nsym = 0; long steps = 0; int depth = 0; long heapLive = 0;
  std::vector<RVal> obs; std::set<std::string> covers;
  std::vector<std::vector<uint64_t>> tls; // saved contents of the thread-local variables
  State() {}
  State(const State &o) : mem(o.mem), st(o.st), dom(o.dom), single(o.single), multi(o.multi), model(o.model), mm0(o.mm0), mm1(o.mm1),
    nsym(o.nsym), steps(o.steps), depth(o.depth), heapLive(o.heapLive), obs(o.obs), covers(o.covers), tls(o.tls) { for (auto f : st) f->rc++; }
  ~State() { for (auto f : st) if (--f->rc == 0) delete f; }
  Frame *top() { Frame *&f = st.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return f; }
};
static std::vector<State *> work;

// ---------------------------------------------------------------- solver
static Z3_context zctx; static Z3_solver zsol;
static void zerr(Z3_context, Z3_error_code e) { fprintf(stderr, "z3 error %d\n", e); }
static void zinit() {
  Z3_config cfg = Z3_mk_config(); zctx = Z3_mk_context(cfg); Z3_set_error_handler(zctx, zerr);
  zsol = Z3_mk_solver(zctx); Z3_solver_inc_ref(zctx, zsol);
  Z3_params p = Z3_mk_params(zctx); Z3_params_inc_ref(zctx, p);
  Z3_params_set_uint(zctx, p, Z3_mk_string_symbol(zctx, "timeout"), 60000);
  Z3_solver_set_params(zctx, zsol, p);
}
static bool has(const State &, E e, int s) { return s < 64 ? (e->m0 >> s) & 1 : (e->m1 >> (s - 64)) & 1; }
static bool symIn(uint64_t m0, uint64_t m1, int s) { return s < 64 ? (m0 >> s) & 1 : (m1 >> (s - 64)) & 1; }

// ask z3: slice(PC) /\ e. returns 1 sat (model filled) 0 unsat -1 unknown
static int z3query(State &s, E e, uint8_t *model) {
  static std::unordered_map<uint64_t, std::pair<int, std::vector<uint8_t>>> cache;
  uint64_t m0 = e->m0, m1 = e->m1; bool ch = true;
  std::vector<char> in(s.multi.size(), 0); std::vector<E> cs;
  while (ch) { ch = false; for (size_t i = 0; i < s.multi.size(); i++) if (!in[i] && ((s.multi[i]->m0 & m0) || (s.multi[i]->m1 & m1))) {
    in[i] = 1; m0 |= s.multi[i]->m0; m1 |= s.multi[i]->m1; cs.push_back(s.multi[i]); ch = true; } }
  for (unsigned k = 0; k < s.nsym; k++) if (symIn(m0, m1, k)) for (E x : s.single[k]) cs.push_back(x);
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  uint64_t h = e->id * 0x9E3779B97F4A7C15ULL + 1; for (E x : cs) { h ^= x->id + 0x9e3779b9 + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; }
  auto it = cache.find(h);
  if (it != cache.end()) { if (it->second.first == 1) for (unsigned k = 0; k < s.nsym; k++) if (symIn(m0, m1, k) && k < it->second.second.size()) model[k] = it->second.second[k]; 
    if (it->second.first != 1 || evalE(e, model)) return it->second.first; }
  double t = now();
  Z3_solver_push(zctx, zsol);
  Z3_ast one = Z3_mk_unsigned_int64(zctx, 1, Z3_mk_bv_sort(zctx, 1));
  for (E x : cs) Z3_solver_assert(zctx, zsol, Z3_mk_eq(zctx, toZ3(zctx, x), one));
  Z3_solver_assert(zctx, zsol, Z3_mk_eq(zctx, toZ3(zctx, e), one));
  Z3_lbool r = Z3_solver_check(zctx, zsol);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if ((res < 0 || now() - t > 1) && getenv("VSE_DUMP")) { FILE *f = fopen(getenv("VSE_DUMP"), "a"); fprintf(f, "%s\n(check-sat)\n;----\n", Z3_solver_to_string(zctx, zsol)); fclose(f); }
  if (res == 1) {
    Z3_model mo = Z3_solver_get_model(zctx, zsol); Z3_model_inc_ref(zctx, mo);
    for (unsigned k = 0; k < s.nsym; k++) if (symIn(m0, m1, k)) {
      Z3_ast v; if (Z3_model_eval(zctx, mo, toZ3(zctx, mkSym(k)), true, &v)) { uint64_t u; if (Z3_get_numeral_uint64(zctx, v, &u)) model[k] = (uint8_t)u; } }
    Z3_model_dec_ref(zctx, mo);
  }
  Z3_solver_pop(zctx, zsol, 1);
  SH->z3q++; SH->z3us += (long)((now() - t) * 1e6); if (res == 1) SH->z3sat++; else if (!res) SH->z3unsat++; else SH->z3unk++;
  if (res >= 0) cache[h] = {res, std::vector<uint8_t>(model, model + s.nsym)};
  return res;
}
static bool modelOk(State &s, E e, const uint8_t *m) {
  if (!evalE(e, m)) return false;
  for (E x : s.multi) if (!evalE(x, m)) return false;
  for (unsigned k = 0; k < s.nsym; k++) if (!s.dom[k][m[k]]) return false;
  return true;
}
// may e (width 1, not constant) be true under the path condition?
static int mayBeTrue(State &s, E e, std::vector<uint8_t> &model) {
  SH->queries++;
  model = s.model;
  if (isC(e)) return e->c & 1;
  if (evalE(e, s.model.data())) { SH->fast++; return 1; }
  if (e->nsym == 1) {
    int k = soleSym(e);
    Dom cand = s.dom[k] & domOf(e);
    if (cand.none()) {
      SH->domq++;
      if (XCHECK) { SH->xcheck++; std::vector<uint8_t> m2 = s.model; if (z3query(s, e, m2.data()) != 0) SH->xbad++; }
      return 0;
    }
    if (!symIn(s.mm0, s.mm1, k)) { SH->domq++; model[k] = cand._Find_first(); return 1; }
    std::vector<E> rel; for (E x : s.multi) if (has(s, x, k)) rel.push_back(x);
    for (int v = cand._Find_first(); v < 256; v = cand._Find_next(v)) {
      model[k] = v; bool ok = true; for (E x : rel) if (!evalE(x, model.data())) { ok = false; break; }
      if (ok) { SH->domq++; return 1; }
    }
    model = s.model;
  }
  int r = z3query(s, e, model.data());
  if (r == 1 && !modelOk(s, e, model.data())) { if (getenv("VSE_DUMP")) { FILE *f = fopen(getenv("VSE_DUMP"), "a"); fprintf(f, "REJECTED e=%d\n%s\n", (int)evalE(e, model.data()), Z3_ast_to_string(zctx, toZ3(zctx, e))); for (E x : s.multi) if (!evalE(x, model.data())) fprintf(f, "C %s\n", Z3_ast_to_string(zctx, toZ3(zctx, x))); for (unsigned k = 0; k < s.nsym; k++) fprintf(f, "%d ", model[k]); fprintf(f, "\n"); fclose(f); } SH->incomplete++; emit("{\"t\":\"unsup\",\"msg\":\"solver model rejected by evaluator\"}"); return -1; }
  return r;
}
static void addCons(State &s, E e) {
  if (isC(e)) return;
  if (e->op == O_AND && e->w == 1) { addCons(s, e->a); addCons(s, e->b); return; }
  if (e->nsym == 1) { int k = soleSym(e); s.dom[k] &= domOf(e);
    for (E x : s.single[k]) if (x == e) return; s.single[k].push_back(e); return; }
  for (E x : s.multi) if (x == e) return;
  s.multi.push_back(e); s.mm0 |= e->m0; s.mm1 |= e->m1;
}

// ---------------------------------------------------------------- code
struct Opd { int slot = -1; RVal k; };
struct Edge { int bb; std::vector<std::pair<int, Opd>> phi; };
enum IOp : uint8_t { I_BIN, I_ICMP, I_FCMP, I_BR, I_CBR, I_SWITCH, I_RET, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_CAST, I_SELECT, I_CALL, I_BUILTIN, I_ICALL,
  I_UNREACH, I_EXTRACTV, I_INSERTV, I_COPY, I_FNEG, I_UNSUP, I_NOP };
struct DI {
  IOp op; uint8_t w = 0, aw = 0, sub = 0; int dst = -1; std::vector<Opd> o; std::vector<Edge> ed; std::vector<uint64_t> cases;
  std::vector<uint64_t> sc; uint64_t off = 0; Func *callee = nullptr; int bi = 0; const Instruction *I = nullptr; const Type *ty = nullptr;
  std::vector<uint32_t> byval; bool vararg = false; bool ptr = false;
};
struct Func { const Function *F = nullptr; bool ready = false; int nslots = 0; std::vector<std::vector<DI>> bbs; std::string name; uint64_t addr = 0; bool hasBody = false; bool va = false; };
static Module *M; static const DataLayout *DL; static bool isWin = false;
static std::unordered_map<const Function *, Func *> funcs; static std::vector<Func *> funcByIdx;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static const uint64_t FBASE = 0x7E00000000000000ULL;
static std::unordered_map<std::string, int> builtins;
static std::vector<std::pair<uint64_t, std::vector<uint8_t>>> tlsInit; // object id, initial bytes

static bool isAggTy(const Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned tw(const Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return DL->getPointerSizeInBits();
  if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  return 0;
}
static RVal mkAgg(Agg *a) { RVal r; r.c = (uint64_t)a; return r; }
static uint64_t faddr(const Function *F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second->addr;
  Func *f = new Func; f->F = F; f->name = F->getName().str(); f->hasBody = !F->isDeclaration(); f->va = F->isVarArg();
  f->addr = FBASE | (funcByIdx.size() << 4); funcs[F] = f; funcByIdx.push_back(f);
  return f->addr;
}
static std::string uns; // reason when constant not supported
static RVal constVal(const Constant *C) {
  if (auto *x = dyn_cast<ConstantInt>(C)) { if (x->getBitWidth() > 64) { uns = "wide int"; return RVal(0); } return RVal(x->getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return RVal((uint64_t)0);
  if (auto *x = dyn_cast<ConstantFP>(C)) {
    if (x->getType()->isDoubleTy() || x->getType()->isFloatTy()) return RVal(x->getValueAPF().bitcastToAPInt().getZExtValue());
    uns = "fp type"; return RVal(0); }
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
    if (isAggTy(C->getType())) {
      Agg *a = new Agg; Type *t = C->getType();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : 0;
      for (unsigned i = 0; i < n; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        a->v.push_back(constVal(isa<UndefValue>(C) ? (Constant *)UndefValue::get(et) : Constant::getNullValue(et))); }
      return mkAgg(a);
    }
    if (isa<UndefValue>(C)) return RVal(0xAAAAAAAAAAAAAAAAULL & maskw(tw(C->getType())));
    return RVal((uint64_t)0);
  }
  if (auto *f = dyn_cast<Function>(C)) return RVal(faddr(f));
  if (auto *g = dyn_cast<GlobalVariable>(C)) return RVal(gaddr[g]);
  if (auto *a = dyn_cast<GlobalAlias>(C)) return constVal(a->getAliasee());
  if (auto *a = dyn_cast<ConstantStruct>(C)) { Agg *g = new Agg; for (auto &o : a->operands()) g->v.push_back(constVal(cast<Constant>(o))); return mkAgg(g); }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    auto op = [&](unsigned i) { return constVal(ce->getOperand(i)).c; };
    unsigned w = tw(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return RVal((op(0) + off.getSExtValue()) & maskw(w)); break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return RVal(op(0) & maskw(w));
    case Instruction::ZExt: return RVal(op(0));
    case Instruction::SExt: return RVal((uint64_t)sx(op(0), tw(ce->getOperand(0)->getType())) & maskw(w));
    case Instruction::Sub: return RVal((op(0) - op(1)) & maskw(w));
    case Instruction::Add: return RVal((op(0) + op(1)) & maskw(w));
    case Instruction::Mul: return RVal((op(0) * op(1)) & maskw(w));
    case Instruction::And: return RVal(op(0) & op(1));
    case Instruction::ICmp: { uint64_t a = op(0), b = op(1); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return RVal((uint64_t)(a == b)); case CmpInst::ICMP_NE: return RVal((uint64_t)(a != b)); default: break; } break; }
    default: break;
    }
  }
  uns = "constant"; return RVal((uint64_t)0);
}
static void initMem(Obj *o, uint64_t off, const Constant *C) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset(o->d.data() + off, 0, DL->getTypeAllocSize(t)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = cd->getRawDataValues(); memcpy(o->d.data() + off, raw.data(), raw.size()); return; }
  if (auto *a = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(o, off + i * es, a->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantStruct>(C)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), a->getOperand(i)); return; }
  if (auto *x = dyn_cast<ConstantFP>(C)) if (x->getType()->isX86_FP80Ty()) { APInt v = x->getValueAPF().bitcastToAPInt(); memcpy(o->d.data() + off, v.getRawData(), 10); return; }
  RVal v = constVal(C); memcpy(o->d.data() + off, &v.c, DL->getTypeStoreSize(t));
}

enum Bi { B_NONE, B_U8, B_ASSUME, B_CHECK, B_COVER, B_CONCR, B_HEAPLIVE, B_OBSERVE, B_END, B_FAIL, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET,
  B_ABORT, B_NOP0, B_VASTART, B_VACOPY, B_ABS, B_SMAX, B_SMIN, B_UMAX, B_UMIN, B_EXPECT, B_TRAP, B_OBJSIZE, B_ISCONST, B_BSWAP, B_CTPOP, B_CTLZ, B_CTTZ, B_FSHL, B_FSHR,
  B_FABS, B_FLOOR, B_CEIL, B_FMULADD, B_SQRT, B_MATH1, B_MATH2, B_SADDO, B_SSUBO, B_SMULO, B_UADDO, B_USUBO, B_UMULO, B_STACKSAVE, B_ISSYM, B_OBJLEFT, B_LAUNDER, B_FRND, B_TLSPUSH, B_TLSPOP, B_THREXIT, B_KNOWN };
static void initBuiltins() {
  auto &b = builtins;
  b["vf_u8"] = B_U8; b["vf_assume"] = B_ASSUME; b["vf_check_"] = B_CHECK; b["vf_cover_"] = B_COVER; b["vf_concrete"] = B_CONCR; b["vf_heap_live"] = B_HEAPLIVE;
  b["vf_observe"] = B_OBSERVE; b["vf_end"] = B_END; b["vf_fail_"] = B_FAIL; b["vf_is_sym"] = B_ISSYM; b["vf_obj_left"] = B_OBJLEFT; b["vf_tls_push"] = B_TLSPUSH; b["vf_tls_pop"] = B_TLSPOP; b["vf_known_"] = B_KNOWN;
  b["malloc"] = B_MALLOC; b["calloc"] = B_CALLOC; b["realloc"] = B_REALLOC; b["free"] = B_FREE; b["pthread_exit"] = B_THREXIT; b["abort"] = B_ABORT;
  b["memcpy"] = B_MEMCPY; b["memmove"] = B_MEMCPY; b["memset"] = B_MEMSET;
  for (const char *n : {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "log10", "log2", "sqrt", "floor", "ceil", "fabs", "round", "trunc", "rint", "erf"}) b[n] = B_MATH1;
  for (const char *n : {"pow", "fmod", "atan2"}) b[n] = B_MATH2;
}
static int intrin(const Function *F) {
  StringRef n = F->getName();
  auto sw = [&](const char *p) { return n.starts_with(p); };
  if (sw("llvm.memcpy") || sw("llvm.memmove")) return B_MEMCPY;
  if (sw("llvm.memset")) return B_MEMSET;
  if (sw("llvm.lifetime") || sw("llvm.dbg") || sw("llvm.va_end") || sw("llvm.stackrestore") || sw("llvm.assume") || sw("llvm.donothing") || sw("llvm.experimental.noalias") || sw("llvm.prefetch") || sw("llvm.invariant")) return B_NOP0;
  if (sw("llvm.stacksave")) return B_STACKSAVE;
  if (sw("llvm.va_start")) return B_VASTART; if (sw("llvm.va_copy")) return B_VACOPY;
  if (sw("llvm.abs")) return B_ABS; if (sw("llvm.smax")) return B_SMAX; if (sw("llvm.smin")) return B_SMIN; if (sw("llvm.umax")) return B_UMAX; if (sw("llvm.umin")) return B_UMIN;
  if (sw("llvm.expect")) return B_EXPECT; if (sw("llvm.trap") || sw("llvm.ubsantrap")) return B_TRAP;
  if (sw("llvm.objectsize")) return B_OBJSIZE; if (sw("llvm.is.constant")) return B_ISCONST;
  if (sw("llvm.threadlocal.address") || sw("llvm.launder") || sw("llvm.strip") || sw("llvm.ptr.annotation")) return B_LAUNDER;
  if (sw("llvm.bswap")) return B_BSWAP; if (sw("llvm.ctpop")) return B_CTPOP; if (sw("llvm.ctlz")) return B_CTLZ; if (sw("llvm.cttz")) return B_CTTZ;
  if (sw("llvm.fshl")) return B_FSHL; if (sw("llvm.fshr")) return B_FSHR; if (sw("llvm.fabs")) return B_FABS; if (sw("llvm.floor") || sw("llvm.ceil") || sw("llvm.round") || sw("llvm.trunc") || sw("llvm.rint")) return B_FRND;
  if (sw("llvm.fmuladd")) return B_FMULADD; if (sw("llvm.sqrt")) return B_SQRT;
  if (sw("llvm.sadd.with")) return B_SADDO; if (sw("llvm.ssub.with")) return B_SSUBO; if (sw("llvm.smul.with")) return B_SMULO;
  if (sw("llvm.uadd.with")) return B_UADDO; if (sw("llvm.usub.with")) return B_USUBO; if (sw("llvm.umul.with")) return B_UMULO;
  return -1;
}

static void decode(Func *f) {
  f->ready = true;
  std::unordered_map<const Value *, int> slot; int n = 0;
  for (auto &a : f->F->args()) slot[&a] = n++;
  std::unordered_map<const BasicBlock *, int> bbi; int nb = 0;
  for (auto &B : *f->F) { bbi[&B] = nb++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  f->nslots = n;
  auto opd = [&](const Value *v) { Opd o; auto it = slot.find(v); if (it != slot.end()) o.slot = it->second; else if (auto *c = dyn_cast<Constant>(v)) o.k = constVal(c); else { uns = "operand"; } return o; };
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.bb = bbi[to]; for (auto &I : *to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; e.phi.push_back({slot[p], opd(p->getIncomingValueForBlock(from))}); } return e; };
  f->bbs.resize(nb); nb = 0;
  for (auto &B : *f->F) {
    auto &out = f->bbs[nb++];
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      uns.clear(); DI d; d.I = &I; d.op = I_UNSUP; if (!I.getType()->isVoidTy()) d.dst = slot[&I];
      d.w = tw(I.getType()); d.ty = I.getType();
      if (I.getNumOperands() && !isa<CallBase>(I)) d.aw = tw(I.getOperand(0)->getType());
      if (isa<AllocaInst>(I)) { auto &A = cast<AllocaInst>(I); d.op = I_ALLOCA; d.off = DL->getTypeAllocSize(A.getAllocatedType()); d.o.push_back(opd(A.getArraySize())); }
      else if (isa<LoadInst>(I)) { d.op = I_LOAD; d.o.push_back(opd(I.getOperand(0))); d.off = DL->getTypeStoreSize(I.getType()); if (!d.w && !isAggTy(I.getType())) d.op = I_UNSUP; }
      else if (isa<StoreInst>(I)) { d.op = I_STORE; d.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; d.ty = I.getOperand(0)->getType(); d.w = tw(d.ty); d.off = DL->getTypeStoreSize(const_cast<Type *>(d.ty)); if (!d.w && !isAggTy(d.ty)) d.op = I_UNSUP; }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        d.op = I_GEP; d.o.push_back(opd(G->getPointerOperand())); d.w = 64;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *idx = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(idx)) d.off += ci->getSExtValue() * es;
          else { d.o.push_back(opd(idx)); d.sc.push_back(es); d.cases.push_back(tw(idx->getType())); }
        }
        d.w = DL->getPointerSizeInBits();
      }
      else if (isa<BinaryOperator>(I)) {
        d.op = I_BIN; d.o = {opd(I.getOperand(0)), opd(I.getOperand(1))};
        switch (I.getOpcode()) {
        case Instruction::Add: d.sub = O_ADD; break; case Instruction::Sub: d.sub = O_SUB; break; case Instruction::Mul: d.sub = O_MUL; break;
        case Instruction::UDiv: d.sub = O_UDIV; break; case Instruction::SDiv: d.sub = O_SDIV; break; case Instruction::URem: d.sub = O_UREM; break; case Instruction::SRem: d.sub = O_SREM; break;
        case Instruction::And: d.sub = O_AND; break; case Instruction::Or: d.sub = O_OR; break; case Instruction::Xor: d.sub = O_XOR; break;
        case Instruction::Shl: d.sub = O_SHL; break; case Instruction::LShr: d.sub = O_LSHR; break; case Instruction::AShr: d.sub = O_ASHR; break;
        case Instruction::FAdd: d.sub = O_FADD; break; case Instruction::FSub: d.sub = O_FSUB; break; case Instruction::FMul: d.sub = O_FMUL; break; case Instruction::FDiv: d.sub = O_FDIV; break;
        default: d.op = I_UNSUP;
        }
        if (!d.w || d.w > 64) d.op = I_UNSUP;
      }
      else if (I.getOpcode() == Instruction::FNeg) { d.op = I_FNEG; d.o = {opd(I.getOperand(0))}; }
      else if (auto *c = dyn_cast<ICmpInst>(&I)) { d.op = I_ICMP; d.sub = c->getPredicate(); d.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; if (!d.aw) d.op = I_UNSUP; }
      else if (auto *c = dyn_cast<FCmpInst>(&I)) { d.op = I_FCMP; d.sub = c->getPredicate(); d.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; }
      else if (auto *c = dyn_cast<CastInst>(&I)) {
        d.op = I_CAST; d.o = {opd(I.getOperand(0))};
        switch (c->getOpcode()) {
        case Instruction::Trunc: d.sub = O_EXTRACT; break; case Instruction::ZExt: d.sub = O_ZEXT; break; case Instruction::SExt: d.sub = O_SEXT; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: d.sub = d.w > d.aw ? O_ZEXT : O_EXTRACT; break;
        case Instruction::BitCast: d.op = I_COPY; break;
        case Instruction::SIToFP: d.sub = O_SITOFP; break; case Instruction::UIToFP: d.sub = O_UITOFP; break; case Instruction::FPToSI: d.sub = O_FPTOSI; break; case Instruction::FPToUI: d.sub = O_FPTOUI; break;
        case Instruction::FPExt: d.sub = O_FPEXT; break; case Instruction::FPTrunc: d.sub = O_FPTRUNC; break;
        default: d.op = I_UNSUP;
        }
        if (!d.w || !d.aw) d.op = I_UNSUP;
      }
      else if (isa<SelectInst>(I)) { d.op = I_SELECT; d.o = {opd(I.getOperand(0)), opd(I.getOperand(1)), opd(I.getOperand(2))}; d.ptr = I.getType()->isPointerTy(); }
      else if (isa<FreezeInst>(I)) { d.op = I_COPY; d.o = {opd(I.getOperand(0))}; }
      else if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) { d.op = I_CBR; d.o = {opd(b->getCondition())}; d.ed = {edge(&B, b->getSuccessor(0)), edge(&B, b->getSuccessor(1))}; }
        else { d.op = I_BR; d.ed = {edge(&B, b->getSuccessor(0))}; }
      }
      else if (auto *s = dyn_cast<SwitchInst>(&I)) {
        d.op = I_SWITCH; d.o = {opd(s->getCondition())}; d.aw = tw(s->getCondition()->getType()); d.ed.push_back(edge(&B, s->getDefaultDest()));
        for (auto &c : s->cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); d.ed.push_back(edge(&B, c.getCaseSuccessor())); }
      }
      else if (auto *r = dyn_cast<ReturnInst>(&I)) { d.op = I_RET; if (r->getReturnValue()) d.o = {opd(r->getReturnValue())}; }
      else if (isa<UnreachableInst>(I)) d.op = I_UNREACH;
      else if (auto *x = dyn_cast<ExtractValueInst>(&I)) { d.op = I_EXTRACTV; d.o = {opd(I.getOperand(0))}; for (auto i : x->indices()) d.cases.push_back(i); }
      else if (auto *x = dyn_cast<InsertValueInst>(&I)) { d.op = I_INSERTV; d.o = {opd(I.getOperand(0)), opd(I.getOperand(1))}; for (auto i : x->indices()) d.cases.push_back(i); }
      else if (auto *c = dyn_cast<CallBase>(&I)) {
        const Value *cv = c->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        for (unsigned i = 0; i < c->arg_size(); i++) {
          if (c->getArgOperand(i)->getType()->isMetadataTy()) { d.o.push_back(Opd()); d.byval.push_back(0); d.sc.push_back(0); continue; }
          d.o.push_back(opd(c->getArgOperand(i))); d.sc.push_back(tw(c->getArgOperand(i)->getType()));
          d.byval.push_back(c->isByValArgument(i) ? DL->getTypeAllocSize(c->getParamByValType(i)) : 0);
        }
        if (auto *F = dyn_cast<Function>(cv)) {
          int k = F->isIntrinsic() ? intrin(F) : 0;
          if (!F->isIntrinsic()) { auto it = builtins.find(F->getName().str()); if (it != builtins.end() && (F->isDeclaration() || it->second < B_MALLOC)) k = it->second; }
          if (k > 0) { d.op = k == B_NOP0 ? I_NOP : I_BUILTIN; d.bi = k; if (k == B_NOP0) uns.clear(); }
          else if (k == 0) { d.op = I_CALL; faddr(F); d.callee = funcs[F]; }
        } else if (isa<InlineAsm>(cv)) { d.op = I_NOP; if (d.dst >= 0) d.op = I_UNSUP; }
        else { d.op = I_ICALL; d.o.push_back(opd(c->getCalledOperand())); }
      }
      if (!uns.empty()) d.op = I_UNSUP;
      out.push_back(std::move(d));
    }
  }
}

// ---------------------------------------------------------------- execution
static State *S; // the running state
static bool dead; // the running path ended
static bool refork; // re-execute current instruction later (unused)

static std::string where(State &s) {
  std::string r; int k = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && k < 6; i--, k++) {
    Frame *f = s.st[i]; const DI *d = nullptr; int ip = f->ip; if (i != (int)s.st.size() - 1) ip = f->ip > 0 ? f->ip - 1 : 0;
    if (f->bb < (int)f->f->bbs.size() && ip < (int)f->f->bbs[f->bb].size()) d = &f->f->bbs[f->bb][ip];
    if (k) r += " < ";
    r += f->f->name;
    if (d && d->I) if (auto &L = d->I->getDebugLoc()) { r += "@"; StringRef fn = L->getFilename(); auto p = fn.rfind('/'); r += (p == StringRef::npos ? fn : fn.substr(p + 1)).str(); r += ":" + std::to_string(L.getLine()); }
  }
  return r;
}
static std::string bytes(const std::vector<uint8_t> &m, unsigned n) { std::string r = "["; for (unsigned i = 0; i < n; i++) { if (i) r += ","; r += std::to_string(m[i]); } return r + "]"; }
static void report(const char *kind, const std::string &msg, const std::vector<uint8_t> &model) {
  static std::set<std::string> seen;
  std::string w = where(*S), key = std::string(kind) + msg + w;
  if (!seen.insert(key).second && KEEP) return;
  long n = ++SH->viols;
  if (n <= 200) emit("{\"t\":\"viol\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(w) + ",\"in\":" + bytes(model, S->nsym) + "}");
  if (n >= (KEEP ? 40 : 12)) SH->stop = 1;
}
static void kill() { dead = true; }
static void unsup(const std::string &m) {
  SH->incomplete++; static std::set<std::string> seen;
  if (seen.insert(m).second) emit("{\"t\":\"unsup\",\"msg\":" + jstr(m + " at " + where(*S)) + ",\"in\":" + bytes(S->model, S->nsym) + "}");
  kill();
}
static void error(const char *kind, const std::string &m) { report(kind, m, S->model); kill(); }

static inline RVal val(Frame *f, const Opd &o) { return o.slot >= 0 ? f->regs[o.slot] : o.k; }
static inline E ex(const RVal &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static uint64_t evalR(const RVal &v) { return v.e ? evalE(v.e, S->model.data()) : v.c; }

// split on cond: the running state continues with cond true, a copy (which
// will execute the current instruction again) gets not(cond). The model must
// satisfy cond.
static void splitOn(E cond) {
  if (isC(cond)) return;
  std::vector<uint8_t> m; E n = mkNot(cond);
  int r = mayBeTrue(*S, n, m);
  if (r == 0) return;
  if (r < 0) { SH->incomplete++; addCons(*S, cond); return; }
  State *o = new State(*S); SH->forks++;
  addCons(*o, n); o->model = m; o->depth++; work.push_back(o);
  addCons(*S, cond); S->depth++;
}
static uint64_t conc(const RVal &v, unsigned w) {
  if (!v.e) return v.c;
  uint64_t x = evalE(v.e, S->model.data());
  splitOn(mkEq(v.e, mkConst(v.e->w, x)));
  return x;
}
// resolve an access of n bytes; returns object or null (path killed)
static Obj *access(uint64_t a, uint64_t n, bool wr, const char *what) {
  uint64_t id = a >> 24, off = a & 0xFFFFFF;
  Obj *o = S->mem.get(id);
  if (!o) {
    if (a < (1 << 24)) error("memory", std::string("null pointer ") + what);
    else if (id < S->mem.next) error("memory", std::string("use of freed or dead object in ") + what);
    else error("memory", std::string("wild pointer ") + what);
    return nullptr;
  }
  if (off + n > o->size) { error("memory", std::string("out of bounds ") + what + " (" + (o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes)"); return nullptr; }
  if (wr && o->ro) { error("memory", std::string("write to constant in ") + what); return nullptr; }
  return o;
}
static RVal readObj(Obj *o, uint64_t off, unsigned n, unsigned w) {
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { uint64_t v = 0; memcpy(&v, o->d.data() + off, n); return RVal(v & maskw(w)); }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E b = o->s[off + i] ? o->s[off + i] : mkConst(8, o->d[off + i]); r = r ? mkConcat(b, r) : b; }
  if (r->w > w) r = mkExtract(r, 0, w);
  return RVal(r);
}
static void writeObj(Obj *o, uint64_t off, unsigned n, unsigned w, const RVal &v) {
  if (!v.e) { uint64_t x = v.c & maskw(w); memcpy(o->d.data() + off, &x, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  E e = w < n * 8 ? mkZext(v.e, n * 8) : v.e;
  for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (isC(b)) { o->s[off + i] = nullptr; o->d[off + i] = (uint8_t)b->c; } else { o->s[off + i] = b; o->d[off + i] = 0; } }
}
static bool boundsSplit(E a, uint64_t n) { // split off the out-of-bounds inputs of the object the model points to
  uint64_t v = evalE(a, S->model.data()); Obj *o = S->mem.get(v >> 24);
  if (!o || (v & 0xFFFFFF) + n > o->size) { conc(RVal(a), 64); return false; }
  uint64_t base = v & ~0xFFFFFFULL;
  E in = mkOp(O_ULE, 1, mkOp(O_SUB, a->w, a, mkConst(a->w, base)), mkConst(a->w, o->size - n));
  splitOn(in);
  return true;
}
static RVal loadMem(const RVal &p, unsigned n, unsigned w) {
  if (!p.e) { Obj *o = access(p.c, n, false, "read"); if (!o) return RVal(); return readObj(o, p.c & 0xFFFFFF, n, w); }
  if (boundsSplit(p.e, n) && p.e->nsym == 1) {
    uint64_t v = evalE(p.e, S->model.data()); Obj *o = S->mem.get(v >> 24);
    // table look-up: enumerate the feasible addresses exactly, merge equal values
    int k = soleSym(p.e); std::vector<uint8_t> m = S->model; std::map<uint64_t, std::vector<int>> by; bool ok = true; std::map<uint64_t, E> sv;
    for (int x = 0; x < 256 && ok; x++) if (S->dom[k][x]) {
      m[k] = x; uint64_t a = evalE(p.e, m.data());
      if ((a >> 24) != (v >> 24) || (a & 0xFFFFFF) + n > o->size) { continue; } // excluded by splitOn above
      RVal r = readObj(o, a & 0xFFFFFF, n, w); if (r.e) ok = false; else by[r.c].push_back(x);
    }
    if (ok && by.size() == 1) return RVal(by.begin()->first);
    if (ok && by.size() <= 64) {
      uint64_t best = 0; size_t bn = 0; for (auto &q : by) if (q.second.size() > bn) { bn = q.second.size(); best = q.first; }
      E r = mkConst(w, best); E sy = mkSym(k);
      for (auto &q : by) if (q.first != best) {
        E c = mkConst(1, 0);
        for (size_t i = 0; i < q.second.size();) { size_t j = i; while (j + 1 < q.second.size() && q.second[j + 1] == q.second[j] + 1) j++;
          E t = i == j ? mkEq(sy, mkConst(8, q.second[i])) : mkBoolAnd(mkOp(O_ULE, 1, mkConst(8, q.second[i]), sy), mkOp(O_ULE, 1, sy, mkConst(8, q.second[j])));
          c = mkBoolOr(c, t); i = j + 1; }
        r = mkIte(c, mkConst(w, q.first), r);
      }
      return RVal(r);
    }
  }
  uint64_t a = conc(p, 64);
  Obj *o = access(a, n, false, "read"); if (!o) return RVal();
  return readObj(o, a & 0xFFFFFF, n, w);
}
static void storeMem(const RVal &p, unsigned n, unsigned w, const RVal &v) {
  if (p.e) boundsSplit(p.e, n);
  uint64_t a = conc(p, 64);
  if (!access(a, n, true, "write")) return;
  writeObj(S->mem.getw(a >> 24), a & 0xFFFFFF, n, w, v);
}
static RVal loadAgg(uint64_t a, Type *t) {
  if (!isAggTy(t)) return loadMem(RVal(a), DL->getTypeStoreSize(t), tw(t));
  Agg *g = new Agg; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
  for (unsigned i = 0; i < n && !dead; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et); g->v.push_back(loadAgg(a + off, et)); }
  return mkAgg(g);
}
static void storeAgg(uint64_t a, Type *t, const RVal &v) {
  if (!isAggTy(t)) { storeMem(RVal(a), DL->getTypeStoreSize(t), tw(t), v); return; }
  Agg *g = (Agg *)v.c;
  for (unsigned i = 0; i < g->v.size() && !dead; i++) { Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et); storeAgg(a + off, et, g->v[i]); }
}

static E icmp(unsigned pred, E a, E b) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_UGT: return mkOp(O_ULT, 1, b, a); case CmpInst::ICMP_UGE: return mkOp(O_ULE, 1, b, a);
  case CmpInst::ICMP_ULT: return mkOp(O_ULT, 1, a, b); case CmpInst::ICMP_ULE: return mkOp(O_ULE, 1, a, b);
  case CmpInst::ICMP_SGT: return mkOp(O_SLT, 1, b, a); case CmpInst::ICMP_SGE: return mkOp(O_SLE, 1, b, a);
  case CmpInst::ICMP_SLT: return mkOp(O_SLT, 1, a, b); case CmpInst::ICMP_SLE: return mkOp(O_SLE, 1, a, b);
  } return nullptr;
}
static E fcmp(unsigned p, E a, E b) {
  E uno = mkOp(O_FUNO, 1, a, b); auto oeq = [&] { return mkOp(O_FOEQ, 1, a, b); };
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkConst(1, 0); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
  case CmpInst::FCMP_OEQ: return oeq(); case CmpInst::FCMP_UNE: return mkNot(oeq());
  case CmpInst::FCMP_ONE: return mkBoolAnd(mkNot(oeq()), mkNot(uno)); case CmpInst::FCMP_UEQ: return mkBoolOr(oeq(), uno);
  case CmpInst::FCMP_OLT: return mkOp(O_FOLT, 1, a, b); case CmpInst::FCMP_OGT: return mkOp(O_FOLT, 1, b, a);
  case CmpInst::FCMP_OLE: return mkOp(O_FOLE, 1, a, b); case CmpInst::FCMP_OGE: return mkOp(O_FOLE, 1, b, a);
  case CmpInst::FCMP_UGE: return mkNot(mkOp(O_FOLT, 1, a, b)); case CmpInst::FCMP_ULE: return mkNot(mkOp(O_FOLT, 1, b, a));
  case CmpInst::FCMP_UGT: return mkNot(mkOp(O_FOLE, 1, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkOp(O_FOLE, 1, b, a));
  case CmpInst::FCMP_UNO: return uno; case CmpInst::FCMP_ORD: return mkNot(uno);
  } return nullptr;
}
static void jump(State *s, const Edge &e) {
  Frame *f = s->top();
  if (!e.phi.empty()) {
    static std::vector<RVal> tmp; tmp.clear();
    for (auto &p : e.phi) tmp.push_back(val(f, p.second));
    for (size_t i = 0; i < e.phi.size(); i++) f->regs[e.phi[i].first] = tmp[i];
  }
  f->bb = e.bb; f->ip = 0;
}
static uint64_t doMalloc(uint64_t n) {
  if (n > 8 * 1024 * 1024) return 0;
  S->heapLive++; SH->objs++;
  return S->mem.alloc((uint32_t)n, K_HEAP) << 24;
}
static bool doFree(uint64_t a) {
  if (!a) return true;
  Obj *o = S->mem.get(a >> 24);
  if (!o) { error("memory", "double free or invalid free"); return false; }
  if (o->kind != K_HEAP || (a & 0xFFFFFF)) { error("memory", "free of a pointer not from malloc"); return false; }
  S->mem.free(a >> 24); S->heapLive--;
  return true;
}
static std::string cstr(uint64_t a) { std::string r; Obj *o = S->mem.get(a >> 24); if (!o) return "?"; for (uint64_t i = a & 0xFFFFFF; i < o->size && o->d[i]; i++) r += (char)o->d[i]; return r; }
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return;
  Obj *so = access(s, n, false, "read (memory copy)"); if (!so) return;
  if (!access(d, n, true, "write (memory copy)")) return;
  Obj *w = S->mem.getw(d >> 24); so = S->mem.get(s >> 24);
  uint64_t so_ = s & 0xFFFFFF, do_ = d & 0xFFFFFF;
  memmove(w->d.data() + do_, so->d.data() + so_, n);
  if (!so->s.empty()) { std::vector<E> t(so->s.begin() + so_, so->s.begin() + so_ + n); if (w->s.empty()) w->s.assign(w->size, nullptr); std::copy(t.begin(), t.end(), w->s.begin() + do_); }
  else if (!w->s.empty()) for (uint64_t i = 0; i < n; i++) w->s[do_ + i] = nullptr;
}
static void pathEnd() {
  long n = ++SH->paths;
  for (auto &c : S->covers) { static std::set<std::string> seen; if (seen.insert(c).second) emit("{\"t\":\"cover\",\"label\":" + jstr(c) + "}"); }
  if (n <= 6 || (n & (n - 1)) == 0 || (n % 101 == 0 && n < 4000)) {
    std::string o = "["; for (size_t i = 0; i < S->obs.size(); i++) { if (i) o += ","; o += std::to_string(evalR(S->obs[i])); }
    emit("{\"t\":\"path\",\"in\":" + bytes(S->model, S->nsym) + ",\"obs\":" + o + "]}");
  }
  long mx = SH->maxsym; if ((long)S->nsym > mx) SH->maxsym = S->nsym;
  kill();
}
static void enter(Func *g, std::vector<RVal> &args, std::vector<uint64_t> &widths, const std::vector<uint32_t> &byval, int dst) {
  if (!g->hasBody) { unsup("call to unmodelled function " + g->name); return; }
  if (!g->ready) { decode(g); if (auto *sp = g->F->getSubprogram()) { StringRef fn = sp->getFilename(); emit("{\"t\":\"fn\",\"name\":" + jstr(fn.str() + ":" + g->name) + "}"); } }
  if (S->st.size() > 1500) { error("hang", "unbounded recursion"); return; }
  Frame *n = new Frame; n->f = g; n->regs.resize(g->nslots); n->dst = dst;
  size_t np = g->F->arg_size();
  for (size_t i = 0; i < np; i++) {
    RVal v = i < args.size() ? args[i] : RVal(0xAAAAAAAAAAAAAAAAULL);
    if (i < byval.size() && byval[i]) { uint64_t id = S->mem.alloc(byval[i], K_STACK); n->allocas.push_back(id); copyMem(id << 24, v.c, byval[i]); v = RVal(id << 24); }
    n->regs[i] = v;
  }
  if (g->va) {
    size_t k = args.size() > np ? args.size() - np : 0; uint64_t id = S->mem.alloc(k * 8 + 8, K_STACK); n->allocas.push_back(id); n->va = id << 24;
    Obj *o = S->mem.getw(id);
    for (size_t i = 0; i < k; i++) { unsigned w = widths[np + i] ? widths[np + i] : 64; writeObj(o, i * 8, 8, w, args[np + i]); }
  }
  S->st.push_back(n);
}

static bool symDiv(const RVal &b, unsigned w) { // returns false when the path died
  if (!b.e) { if (!b.c) { error("division", "division by zero"); return false; } return true; }
  E z = mkEq(b.e, mkConst(w, 0));
  if (evalE(z, S->model.data())) { splitOn(z); error("division", "division by zero"); return false; }
  splitOn(mkNot(z));
  return true;
}
static RVal binop(const DI &d, Op op, unsigned w, RVal a, RVal b) {
  if (!a.e && !b.e) return RVal(evalop(op, w, w, 0, a.c, b.c, 0, w));
  return RVal(mkOp(op, w, ex(a, w), ex(b, w)));
}

static void builtin(const DI &d, Frame *f) {
  auto A = [&](unsigned i) { return val(f, d.o[i]); };
  auto W = [&](unsigned i) { return (unsigned)d.sc[i]; };
  auto ret = [&](RVal v) { if (d.dst >= 0) S->top()->regs[d.dst] = v; };
  switch (d.bi) {
  case B_U8: {
    if (S->nsym >= MAXSYM) { unsup("too many symbolic bytes"); return; }
    unsigned i = S->nsym++; Dom all; all.set(); S->dom.push_back(all); S->single.emplace_back(); S->model.push_back(0);
    ret(RVal(mkSym(i))); return; }
  case B_ASSUME: {
    RVal v = A(0);
    if (!v.e) { if (!v.c) { SH->assumeKill++; kill(); } return; }
    E c = mkNot(mkEq(v.e, mkConst(v.e->w, 0)));
    std::vector<uint8_t> m; int r = mayBeTrue(*S, c, m);
    if (r < 0) { SH->incomplete++; kill(); return; }
    if (!r) { SH->assumeKill++; kill(); return; }
    S->model = m; addCons(*S, c); return; }
  case B_CHECK: {
    RVal v = A(0); SH->checks++;
    if (!v.e) { if (!v.c) error("check", cstr(A(1).c)); return; }
    E bad = mkEq(v.e, mkConst(v.e->w, 0));
    std::vector<uint8_t> m = S->model; SH->checkz3++;
    int r = isC(bad) ? (int)bad->c : z3query(*S, bad, m.data()); // always the SMT solver's verdict
    if (r == 1) { report("check", cstr(A(1).c), m);
      E ok = mkNot(bad); std::vector<uint8_t> m2; if (mayBeTrue(*S, ok, m2) != 1) { kill(); return; } S->model = m2; addCons(*S, ok); }
    else if (r < 0) { SH->incomplete++; emit("{\"t\":\"unsup\",\"msg\":\"solver gave no answer on a check\"}"); }
    return; }
  case B_COVER: S->covers.insert(cstr(A(0).c)); return;
  case B_CONCR: { uint64_t v = conc(A(0), W(0)); ret(RVal(v)); return; }
  case B_ISSYM: ret(RVal((uint64_t)(A(0).e != nullptr))); return;
  case B_HEAPLIVE: ret(RVal((uint64_t)S->heapLive)); return;
  case B_OBJLEFT: { uint64_t a = conc(A(0), 64); Obj *o = S->mem.get(a >> 24); ret(RVal(o && (a & 0xFFFFFF) <= o->size ? o->size - (a & 0xFFFFFF) : 0)); return; }
  case B_OBSERVE: S->obs.push_back(A(0)); return;
  case B_END: pathEnd(); return;
  case B_KNOWN: { static std::set<std::string> seen; std::string id = cstr(A(0).c); if (seen.insert(id).second) emit("{\"t\":\"known\",\"id\":" + jstr(id) + ",\"in\":" + bytes(S->model, S->nsym) + "}"); pathEnd(); return; }
  case B_TLSPUSH: { std::vector<uint64_t> sv;
    for (auto &t : tlsInit) { uint64_t id = S->mem.alloc((uint32_t)t.second.size(), K_GLOBAL); copyMem(id << 24, t.first << 24, t.second.size()); sv.push_back(id); Obj *o = S->mem.getw(t.first); o->d = t.second; o->s.clear(); }
    S->tls.push_back(sv); return; }
  case B_TLSPOP: { std::vector<uint64_t> sv = S->tls.back(); S->tls.pop_back();
    for (size_t i = 0; i < sv.size(); i++) { copyMem(tlsInit[i].first << 24, sv[i] << 24, tlsInit[i].second.size()); S->mem.free(sv[i]); } return; }
  case B_THREXIT: { uint64_t v = conc(A(0), 64);
    while (S->st.size() > 1 && S->st.back()->f->name != "pthread_create") { Frame *t = S->st.back(); for (uint64_t id : t->allocas) S->mem.free(id); int dst = t->dst; S->st.pop_back(); if (--t->rc == 0) delete t;
      if (S->st.back()->f->name == "pthread_create") { if (dst >= 0) S->top()->regs[dst] = RVal(v); S->top()->ip--; return; } }
    unsup("pthread_exit outside a thread"); return; }
  case B_FAIL: error("check", cstr(A(0).c)); return;
  case B_ABORT: case B_TRAP: error("abort", "abort() called"); return;
  case B_MALLOC: { uint64_t n = conc(A(0), W(0)); ret(RVal(doMalloc(n))); return; }
  case B_CALLOC: { uint64_t n = conc(A(0), W(0)), m = conc(A(1), W(1)); uint64_t p = doMalloc(n * m); if (p) { Obj *o = S->mem.getw(p >> 24); std::fill(o->d.begin(), o->d.end(), 0); } ret(RVal(p)); return; }
  case B_REALLOC: {
    uint64_t p = conc(A(0), 64), n = conc(A(1), W(1));
    if (!p) { ret(RVal(doMalloc(n))); return; }
    Obj *o = S->mem.get(p >> 24); if (!o || o->kind != K_HEAP || (p & 0xFFFFFF)) { error("memory", "realloc of an invalid pointer"); return; }
    uint64_t q = doMalloc(n); if (!q) { ret(RVal((uint64_t)0)); return; }
    copyMem(q, p, std::min<uint64_t>(n, S->mem.get(p >> 24)->size)); doFree(p); ret(RVal(q)); return; }
  case B_FREE: { uint64_t p = conc(A(0), 64); doFree(p); return; }
  case B_MEMCPY: { uint64_t n = conc(A(2), W(2)), s = conc(A(1), 64), t = conc(A(0), 64); copyMem(t, s, n); if (!dead) ret(RVal(t)); return; }
  case B_MEMSET: { uint64_t n = conc(A(2), W(2)), t = conc(A(0), 64); if (n) { if (!access(t, n, true, "write (memset)")) return;
      Obj *o = S->mem.getw(t >> 24); RVal v = A(1); if (v.e) v = RVal(mkExtract(v.e, 0, 8)); for (uint64_t i = 0; i < n; i++) writeObj(o, (t & 0xFFFFFF) + i, 1, 8, v); } ret(RVal(t)); return; }
  case B_VASTART: {
    uint64_t ap = conc(A(0), 64), va = f->va;
    if (isWin) { storeMem(RVal(ap), 8, 64, RVal(va)); return; }
    storeMem(RVal(ap), 4, 32, RVal(48)); storeMem(RVal(ap + 4), 4, 32, RVal(304)); storeMem(RVal(ap + 8), 8, 64, RVal(va)); storeMem(RVal(ap + 16), 8, 64, RVal((uint64_t)0)); return; }
  case B_VACOPY: copyMem(conc(A(0), 64), conc(A(1), 64), isWin ? 8 : 24); return;
  case B_EXPECT: case B_LAUNDER: ret(A(0)); return;
  case B_OBJSIZE: ret(RVal(maskw(d.w))); return;
  case B_ISCONST: ret(RVal((uint64_t)0)); return;
  case B_STACKSAVE: ret(RVal((uint64_t)0)); return;
  case B_ABS: { RVal a = A(0); unsigned w = W(0); E x = ex(a, w); ret(RVal(mkIte(mkOp(O_SLT, 1, x, mkConst(w, 0)), mkOp(O_SUB, w, mkConst(w, 0), x), x))); return; }
  case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: { unsigned w = W(0); E x = ex(A(0), w), y = ex(A(1), w); E lt = mkOp(d.bi == B_SMAX || d.bi == B_SMIN ? O_SLT : O_ULT, 1, x, y);
      ret(RVal(d.bi == B_SMAX || d.bi == B_UMAX ? mkIte(lt, y, x) : mkIte(lt, x, y))); return; }
  case B_BSWAP: { unsigned w = W(0); E x = ex(A(0), w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, i * 8, 8); r = r ? mkConcat(r, b) : b; } ret(RVal(r)); return; }
  case B_CTPOP: { unsigned w = W(0); E x = ex(A(0), w), r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkOp(O_ADD, w, r, mkZext(mkExtract(x, i, 1), w)); ret(RVal(r)); return; }
  case B_CTLZ: case B_CTTZ: { unsigned w = W(0); E x = ex(A(0), w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned k = d.bi == B_CTLZ ? i : w - 1 - i; r = mkIte(mkExtract(x, k, 1), mkConst(w, d.bi == B_CTLZ ? w - 1 - k : k), r); } ret(RVal(r)); return; }
  case B_FSHL: case B_FSHR: { unsigned w = W(0); uint64_t sft = conc(A(2), w) % w; E hi = ex(A(0), w), lo = ex(A(1), w); if (!sft) { ret(RVal(d.bi == B_FSHL ? hi : lo)); return; }
      uint64_t l = d.bi == B_FSHL ? sft : w - sft; ret(RVal(mkOp(O_OR, w, mkOp(O_SHL, w, hi, mkConst(w, l)), mkOp(O_LSHR, w, lo, mkConst(w, w - l))))); return; }
  case B_FABS: { unsigned w = W(0); ret(RVal(mkOp(O_AND, w, ex(A(0), w), mkConst(w, maskw(w) >> 1)))); return; }
  case B_FMULADD: { unsigned w = W(0); ret(RVal(mkOp(O_FADD, w, mkOp(O_FMUL, w, ex(A(0), w), ex(A(1), w)), ex(A(2), w)))); return; }
  case B_SADDO: case B_SSUBO: case B_SMULO: case B_UADDO: case B_USUBO: case B_UMULO: {
    unsigned w = W(0); if (w > 32) { RVal a = A(0), b = A(1); a.c = conc(a, w); a.e = nullptr; b.c = conc(b, w); b.e = nullptr; __int128 r; bool sg = d.bi <= B_SMULO;
      __int128 x = sg ? (__int128)sx(a.c, w) : (__int128)a.c, y = sg ? (__int128)sx(b.c, w) : (__int128)b.c;
      int k = (d.bi - B_SADDO) % 3; r = k == 0 ? x + y : k == 1 ? x - y : x * y; Agg *g = new Agg; uint64_t t = (uint64_t)r & maskw(w); g->v = {RVal(t), RVal((uint64_t)((sg ? (__int128)sx(t, w) : (__int128)t) != r))}; ret(mkAgg(g)); return; }
    bool sg = d.bi <= B_SMULO; E x = ex(A(0), w), y = ex(A(1), w); E X = sg ? mkSext(x, 64) : mkZext(x, 64), Y = sg ? mkSext(y, 64) : mkZext(y, 64);
    int k = (d.bi - B_SADDO) % 3; E r = mkOp(k == 0 ? O_ADD : k == 1 ? O_SUB : O_MUL, 64, X, Y); E t = mkExtract(r, 0, w); E bk = sg ? mkSext(t, 64) : mkZext(t, 64);
    Agg *g = new Agg; g->v = {RVal(t), RVal(mkNot(mkEq(bk, r)))}; ret(mkAgg(g)); return; }
  case B_SQRT: case B_FRND: case B_MATH1: {
    uint64_t x = conc(A(0), W(0)); std::string n = cast<CallBase>(d.I)->getCalledFunction()->getName().str();
    if (n.substr(0, 5) == "llvm.") { n = n.substr(5); n = n.substr(0, n.find('.')); }
    double v = W(0) == 64 ? asd(x) : asf(x), r;
    if (n == "sin") r = sin(v); else if (n == "cos") r = cos(v); else if (n == "tan") r = tan(v); else if (n == "asin") r = asin(v); else if (n == "acos") r = acos(v); else if (n == "atan") r = atan(v);
    else if (n == "sinh") r = sinh(v); else if (n == "cosh") r = cosh(v); else if (n == "tanh") r = tanh(v); else if (n == "asinh") r = asinh(v); else if (n == "acosh") r = acosh(v); else if (n == "atanh") r = atanh(v);
    else if (n == "exp") r = exp(v); else if (n == "log") r = log(v); else if (n == "log10") r = log10(v); else if (n == "log2") r = log2(v); else if (n == "sqrt") r = sqrt(v); else if (n == "floor") r = floor(v);
    else if (n == "ceil") r = ceil(v); else if (n == "fabs") r = fabs(v); else if (n == "round") r = round(v); else if (n == "trunc") r = trunc(v); else if (n == "rint") r = rint(v); else if (n == "erf") r = erf(v); else { unsup("math " + n); return; }
    ret(RVal(W(0) == 64 ? fromd(r) : fromf((float)r))); return; }
  case B_MATH2: {
    if (cast<CallBase>(d.I)->getCalledFunction()->getName() == "fmod") { // integers: exact, with the sign of the dividend
      E a = ex(A(0), 64), b = ex(A(1), 64), X = fint(a), Y = fint(b), z = mkConst(64, 0);
      if ((!isC(a) || !isC(b)) && X && Y) {
        E yz = mkEq(Y, z); if (!isC(yz)) { bool t = evalE(yz, S->model.data()); splitOn(t ? yz : mkNot(yz)); if (t) yz = mkConst(1, 1); else yz = mkConst(1, 0); }
        if (yz->c) { ret(RVal(fromd(NAN))); return; }
        E r = mkOp(O_SREM, 64, X, Y);
        ret(RVal((mkIte(mkBoolAnd(mkEq(r, z), mkOp(O_SLT, 1, X, z)), mkConst(64, 1ULL << 63), mkOp(O_SITOFP, 64, r))))); return; }
    }
    double x = asd(conc(A(0), 64)), y = asd(conc(A(1), 64)); std::string n = cast<CallBase>(d.I)->getCalledFunction()->getName().str();
    ret(RVal(fromd(n == "pow" ? pow(x, y) : n == "fmod" ? fmod(x, y) : atan2(x, y)))); return; }
  }
  unsup("builtin " + std::to_string(d.bi));
}

static void step() {
  Frame *f = S->top();
  DI &d = f->f->bbs[f->bb][f->ip];
  auto set = [&](RVal v) { Frame *t = S->top(); t->regs[d.dst] = v; t->ip++; };
  switch (d.op) {
  case I_NOP: f->ip++; return;
  case I_COPY: set(val(f, d.o[0])); return;
  case I_BIN: {
    RVal a = val(f, d.o[0]), b = val(f, d.o[1]); Op op = (Op)d.sub;
    if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
      if (!symDiv(b, d.w)) return;
      if (op == O_SDIV || op == O_SREM) {
        E ov = mkBoolAnd(mkEq(ex(a, d.w), mkConst(d.w, 1ULL << (d.w - 1))), mkEq(ex(b, d.w), mkConst(d.w, ~0ULL)));
        if (isC(ov) ? ov->c : evalE(ov, S->model.data())) { splitOn(ov); error("division", "division overflow (most negative value by -1)"); return; }
        splitOn(mkNot(ov));
      }
    }
    if ((op == O_SHL || op == O_LSHR || op == O_ASHR)) { // x86 masks the count
      unsigned mw = d.w <= 32 ? 31 : 63; if (!b.e) { b.c &= mw; } else b = RVal(mkOp(O_AND, d.w, b.e, mkConst(d.w, mw))); }
    set(binop(d, op, d.w, a, b)); return; }
  case I_FNEG: { RVal a = val(f, d.o[0]); set(RVal(mkOp(O_XOR, d.w, ex(a, d.w), mkConst(d.w, 1ULL << (d.w - 1))))); return; }
  case I_ICMP: {
    RVal a = val(f, d.o[0]), b = val(f, d.o[1]);
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c; bool r = false; int64_t sx_ = sx(x, d.aw), sy = sx(y, d.aw);
      switch (d.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx_ > sy; break; case CmpInst::ICMP_SGE: r = sx_ >= sy; break;
        case CmpInst::ICMP_SLT: r = sx_ < sy; break; case CmpInst::ICMP_SLE: r = sx_ <= sy; break; }
      set(RVal((uint64_t)r)); return; }
    set(RVal(icmp(d.sub, ex(a, d.aw), ex(b, d.aw)))); return; }
  case I_FCMP: { RVal a = val(f, d.o[0]), b = val(f, d.o[1]); set(RVal(fcmp(d.sub, ex(a, d.aw), ex(b, d.aw)))); return; }
  case I_CAST: { RVal a = val(f, d.o[0]); if (!a.e) set(RVal(evalop((Op)d.sub, d.w, d.aw, 0, a.c, 0, 0, 0))); else set(RVal(d.sub == O_EXTRACT ? mkExtract(a.e, 0, d.w) : mkOp((Op)d.sub, d.w, a.e))); return; }
  case I_SELECT: {
    RVal c = val(f, d.o[0]);
    if (!c.e) { set(val(f, d.o[c.c & 1 ? 1 : 2])); return; }
    if (d.ptr || isAggTy(d.ty)) { uint64_t v = conc(c, 1); set(val(S->top(), d.o[v & 1 ? 1 : 2])); return; }
    if (c.e->nsym == 1) { const Dom &D = S->dom[soleSym(c.e)]; Dom t = D & domOf(c.e); if (t.none() || t == D) { set(val(f, d.o[t.none() ? 2 : 1])); return; } }
    set(RVal(mkIte(c.e, ex(val(f, d.o[1]), d.w), ex(val(f, d.o[2]), d.w)))); return; }
  case I_BR: jump(S, d.ed[0]); return;
  case I_CBR: {
    RVal c = val(f, d.o[0]);
    if (!c.e) { jump(S, d.ed[c.c & 1 ? 0 : 1]); return; }
    bool t = evalE(c.e, S->model.data()); E ct = t ? c.e : mkNot(c.e), cf = t ? mkNot(c.e) : c.e;
    std::vector<uint8_t> m; int r = mayBeTrue(*S, cf, m);
    if (r < 0) { SH->incomplete++; addCons(*S, ct); }
    if (r == 1) { State *o = new State(*S); SH->forks++; addCons(*o, cf); o->model = m; o->depth++; jump(o, d.ed[t ? 1 : 0]); work.push_back(o); addCons(*S, ct); S->depth++; }
    jump(S, d.ed[t ? 0 : 1]); return; }
  case I_SWITCH: {
    RVal c = val(f, d.o[0]);
    if (c.e) { // one successor at a time; equal successors are merged
      uint64_t v = evalE(c.e, S->model.data()); int k = 0; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == v) { k = i + 1; break; }
      E cond;
      if (k) { cond = mkConst(1, 0); for (size_t i = 0; i < d.cases.size(); i++) if (d.ed[i + 1].bb == d.ed[k].bb) cond = mkBoolOr(cond, mkEq(c.e, mkConst(d.aw, d.cases[i]))); }
      else { cond = mkConst(1, 1); for (uint64_t x : d.cases) cond = mkBoolAnd(cond, mkNot(mkEq(c.e, mkConst(d.aw, x)))); }
      // merging is only sound when phi copies agree
      if (k) for (size_t i = 0; i < d.cases.size(); i++) if (d.ed[i + 1].bb == d.ed[k].bb && !d.ed[k].phi.empty() && i + 1 != (size_t)k) { cond = mkEq(c.e, mkConst(d.aw, v)); break; }
      splitOn(cond); jump(S, d.ed[k]); return;
    }
    int k = 0; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c.c) { k = i + 1; break; }
    jump(S, d.ed[k]); return; }
  case I_RET: {
    RVal r; if (!d.o.empty()) r = val(f, d.o[0]);
    for (uint64_t id : f->allocas) S->mem.free(id);
    int dst = f->dst; Frame *o = S->st.back(); S->st.pop_back(); if (--o->rc == 0) delete o;
    if (S->st.empty()) { pathEnd(); return; }
    if (dst >= 0) S->top()->regs[dst] = r;
    return; }
  case I_ALLOCA: { uint64_t n = conc(val(f, d.o[0]), 32) * d.off; if (n > 8 << 20) { error("memory", "huge stack allocation"); return; } uint64_t id = S->mem.alloc((uint32_t)n, K_STACK); f = S->top(); f->allocas.push_back(id); set(RVal(id << 24)); return; }
  case I_LOAD: {
    RVal p = val(f, d.o[0]);
    if (isAggTy(d.ty)) { uint64_t a = conc(p, 64); RVal v = loadAgg(a, const_cast<Type *>(d.ty)); if (!dead) set(v); return; }
    RVal v = loadMem(p, (unsigned)d.off, d.w); if (!dead) set(v); return; }
  case I_STORE: {
    RVal p = val(f, d.o[1]);
    if (isAggTy(d.ty)) { uint64_t a = conc(p, 64); storeAgg(a, const_cast<Type *>(d.ty), val(S->top(), d.o[0])); if (!dead) S->top()->ip++; return; }
    storeMem(p, (unsigned)d.off, d.w, val(f, d.o[0])); if (!dead) S->top()->ip++; return; }
  case I_GEP: {
    RVal p = val(f, d.o[0]); uint64_t c = d.off; E e = p.e; if (!e) c += p.c;
    for (size_t i = 0; i < d.sc.size(); i++) { RVal x = val(f, d.o[i + 1]); if (!x.e) c += (uint64_t)sx(x.c, d.cases[i]) * d.sc[i]; else { E t = mkSext(x.e, d.w); if (d.sc[i] != 1) t = mkOp(O_MUL, d.w, t, mkConst(d.w, d.sc[i])); e = e ? mkOp(O_ADD, d.w, e, t) : t; } }
    if (!e) set(RVal(c & maskw(d.w))); else set(RVal(mkOp(O_ADD, d.w, e, mkConst(d.w, c)))); return; }
  case I_EXTRACTV: { RVal a = val(f, d.o[0]); for (uint64_t i : d.cases) a = ((Agg *)a.c)->v[i]; set(a); return; }
  case I_INSERTV: {
    RVal a = val(f, d.o[0]), v = val(f, d.o[1]); std::vector<Agg *> chain; Agg *root = new Agg(*(Agg *)a.c); Agg *cur = root;
    for (size_t k = 0; k + 1 < d.cases.size(); k++) { Agg *n = new Agg(*(Agg *)cur->v[d.cases[k]].c); cur->v[d.cases[k]] = mkAgg(n); cur = n; }
    cur->v[d.cases.back()] = v; set(mkAgg(root)); return; }
  case I_BUILTIN: { builtin(d, f); if (!dead && !S->st.empty()) S->top()->ip++; return; }
  case I_CALL: case I_ICALL: {
    Func *g = d.callee; size_t n = d.o.size();
    if (d.op == I_ICALL) {
      n--; uint64_t a = conc(val(f, d.o[n]), 64);
      if ((a & 0xFF00000000000000ULL) != FBASE || ((a & ~0xFF00000000000000ULL) >> 4) >= funcByIdx.size()) { error("memory", a ? "call through a wild function pointer" : "call through a null function pointer"); return; }
      g = funcByIdx[(a & ~0xFF00000000000000ULL) >> 4]; f = S->top();
      auto it = builtins.find(g->name);
      if (!g->hasBody && it != builtins.end()) { DI t = d; t.bi = it->second; t.o.pop_back(); builtin(t, f); if (!dead) S->top()->ip++; return; }
    }
    std::vector<RVal> args(n); for (size_t i = 0; i < n; i++) args[i] = val(f, d.o[i]);
    f->ip++; enter(g, args, d.sc, d.byval, d.dst); return; }
  case I_UNREACH: error("abort", "unreachable code executed"); return;
  case I_UNSUP: { std::string t; raw_string_ostream os(t); d.I->print(os); unsup("unsupported instruction " + os.str()); return; }
  }
}

// hand half of the pending states to a new process when a slot is free
static bool trySplit() {
  if (work.size() < 2) return false;
  long s = SH->slots; if (s <= 0) return false;
  if (!SH->slots.compare_exchange_strong(s, s - 1)) return false;
  SH->procs++;
  pid_t p = fork();
  if (p < 0) { SH->slots++; SH->procs--; return false; }
  std::vector<State *> keep, drop;
  for (size_t i = 0; i < work.size(); i++) ((i & 1) == (p == 0 ? 0u : 1u) ? keep : drop).push_back(work[i]);
  for (auto x : drop) delete x;
  work.swap(keep);
  return p == 0;
}

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
  for (int i = 4; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-t") TMAX = atof(argv[++i]); else if (a == "-j") NPROC = atoi(argv[++i]); else if (a == "-s") STEPMAX = atol(argv[++i]);
    else if (a == "-x") XCHECK = true; else if (a == "-k") KEEP = true;
  }
  T0 = now();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof *SH); SH->slots = NPROC - 1; SH->procs = 1;
  outFd = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(argv[1], err, ctx);
  if (!mod) { err.print("vse", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout(); isWin = M->getTargetTriple().find("windows") != std::string::npos || M->getTargetTriple().find("mingw") != std::string::npos;
  initBuiltins();
  S = new State;
  for (auto &g : M->globals()) { uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0; uint64_t id = S->mem.alloc(n, K_GLOBAL); gaddr[&g] = id << 24; }
  for (auto &F : *M) faddr(&F);
  std::set<std::string> undef;
  for (auto &g : M->globals()) {
    Obj *o = S->mem.getw(gaddr[&g] >> 24);
    if (g.hasInitializer()) { std::fill(o->d.begin(), o->d.end(), 0); initMem(o, 0, g.getInitializer()); }
    else { undef.insert(g.getName().str()); std::fill(o->d.begin(), o->d.end(), 0); }
    o->ro = g.isConstant(); if (g.isThreadLocal()) tlsInit.push_back({gaddr[&g] >> 24, o->d});
  }
  Function *F = M->getFunction(argv[2]); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  zinit();
  { std::vector<RVal> a; std::vector<uint64_t> w; std::vector<uint32_t> b; enter(funcs[F], a, w, b, -1); }
  work.push_back(S); pid_t root = getpid();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  long tick = 0;
  while (!work.empty() && !SH->stop) {
    S = work.back(); work.pop_back(); dead = false;
    long s0 = S->steps;
    while (!dead) {
      step(); S->steps++;
      if (S->steps > STEPMAX) { error("hang", "no end after " + std::to_string(STEPMAX) + " steps"); break; }
      if (((++tick) & 0x3FFF) == 0) {
        if (SH->stop) break;
        if (now() - T0 > TMAX) { SH->stop = 2; break; }
      }
    }
    SH->steps += S->steps - s0; if (SH->stop && !dead) SH->dropped++;
    delete S; S = nullptr;
    if (work.size() >= 2 && SH->slots > 0) { prctl(PR_SET_PDEATHSIG, 0); trySplit(); }
  }
  SH->dropped += work.size();
  if (getpid() != root) { // wait for own children then hand back the slot
    SH->slots++; SH->procs--;
    int st; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { SH->crashed++; }
    _exit(0);
  }
  SH->slots++; SH->procs--;
  int st; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { SH->crashed++; }
  bool complete = !SH->stop && !SH->incomplete && !SH->dropped && !SH->crashed && !SH->z3unk;
  printf("{\"complete\":%s,\"stop\":%ld,\"crashed\":%ld,\"paths\":%ld,\"dropped\":%ld,\"steps\":%ld,\"forks\":%ld,\"assume_killed\":%ld,\"queries\":%ld,\"by_model\":%ld,\"by_domain\":%ld,\"z3_queries\":%ld,\"z3_sat\":%ld,\"z3_unsat\":%ld,\"z3_unknown\":%ld,\"z3_seconds\":%.3f,\"checks\":%ld,\"checks_to_z3\":%ld,\"violations\":%ld,\"incomplete\":%ld,\"max_symbolic_bytes\":%ld,\"xchecks\":%ld,\"xbad\":%ld,\"wall\":%.2f}\n",
    complete ? "true" : "false", SH->stop.load(), SH->crashed.load(), SH->paths.load(), SH->dropped.load(), SH->steps.load(), SH->forks.load(), SH->assumeKill.load(), SH->queries.load(), SH->fast.load(), SH->domq.load(), SH->z3q.load(), SH->z3sat.load(), SH->z3unsat.load(), SH->z3unk.load(), SH->z3us.load() * 1e-6, SH->checks.load(), SH->checkz3.load(), SH->viols.load(), SH->incomplete.load(), SH->maxsym.load(), SH->xcheck.load(), SH->xbad.load(), now() - T0);
  return 0;
}
