#include "expr.h"
#include <cstdio>
#include <cstdlib>
std::unordered_set<E, EKey, EEq> gTab(1 << 16);
uint32_t gNextId = 0;
static E gSym[MAXSYM];

E mkRaw(Op op, unsigned w, E a, E b, E d, unsigned lo, uint64_t c) {
  Expr k; memset(&k, 0, sizeof k);
  k.op = op; k.w = w; k.lo = lo; k.c = c; k.a = a; k.b = b; k.d = d;
  auto it = gTab.find(&k);
  if (it != gTab.end()) return *it;
  static Expr *pool = nullptr; static size_t left = 0;
  if (!left) { pool = (Expr *)malloc(sizeof(Expr) * 8192); left = 8192; }
  Expr *n = pool++; left--;
  *n = k; n->id = gNextId++;
  if (op == O_SYM) { if (c < 64) n->m0 = 1ULL << c; else n->m1 = 1ULL << (c - 64); }
  for (E x : {a, b, d}) if (x) { n->m0 |= x->m0; n->m1 |= x->m1; }
  int pc = __builtin_popcountll(n->m0) + __builtin_popcountll(n->m1);
  n->nsym = pc > 2 ? 2 : pc;
  gTab.insert(n);
  return n;
}
E mkConst(unsigned w, uint64_t v) { return mkRaw(O_CONST, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
E mkSym(unsigned i) { if (!gSym[i]) gSym[i] = mkRaw(O_SYM, 8, nullptr, nullptr, nullptr, 0, i); return gSym[i]; }
int soleSym(E e) { return e->m0 ? __builtin_ctzll(e->m0) : 64 + __builtin_ctzll(e->m1); }

static bool commut(Op o) { return o == O_ADD || o == O_MUL || o == O_AND || o == O_OR || o == O_XOR || o == O_EQ; }

// signed range of a bit-vector expression (whatever its symbols are)
struct Rng { __int128 lo, hi; };
static Rng full(unsigned w) { return {-((__int128)1 << (w - 1)), ((__int128)1 << (w - 1)) - 1}; }
static Rng f0(unsigned w) { return full(w); }
static Rng rng(E e) {
  static std::unordered_map<E, Rng> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Rng f = full(e->w), r = f, x, y;
  auto fit = [&](__int128 l, __int128 h) { if (l >= f.lo && h <= f.hi) r = {l, h}; };
  auto uns = [&](E q) { x = rng(q); if (x.lo < 0) x = {0, (__int128)maskw(q->w)}; return x; };
  switch (e->op) {
  case O_CONST: r.lo = r.hi = sx(e->c, e->w); break;
  case O_ZEXT: x = uns(e->a); fit(x.lo, x.hi); break;
  case O_SEXT: r = rng(e->a); break;
  case O_ADD: x = rng(e->a); y = rng(e->b); fit(x.lo + y.lo, x.hi + y.hi); break;
  case O_SUB: x = rng(e->a); y = rng(e->b); fit(x.lo - y.hi, x.hi - y.lo); break;
  case O_MUL: { x = rng(e->a); y = rng(e->b); if (x.lo < -((__int128)1 << 62) || x.hi > ((__int128)1 << 62) || y.lo < -((__int128)1 << 62) || y.hi > ((__int128)1 << 62)) break;
    __int128 p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; fit(std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), std::max(std::max(p[0], p[1]), std::max(p[2], p[3]))); break; }
  case O_AND: case O_OR: case O_XOR: { x = rng(e->a); y = rng(e->b); if (e->op == O_AND && (x.lo >= 0 || y.lo >= 0)) { fit(0, x.lo < 0 ? y.hi : y.lo < 0 ? x.hi : std::min(x.hi, y.hi)); break; }
    unsigned k = 1; while (k < e->w && (x.lo < full(k).lo || x.hi > full(k).hi || y.lo < full(k).lo || y.hi > full(k).hi)) k++; fit(x.lo >= 0 && y.lo >= 0 ? 0 : full(k).lo, full(k).hi); break; }
  case O_SHL: x = rng(e->a); y = rng(e->b); if (y.lo >= 0 && y.hi < 63) fit(std::min(x.lo * ((__int128)1 << (int)y.hi), x.lo), std::max(x.hi * ((__int128)1 << (int)y.hi), x.hi)); break;
  case O_ASHR: x = rng(e->a); fit(std::min(x.lo, (__int128)(x.hi < 0 ? x.lo : x.lo < 0 ? x.lo : 0)), x.hi < 0 ? -1 : x.hi); break;
  case O_UDIV: x = rng(e->a); y = rng(e->b); if (x.lo >= 0 && y.lo > 0) fit(0, x.hi / y.lo); break;
  case O_UREM: x = rng(e->a); y = rng(e->b); if (y.lo > 0) fit(0, x.lo >= 0 ? std::min(x.hi, y.hi - 1) : y.hi - 1); break;
  case O_SDIV: x = rng(e->a); { __int128 m = std::max(x.hi, -x.lo); fit(-m, m); } break;
  case O_SREM: x = rng(e->a); y = rng(e->b); { __int128 m = std::max(std::max(y.hi, -y.lo) - 1, (__int128)0), n = std::max(x.hi, -x.lo); if (y.lo > 0 || y.hi < 0) n = std::min(m, n); else n = std::max(m, n); fit(x.lo < 0 ? -n : 0, n); } break;
  case O_ITE: x = rng(e->b); y = rng(e->d);
    if (e->a->op == O_SLT && e->a->a == e->d && isC(e->a->b) && e->a->b->c == 0 && e->b->op == O_SUB && e->b->b == e->d && isC(e->b->a) && e->b->a->c == 0) { __int128 m = std::max(y.hi, -y.lo); fit(0, m); if (r.lo == 0) break; } // absolute value
    r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break;
  case O_EXTRACT: if (e->lo == 0) { x = rng(e->a); fit(x.lo, x.hi); } break;
  default: break;
  }
  memo[e] = r; return r;
}
// a double that is an integer below 2^53 whatever the symbols are, as a 64-bit integer (sign of zero aside)
static bool small(E i) { Rng r = rng(i); return r.lo >= -((__int128)1 << 53) && r.hi <= ((__int128)1 << 53); }
E fint(E e) {
  static std::unordered_map<E, E> memo;
  if (e->w != 64) return nullptr;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  E r = nullptr, x, y;
  switch (e->op) {
  case O_CONST: { double v = asd(e->c); if (v > -9007199254740992.0 && v < 9007199254740992.0 && v == (double)(int64_t)v) r = mkConst(64, (uint64_t)(int64_t)v); break; }
  case O_SITOFP: x = mkSext(e->a, 64); if (small(x)) r = x; break;
  case O_UITOFP: if (e->a->w < 64) { x = mkZext(e->a, 64); if (small(x)) r = x; } else if (small(e->a) && rng(e->a).lo >= 0) r = e->a; break;
  case O_ITE: if ((x = fint(e->b)) && (y = fint(e->d))) r = mkIte(e->a, x, y); break;
  case O_FADD: case O_FSUB: case O_FMUL: if ((x = fint(e->a)) && (y = fint(e->b))) { E z = mkOp(e->op == O_FADD ? O_ADD : e->op == O_FSUB ? O_SUB : O_MUL, 64, x, y); if (small(z)) r = z; } break;
  case O_XOR: if (isC(e->b) && e->b->c == 1ULL << 63 && (x = fint(e->a))) r = mkOp(O_SUB, 64, mkConst(64, 0), x); break;
  default: break;
  }
  memo[e] = r; return r;
}
E mkOp(Op op, unsigned w, E a, E b, E d, unsigned lo) {
  bool allc = isC(a) && (!b || isC(b)) && (!d || isC(d));
  if (allc) return mkConst(w, evalop(op, w, a->w, lo, a->c, b ? b->c : 0, d ? d->c : 0, b ? b->w : 0));
  if (b && commut(op) && isC(a)) std::swap(a, b);
  switch (op) {
  case O_ITE:
    if (isC(a)) return a->c ? b : d;
    if (b == d) return b;
    if (w == 1 && isC(b) && isC(d)) return b->c ? a : mkNot(a);
    break;
  case O_EXTRACT:
    if (w == a->w) return a;
    if (a->op == O_EXTRACT) return mkOp(O_EXTRACT, w, a->a, nullptr, nullptr, lo + a->lo);
    if (a->op == O_CONCAT) {
      unsigned bw = a->b->w;
      if (lo + w <= bw) return mkExtract(a->b, lo, w);
      if (lo >= bw) return mkExtract(a->a, lo - bw, w);
    }
    if (a->op == O_ZEXT) {
      if (lo >= a->a->w) return mkConst(w, 0);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkZext(a->a, w);
    }
    if (a->op == O_SEXT) {
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0) return mkSext(a->a, w);
    }
    if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_MUL) && (isC(a->b) || isC(a->a)))
      return mkOp(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    if (a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
    break;
  case O_CONCAT:
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->a == b->a && a->lo == b->lo + b->w)
      return mkExtract(a->a, b->lo, w);
    if (isC(a) && a->c == 0) return mkZext(b, w);
    if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkConcat(a->b, b->b), mkConcat(a->d, b->d));
    if (a->op == O_EXTRACT && a->lo >= b->w && mkExtract(a->a, a->lo - b->w, b->w) == b) return mkExtract(a->a, a->lo - b->w, w);
    break;
  case O_ZEXT:
    if (a->op == O_ZEXT) return mkOp(O_ZEXT, w, a->a);
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkZext(a->b, w), mkZext(a->d, w));
    break;
  case O_SEXT:
    if (a->op == O_SEXT) return mkOp(O_SEXT, w, a->a);
    if (a->op == O_ZEXT && a->w > a->a->w) return mkOp(O_ZEXT, w, a->a);
    if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
    break;
  case O_ADD:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && a->op == O_ADD && isC(a->b)) return mkOp(O_ADD, w, a->a, mkConst(w, a->b->c + b->c));
    if (isC(b) && a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(w, a->b->c + b->c), mkConst(w, a->d->c + b->c));
    break;
  case O_SUB:
    if (a == b) return mkConst(w, 0);
    if (isC(b)) return mkOp(O_ADD, w, a, mkConst(w, 0 - b->c));
    break;
  case O_MUL:
    if (isC(b) && b->c == 0) return b;
    if (isC(b) && b->c == 1) return a;
    break;
  case O_AND:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a;
      if (a->op == O_ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a; }
    break;
  case O_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; }
    break;
  case O_XOR:
    if (a == b) return mkConst(w, 0);
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && a->op == O_XOR && isC(a->b)) return mkOp(O_XOR, w, a->a, mkConst(w, a->b->c ^ b->c));
    break;
  case O_SHL: case O_LSHR: case O_ASHR:
    if (isC(b) && b->c == 0) return a;
    break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      if (a->w == 1) return b->c ? a : mkNot(a);
      if (a->op == O_ZEXT) { if (b->c > maskw(a->a->w)) return mkConst(1, 0); return mkEq(a->a, mkConst(a->a->w, b->c)); }
      if (a->op == O_SEXT) { uint64_t n = b->c & maskw(a->a->w); if (((uint64_t)sx(n, a->a->w) & maskw(a->w)) != b->c) return mkConst(1, 0); return mkEq(a->a, mkConst(a->a->w, n)); }
      if (a->op == O_ITE && isC(a->b) && isC(a->d)) {
        bool x = a->b->c == b->c, y = a->d->c == b->c;
        if (x && y) return mkConst(1, 1); if (!x && !y) return mkConst(1, 0);
        return x ? a->a : mkNot(a->a);
      }
      if (a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
      if (a->op == O_ADD && isC(a->b)) return mkEq(a->a, mkConst(a->w, b->c - a->b->c));
      if (a->op == O_XOR && isC(a->b)) return mkEq(a->a, mkConst(a->w, b->c ^ a->b->c));
    }
    if ((a->op == O_ZEXT && b->op == O_ZEXT || a->op == O_SEXT && b->op == O_SEXT) && a->a->w == b->a->w) return mkEq(a->a, b->a);
    break;
  case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: {
    if (a == b && (a->op == O_SITOFP || a->op == O_UITOFP)) return mkConst(1, op == O_FOEQ || op == O_FOLE);
    if (a == b && op == O_FOLT) return mkConst(1, 0);
    if (a == b && (op == O_FOEQ || op == O_FOLE)) return mkNot(mkOp(O_FUNO, 1, a, b));
    E x = a->w == 64 ? fint(a) : nullptr, y = x ? fint(b) : nullptr;
    if (y) return op == O_FUNO ? mkConst(1, 0) : mkOp(op == O_FOEQ ? O_EQ : op == O_FOLT ? O_SLT : O_SLE, 1, x, y);
    break; }
  case O_FPTOSI: { E x = a->w == 64 ? fint(a) : nullptr;
    if (!x && a->w == 64 && a->op == O_FDIV && (w == 32 || w == 64)) { // the truncated quotient of integers below 2^52 is exact
      E p = fint(a->a), q = p ? fint(a->b) : nullptr; 
      if (q && rng(p).lo > -((__int128)1 << 52) && rng(p).hi < ((__int128)1 << 52)) {
        E z = mkConst(64, 0), q0 = mkEq(q, z), t = mkOp(O_SDIV, 64, p, mkIte(q0, mkConst(64, 1), q)); Rng f = full(w);
        E out = mkOp(O_OR, 1, q0, mkOp(O_OR, 1, mkOp(O_SLT, 1, t, mkConst(64, (uint64_t)(int64_t)f.lo)), mkOp(O_SLT, 1, mkConst(64, (uint64_t)(int64_t)f.hi), t)));
        return mkIte(out, mkConst(w, w == 32 ? 0x80000000ULL : 1ULL << 63), mkExtract(t, 0, w)); } }
    if (!x && a->w == 64 && a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkOp(O_FPTOSI, w, a->b), mkOp(O_FPTOSI, w, a->d)); if (x) { Rng r = rng(x), f = full(w <= 32 ? 32 : 64); if (r.lo >= f.lo && r.hi <= f.hi) return mkExtract(x, 0, w);
    if (x && (w == 32 || w == 64)) { E in = mkOp(O_AND, 1, mkOp(O_SLE, 1, mkConst(64, (uint64_t)(int64_t)f0(w).lo), x), mkOp(O_SLE, 1, x, mkConst(64, (uint64_t)(int64_t)f0(w).hi))); return mkIte(in, mkExtract(x, 0, w), mkConst(w, w == 32 ? 0x80000000ULL : 1ULL << 63)); } } break; }
  case O_ULT: case O_SLT:
    if (a == b) return mkConst(1, 0);
    if (op == O_SLT) { Rng x = rng(a), y = rng(b); if (x.hi < y.lo) return mkConst(1, 1); if (x.lo >= y.hi) return mkConst(1, 0); }
    break;
  case O_ULE: case O_SLE:
    if (a == b) return mkConst(1, 1);
    if (op == O_SLE) { Rng x = rng(a), y = rng(b); if (x.hi <= y.lo) return mkConst(1, 1); if (x.lo > y.hi) return mkConst(1, 0); }
    break;
  default: break;
  }
  if (b && commut(op) && !isC(b) && a->id > b->id) std::swap(a, b);
  return mkRaw(op, w, a, b, d, lo);
}
E mkBoolAnd(E a, E b) { return mkOp(O_AND, 1, a, b); }
E mkBoolOr(E a, E b) { return mkOp(O_OR, 1, a, b); }

static std::vector<uint64_t> mVal; static std::vector<uint32_t> mEp; static uint32_t ep = 0;
static uint64_t ev(E e, const uint8_t *as) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_SYM) return as[e->c];
  if (mEp[e->id] == ep) return mVal[e->id];
  uint64_t r;
  if (e->op == O_ITE) r = ev(e->a, as) ? ev(e->b, as) : ev(e->d, as);
  else {
    uint64_t x = ev(e->a, as), y = e->b ? ev(e->b, as) : 0;
    r = evalop(e->op, e->w, e->a->w, e->lo, x, y, 0, e->b ? e->b->w : 0);
  }
  mEp[e->id] = ep; mVal[e->id] = r;
  return r;
}
uint64_t evalE(E e, const uint8_t *as) {
  if (mEp.size() < gNextId + 1) { mEp.resize(gNextId * 2 + 1024, 0); mVal.resize(gNextId * 2 + 1024); }
  if (++ep == 0) { std::fill(mEp.begin(), mEp.end(), 0); ep = 1; }
  return ev(e, as);
}
const Dom &domOf(E e) {
  static std::unordered_map<E, Dom *> cache;
  auto it = cache.find(e);
  if (it != cache.end()) return *it->second;
  Dom *d = new Dom;
  uint8_t as[MAXSYM]; memset(as, 0, sizeof as);
  int s = soleSym(e);
  for (int v = 0; v < 256; v++) { as[s] = v; if (evalE(e, as) & 1) d->set(v); }
  cache[e] = d;
  return *d;
}

static std::unordered_map<E, Z3_ast> zc;
static Z3_ast b2bv(Z3_context c, Z3_ast b) {
  Z3_sort s1 = Z3_mk_bv_sort(c, 1);
  return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
}
static Z3_ast fp(Z3_context c, Z3_ast bv, unsigned w) {
  return Z3_mk_fpa_to_fp_bv(c, bv, w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c));
}
Z3_ast toZ3(Z3_context c, E e) {
  auto it = zc.find(e);
  if (it != zc.end()) return it->second;
  Z3_ast r = nullptr, a = e->a ? toZ3(c, e->a) : nullptr, b = e->b ? toZ3(c, e->b) : nullptr, d = e->d ? toZ3(c, e->d) : nullptr;
  Z3_sort s = Z3_mk_bv_sort(c, e->w);
  Z3_ast one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
  Z3_ast rne = nullptr, rtz = nullptr;
  if (e->op >= O_FADD) { rne = Z3_mk_fpa_rne(c); rtz = Z3_mk_fpa_rtz(c); }
  unsigned aw = e->a ? e->a->w : 0;
  Z3_sort fs = e->op >= O_FADD ? (e->w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c)) : nullptr;
  if (e->w > 8 && (e->op == O_MUL || e->op == O_SDIV || e->op == O_SREM || ((e->op == O_UDIV || e->op == O_UREM) && rng(e->a).lo >= 0 && rng(e->b).lo >= 0))) { // the same operation on as few bits as the operands' ranges need
    Rng q[3] = {rng(e->a), rng(e->b), rng(e)}; unsigned k = 2;
    for (auto &x : q) while (k < e->w && (x.lo < full(k).lo || x.hi > full(k).hi)) k++;
    if (e->op != O_MUL) k++; // INT_MIN / -1
    if (k < e->w) {
      Z3_ast x = Z3_mk_extract(c, k - 1, 0, a), y = Z3_mk_extract(c, k - 1, 0, b);
      r = Z3_mk_sign_ext(c, e->w - k, e->op == O_MUL ? Z3_mk_bvmul(c, x, y) : e->op == O_SDIV ? Z3_mk_bvsdiv(c, x, y) : e->op == O_UDIV ? Z3_mk_bvudiv(c, x, y) : e->op == O_UREM ? Z3_mk_bvurem(c, x, y) : Z3_mk_bvsrem(c, x, y));
      Z3_inc_ref(c, r); zc[e] = r; return r;
    }
  }
  switch (e->op) {
  case O_CONST: r = Z3_mk_unsigned_int64(c, e->c, s); break;
  case O_SYM: { char n[16]; snprintf(n, 16, "in%u", (unsigned)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), s); break; }
  case O_CONCAT: r = Z3_mk_concat(c, a, b); break;
  case O_EXTRACT: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, a); break;
  case O_ZEXT: r = Z3_mk_zero_ext(c, e->w - aw, a); break;
  case O_SEXT: r = Z3_mk_sign_ext(c, e->w - aw, a); break;
  case O_ADD: r = Z3_mk_bvadd(c, a, b); break;
  case O_SUB: r = Z3_mk_bvsub(c, a, b); break;
  case O_MUL: r = Z3_mk_bvmul(c, a, b); break;
  case O_UDIV: r = Z3_mk_bvudiv(c, a, b); break;
  case O_SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
  case O_UREM: r = Z3_mk_bvurem(c, a, b); break;
  case O_SREM: r = Z3_mk_bvsrem(c, a, b); break;
  case O_AND: r = Z3_mk_bvand(c, a, b); break;
  case O_OR: r = Z3_mk_bvor(c, a, b); break;
  case O_XOR: r = Z3_mk_bvxor(c, a, b); break;
  case O_SHL: r = Z3_mk_bvshl(c, a, b); break;
  case O_LSHR: r = Z3_mk_bvlshr(c, a, b); break;
  case O_ASHR: r = Z3_mk_bvashr(c, a, b); break;
  case O_EQ: r = b2bv(c, Z3_mk_eq(c, a, b)); break;
  case O_ULT: r = b2bv(c, Z3_mk_bvult(c, a, b)); break;
  case O_ULE: r = b2bv(c, Z3_mk_bvule(c, a, b)); break;
  case O_SLT: r = b2bv(c, Z3_mk_bvslt(c, a, b)); break;
  case O_SLE: r = b2bv(c, Z3_mk_bvsle(c, a, b)); break;
  case O_ITE: r = Z3_mk_ite(c, Z3_mk_eq(c, a, one), b, d); break;
  case O_FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FOEQ: r = b2bv(c, Z3_mk_fpa_eq(c, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FOLT: r = b2bv(c, Z3_mk_fpa_lt(c, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FOLE: r = b2bv(c, Z3_mk_fpa_leq(c, fp(c, a, aw), fp(c, b, aw))); break;
  case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(c, fp(c, a, aw)), Z3_mk_fpa_is_nan(c, fp(c, b, aw))}; r = b2bv(c, Z3_mk_or(c, 2, x)); break; }
  case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne, a, fs)); break;
  case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne, a, fs)); break;
  case O_FPTOSI: {
    // in range: truncation; otherwise the x86 indefinite value
    Z3_ast f = fp(c, a, aw);
    Z3_sort src = aw == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c);
    double lo = e->w <= 32 ? -2147483649.0 : -9223372036854775808.0, hi = e->w <= 32 ? 2147483648.0 : 9223372036854775808.0;
    Z3_ast l = Z3_mk_fpa_numeral_double(c, lo, src), h = Z3_mk_fpa_numeral_double(c, hi, src);
    Z3_ast in[2] = {e->w <= 32 ? Z3_mk_fpa_gt(c, f, l) : Z3_mk_fpa_geq(c, f, l), Z3_mk_fpa_lt(c, f, h)};
    Z3_ast cv = Z3_mk_fpa_to_sbv(c, rtz, f, e->w <= 32 ? 32 : 64);
    if (e->w < 32) cv = Z3_mk_extract(c, e->w - 1, 0, cv);
    r = Z3_mk_ite(c, Z3_mk_and(c, 2, in), cv, Z3_mk_unsigned_int64(c, e->w == 64 ? 0x8000000000000000ULL : (0x80000000ULL & maskw(e->w)), s));
    break; }
  case O_FPTOUI: { Z3_ast f = fp(c, a, aw); Z3_ast cv = Z3_mk_fpa_to_ubv(c, rtz, f, 64); r = e->w < 64 ? Z3_mk_extract(c, e->w - 1, 0, cv) : cv; break; }
  case O_FPEXT: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fp(c, a, 32), fs)); break;
  case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne, fp(c, a, 64), fs)); break;
  }
  Z3_inc_ref(c, r);
  zc[e] = r;
  return r;
}
