// Bit-vector expression DAG (hash-consed) with an evaluator and a z3 lowering.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <bitset>
#include <algorithm>
#include <z3.h>

#define MAXSYM 128

enum Op : uint8_t {
  O_CONST, O_SYM, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  // floating point; operands are IEEE bit patterns (32 or 64 bits)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC
};

struct Expr {
  Op op; uint8_t w; uint8_t lo; uint8_t nsym; // nsym: 0,1,2(=many)
  uint32_t id;
  uint64_t c;                 // constant value / symbol index
  const Expr *a, *b, *d;
  uint64_t m0, m1;            // symbols used
};
typedef const Expr *E;
typedef std::bitset<256> Dom;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static inline double asd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asf(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static inline uint64_t fromd(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t fromf(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

// c: evaluate one operation on concrete operands. w: result width, aw: operand width
static inline uint64_t evalop(Op op, unsigned w, unsigned aw, unsigned lo, uint64_t a, uint64_t b, uint64_t d, unsigned bw) {
  uint64_t m = maskw(w);
  switch (op) {
  case O_CONCAT: return (a << bw) | b;
  case O_EXTRACT: return (a >> lo) & m;
  case O_ZEXT: return a;
  case O_SEXT: return (uint64_t)sx(a, aw) & m;
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m;
  case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
  case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & m;
  case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= w ? (w - 1) : b)) & m; }
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sx(a, aw) < sx(b, aw);
  case O_SLE: return sx(a, aw) <= sx(b, aw);
  case O_ITE: return a ? b : d;
  case O_FADD: return w == 64 ? fromd(asd(a) + asd(b)) : fromf(asf(a) + asf(b));
  case O_FSUB: return w == 64 ? fromd(asd(a) - asd(b)) : fromf(asf(a) - asf(b));
  case O_FMUL: return w == 64 ? fromd(asd(a) * asd(b)) : fromf(asf(a) * asf(b));
  case O_FDIV: return w == 64 ? fromd(asd(a) / asd(b)) : fromf(asf(a) / asf(b));
  case O_FOEQ: return aw == 64 ? asd(a) == asd(b) : asf(a) == asf(b);
  case O_FOLT: return aw == 64 ? asd(a) < asd(b) : asf(a) < asf(b);
  case O_FOLE: return aw == 64 ? asd(a) <= asd(b) : asf(a) <= asf(b);
  case O_FUNO: return aw == 64 ? (std::isnan(asd(a)) || std::isnan(asd(b))) : (std::isnan(asf(a)) || std::isnan(asf(b)));
  case O_SITOFP: return w == 64 ? fromd((double)sx(a, aw)) : fromf((float)sx(a, aw));
  case O_UITOFP: return w == 64 ? fromd((double)a) : fromf((float)a);
  case O_FPTOSI: { // x86 cvttsd2si: out of range gives the "integer indefinite" value
    double x = aw == 64 ? asd(a) : asf(a);
    if (w <= 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000ULL & m; return (uint64_t)(int64_t)x & m; }
    if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0x8000000000000000ULL; return (uint64_t)(int64_t)x; }
  case O_FPTOUI: { double x = aw == 64 ? asd(a) : asf(a);
    if (!(x > -9223372036854775808.0 && x < 18446744073709551616.0)) return 0x8000000000000000ULL & m;
    if (x >= 9223372036854775808.0) return (uint64_t)x & m; return (uint64_t)(int64_t)x & m; }
  case O_FPEXT: return fromd((double)asf(a));
  case O_FPTRUNC: return fromf((float)asd(a));
  default: return 0;
  }
}

struct EKey {
  size_t operator()(E e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ULL + e->w * 131 + e->lo * 7919;
    h ^= e->c + 0x7f4a7c15 + (h << 6) + (h >> 2);
    h ^= (uint64_t)e->a * 0xff51afd7ed558ccdULL; h = (h << 13) | (h >> 51);
    h ^= (uint64_t)e->b * 0xc4ceb9fe1a85ec53ULL; h = (h << 13) | (h >> 51);
    h ^= (uint64_t)e->d * 0x94d049bb133111ebULL;
    return h ^ (h >> 31);
  }
};
struct EEq { bool operator()(E x, E y) const { return x->op == y->op && x->w == y->w && x->lo == y->lo && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };

extern std::unordered_set<E, EKey, EEq> gTab;
extern uint32_t gNextId;

E mkRaw(Op op, unsigned w, E a = nullptr, E b = nullptr, E d = nullptr, unsigned lo = 0, uint64_t c = 0);
E mkConst(unsigned w, uint64_t v);
E mkSym(unsigned i);
E mkOp(Op op, unsigned w, E a, E b = nullptr, E d = nullptr, unsigned lo = 0);
static inline E mkNot(E a);
static inline bool isC(E e) { return e->op == O_CONST; }
static inline E mkExtract(E a, unsigned lo, unsigned w) { return mkOp(O_EXTRACT, w, a, nullptr, nullptr, lo); }
E fint(E e); // the 64-bit integer a double equals whatever the symbols are, or null
static inline E mkConcat(E hi, E lo) { return mkOp(O_CONCAT, hi->w + lo->w, hi, lo); }
static inline E mkZext(E a, unsigned w) { return a->w == w ? a : mkOp(O_ZEXT, w, a); }
static inline E mkSext(E a, unsigned w) { return a->w == w ? a : mkOp(O_SEXT, w, a); }
static inline E mkEq(E a, E b) { return mkOp(O_EQ, 1, a, b); }
static inline E mkIte(E c, E a, E b) { return mkOp(O_ITE, a->w, c, a, b); }
static inline E mkNot(E a) { return mkOp(O_XOR, a->w, a, mkConst(a->w, ~0ULL)); }

uint64_t evalE(E e, const uint8_t *as);
const Dom &domOf(E e);       // boolean expr over exactly one symbol
int soleSym(E e);            // index of the only symbol
Z3_ast toZ3(Z3_context ctx, E e);
E mkBoolAnd(E a, E b);
E mkBoolOr(E a, E b);
