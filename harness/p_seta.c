/* SET /A: the value of an expression, by the documented operators and
   precedence, with operands that are any numbers. */
#include "sh.h"
#include "../libfasteval/lib/fasteval.h"
#ifndef NNM
#define NNM 3
#endif
#ifndef NOPS
#define NOPS 2
#endif
static char line[256]; static int pos;
static void put(const char *s) { while (*s) line[pos++] = *s++; line[pos] = 0; }
static int val[6]; static double fval[6]; static int setn; static double setv; static char setname[8];
static double get(const char *n) { CHECK(n[0] >= 'p' && n[0] < 'p' + 6 && !n[1], "a name is read as it was written"); return val[n[0] - 'p']; }
static double set(char *n, double v) { setn++; setv = v; strncpy(setname, n, 7); return v; }
typedef struct { int f; long long i; double d; } num;
/* documented binary operators, with their documented level (higher binds tighter) */
static const struct { const char *s; int lev; } OP[] = { { "+", 7 }, { "-", 7 }, { "*", 8 }, { "/", 8 }, { "%", 8 }, { "<<", 6 }, { ">>", 6 }, { "&", 5 }, { "^", 4 }, { "|", 3 }, { "&&", 2 }, { "||", 1 } };
#define NOP 12
static int bad; /* a division whose result is no number */
static num bin(int o, num a, num b) {
  num r; int x = (int)a.d, y = (int)b.d; r.f = a.f | b.f; r.i = 0; r.d = 0;
  switch (o) {
    case 0: r.i = a.i + b.i; r.d = a.d + b.d; break;
    case 1: r.i = a.i - b.i; r.d = a.d - b.d; break;
    case 2: r.i = a.i * b.i; r.d = a.d * b.d; break;
    case 3: if (!r.f) { if (b.i == 0) { bad = 1; return r; } r.i = b.i == -1 ? -a.i : a.i / b.i; } r.d = a.d / b.d; break;
    case 4: if (!r.f) { if (b.i == 0) { bad = 1; return r; } r.i = b.i == -1 ? 0 : a.i % b.i; } break;
    case 5: r.i = a.i << b.i; r.d = x << y; break;
    case 6: r.i = a.i >> b.i; r.d = x >> y; break;
    case 7: r.i = a.i & b.i; r.d = x & y; break;
    case 8: r.i = a.i ^ b.i; r.d = x ^ y; break;
    case 9: r.i = a.i | b.i; r.d = x | y; break;
    case 10: r.i = (a.i != 0) & (b.i != 0); r.d = (x != 0) & (y != 0); break;
    case 11: r.i = (a.i != 0) | (b.i != 0); r.d = (x != 0) | (y != 0); break;
  }
  return r;
}
static num un(int u, num a) {
  if (u == 1) { a.i = -a.i; a.d = -a.d; } else if (u == 2) { a.d = !(int)a.d; a.i = !a.i; } else if (u == 3) { a.d = ~(int)a.d; a.i = ~a.i; }
  return a;
}
static num leaf(int k) { num n; n.f = 0; n.i = val[k]; n.d = val[k]; return n; }
static int ops[4], una[5], par; static int nops, cur;
static num climb(int lev) {
  num l;
  if (par == cur + 1) { int p = par, e, sv = nops; par = 0; /* "(x op y)" : evaluate these two first */
    l = un(una[cur], leaf(cur)); e = ops[cur]; cur++; l = bin(e, l, un(una[cur], leaf(cur))); (void)p; (void)sv;
  } else l = un(una[cur], leaf(cur));
  while (cur < nops && OP[ops[cur]].lev >= lev && !bad) { int o = ops[cur]; num r; cur++; r = climb(OP[o].lev + 1); l = bin(o, l, r); }
  return l;
}
static const char *UN[] = { "", "-", "!", "~" };
/* every combination of operators: value of the integer expression */
void h_seta_ops(void) {
  int i, fm = 0; num r; double d; char n[2] = { 0, 0 };
  nops = vf_pick(1, NOPS); par = vf_pick(0, nops); ASSUME(par != 1 || nops > 1);
  for (i = 0; i <= nops; i++) {
    una[i] = (i == 0 || nops < NOPS) ? vf_pick(0, 3) : 0;
    if (par == i + 1) put("("); put(UN[una[i]]); n[0] = 'p' + i; put(n); if (par && par == i) put(")");
    if (i < nops) { ops[i] = vf_pick(0, NOP - 1); if (vf_native() || i) put(" "); put(OP[ops[i]].s); }
  }
  { int dv = 0, md = 0; for (i = 0; i < nops; i++) { dv |= ops[i] == 3; md |= ops[i] == 4; } ASSUME(!dv || !md || nops < 2); }
  { int heavy = 0; for (i = 0; i < nops; i++) heavy += ops[i] >= 2 && ops[i] <= 4; ASSUME(nops < 3 || heavy < 2);
  for (i = 0; i <= nops; i++) val[i] = (i && (ops[i - 1] == 5 || ops[i - 1] == 6)) ? vf_u8() & 7 : heavy ? (signed char)vf_u8() : vf_i32(); }
  for (i = 0; i <= nops; i++) ASSUME(!(i && (ops[i - 1] == 5 || ops[i - 1] == 6)) || una[i] == 0);
  for (i = 0; i < nops; i++) if (ops[i] == 5 || ops[i] == 6) { /* the shift count is that operand alone */ ASSUME(i + 1 == nops || OP[ops[i + 1]].lev <= 6); ASSUME(par != i + 2); }
  cur = 0; bad = 0; r = climb(0);
  fm = 5; d = fasteval_evaluate(line, get, set, &fm);
  if (bad) { if (nops == 1 && !una[0]) CHECK(d != d || d - d != 0, "dividing by zero gives nan or inf"); }
  else { CHECK(fm == 0, "no float is involved"); CHECK(d == (double)r.i, "the integer value of the expression"); }
  CHECK(setn == 0, "nothing is assigned");
  COVER("ran");
}
/* float operands: the value is that of the same operations on doubles */
static int same_d(double a, double b) { unsigned long long x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
void h_seta_float(void) {
  static const char *LIT[] = { "0.5", "2.0", ".25", "3.", "1.5e1", "2.5E-1" }; static const double LV[] = { 0.5, 2.0, .25, 3., 15., .25 };
  int i, fm = 0, at, lit; num r; double d; char n[2] = { 0, 0 };
  nops = vf_pick(1, 2); at = vf_pick(0, nops); par = vf_pick(0, nops); ASSUME(par != 1 || nops > 1); lit = vf_pick(0, 5);
  for (i = 0; i <= nops; i++) {
    una[i] = 0;
    if (par == i + 1) put("("); n[0] = 'p' + i; put(i == at ? LIT[lit] : n); if (par && par == i) put(")");
    if (i < nops) { ops[i] = vf_pick(0, NOP - 1); ASSUME(ops[i] != 4 && ops[i] != 5 && ops[i] != 6); put(OP[ops[i]].s); }
    val[i] = (signed char)vf_u8();
  }
  { /* reference: leaf `at` is the literal */
    num L[3], x; int a = -1; for (i = 0; i <= nops; i++) { L[i] = leaf(i); if (i == at) { L[i].f = 1; L[i].d = LV[lit]; L[i].i = 0; } }
    bad = 0; (void)x;
    if (nops == 1) r = bin(ops[0], L[0], L[1]);
    else if (par == 2 || (par != 1 && OP[ops[1]].lev > OP[ops[0]].lev)) { x = bin(ops[1], L[1], L[2]); if (bad) return; r = bin(ops[0], L[0], x); }
    else { x = bin(ops[0], L[0], L[1]); if (bad) return; r = bin(ops[1], x, L[2]); }
    (void)a;
  }
  d = fasteval_evaluate(line, get, set, &fm);
  CHECK(same_d(d, r.d), "the float value of the expression");
  CHECK(fm, "float mode"); COVER("ran");
}
/* number literals: decimal, hexadecimal, octal; blanks around */
void h_seta_num(void) {
  int k = vf_pick(0, 2), nd = vf_pick(1, 4), i, fm = 0, base = k == 0 ? 10 : k == 1 ? 16 : 8; long v = 0; double d;
  if (vf_pick(0, 1)) put(" "); if (k == 1) put("0x"); else if (k == 2) put("0");
  for (i = 0; i < nd; i++) {
    unsigned char c = vf_u8(); int dg = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
    ASSUME(k == 0 ? ((c >= '0') & (c <= '9')) && (i || c > '0') : k == 2 ? (c >= '0') & (c <= '7') : ((c >= '0') & (c <= '9')) | (((c | 32) >= 'a') & ((c | 32) <= 'f')));
    line[pos++] = c; line[pos] = 0; v = v * base + dg;
  }
  if (vf_pick(0, 1)) put("\t ");
  d = fasteval_evaluate(line, get, set, &fm);
  CHECK(!fm && d == (double)v, "the number as written"); COVER("ran");
}
/* names: any name is a variable, unless it is documented as a constant or function */
static char gotn[16]; static int gets_; static double getn(const char *n) { strncpy(gotn, n, 15); gets_++; return 7; }
void h_seta_name(void) {
  char nm[6]; int n = vf_pick(1, NNM), i, fm = 0, dig = 1, hex, bl; double d;
  for (i = 0; i < n; i++) { unsigned char c = vf_u8(); nm[i] = c; ASSUME((c > ' ') & (c != 127) & (c != '+') & (c != '-') & (c != '*') & (c != '/') & (c != '%') & (c != '&') & (c != '|') & (c != '^') & (c != '<') & (c != '>') & (c != '!') & (c != '~') & (c != '=') & (c != '(') & (c != ')') & (c != '.')); }
  nm[n] = 0; for (i = 0; i < n; i++) dig &= (nm[i] >= '0') & (nm[i] <= '9');
  ASSUME(!dig); hex = nm[0] == '0' && nm[1] == 'x'; ASSUME(!hex); ASSUME(!vf_streq(nm, "e")); ASSUME(!vf_streq(nm, "pi")); ASSUME(n < 3 || !(vf_streq(nm, "ln2") | vf_streq(nm, "exp") | vf_streq(nm, "log") | vf_streq(nm, "sin") | vf_streq(nm, "cos") | vf_streq(nm, "tan") | vf_streq(nm, "cot") | vf_streq(nm, "sec") | vf_streq(nm, "csc") | vf_streq(nm, "abs") | vf_streq(nm, "erf")));
  put(nm); bl = vf_pick(0, 2); put(bl == 0 ? "+1" : bl == 1 ? " - 1" : "*2");
  d = fasteval_evaluate(line, getn, set, &fm);
  CHECK(gets_ == 1 && vf_streq(gotn, nm), "the variable of that name is read"); CHECK(d == (bl == 0 ? 8 : bl == 1 ? 6 : 14), "its value is used"); COVER("ran");
}
/* the command: what is stored under which name, for = and every op= */
static int pnum(const char *s) { int n = 0, g = 0; CHECK(*s, "a number is stored"); if (*s == '-') { g = 1; s++; } for (; *s; s++) { CHECK(*s >= '0' && *s <= '9', "a number is stored"); n = n * 10 + *s - '0'; } return g ? -n : n; }
static int num2(char *t) { int l = 0, v, g = vf_pick(0, 1); unsigned char c = vf_u8(), e = vf_u8(); ASSUME((c >= '1') & (c <= '9')); ASSUME((e >= '0') & (e <= '9')); if (g) t[l++] = '-'; t[l++] = c; t[l++] = e; t[l] = 0; v = (c - '0') * 10 + e - '0'; return g ? -v : v; }
void h_seta_assign(void) {
  char a[8], b[8]; int x, y, z, o = vf_pick(-1, NOP - 1), q, set_; const char *r; num A, B;
  sh_boot();
  set_ = vf_pick(0, 1); x = 0; if (set_) { x = num2(a); sh_setenv("var", a); } else { x = 0; }
  if (o == 5 || o == 6) { b[0] = vf_of("01234567"); b[1] = 0; y = b[0] - '0'; } else { int g = vf_pick(0, 1); y = vf_int(1, 9); b[0] = '-'; b[g] = '0' + y; b[g + 1] = 0; if (g) y = -y; }
  q = o >= 5 || vf_pick(0, 1); 
  put("set /a "); if (q) put("\""); put(vf_pick(0, 1) ? "VAR" : "var "); if (o == 8) put("^^"); else if (o >= 0) put(OP[o].s); put("="); if (vf_pick(0, 1)) put(" "); put(b); if (q) put("\"");
  if (pos && 0) put("");
  A.f = B.f = 0; A.i = x; B.i = y; A.d = x; B.d = y; bad = 0; z = o < 0 ? y : (int)bin(o, A, B).i;
  sh_line(line); r = sh_getenv("var"); CHECK(r != 0, "the variable is set"); CHECK(pnum(r) == z, "the variable has the value of the operation");
  CHECK(sh_err()[0] == 0, "no error"); COVER("ran");
}
/* several assignments in one command, inline assignments, undefined names */
void h_seta_list(void) {
  char a[8]; int x, k = vf_pick(0, 5); const char *r;
  sh_boot(); bIsScript = vf_pick(0, 1); x = num2(a); sh_setenv("b", "9");
  put("set /a "); switch (k) { case 0: put("a="); put(a); put(",b=a*2,c=a-b"); break; case 1: put("a="); put(a); put(", b=a*2 , c=a-b"); break; case 2: put("\"a="); put(a); put("\",\"b=a*2\",\"c=a-b\""); break;
    case 3: put("c=a-(b=(a*2))"); sh_setenv("a", a); break; case 4: put("c=-(a="); put(a); put(")"); sh_setenv("b", ""); put(",b=2*a"); break; case 5: put("a="); put(a); put("+undef,b=a+a,c=undef-a*1"); break; }
  sh_line(line);
  r = sh_getenv("a"); CHECK(r && pnum(r) == x, "first"); r = sh_getenv("b"); CHECK(r && pnum(r) == 2 * x, "second"); r = sh_getenv("c"); CHECK(r && pnum(r) == -x, "third");
  CHECK(sh_err()[0] == 0, "no error"); sh_out(); CHECK(!bIsScript || !sh_outb[0], "a script prints nothing"); COVER("ran");
}

/* results are stored with all their digits */
void h_seta_store(void) {
  static const char *B[] = { "12345678", "21474836", "100000", "999999", "", "1234567890", "99999999999" }; char L[20]; int b = vf_pick(0, 4), neg = vf_pick(0, 1), k = vf_pick(0, 4), n; const char *r; unsigned char c, d;
  sh_boot(); c = "039"[vf_pick(0, b == 1 ? 1 : 2)]; d = '7'; if (b == 1 && k <= 1) { d = vf_u8(); ASSUME((d >= '0') & (d <= '9')); } if (b == 4) ASSUME(c != '0');
  n = 0; if (neg) L[n++] = '-'; strcpy(L + n, B[b]); n += vf_len(B[b]); L[n++] = c; L[n++] = d; L[n] = 0;
  put("set /a "); switch (k) { case 0: put("x="); put(L); break; case 1: put("x=(y="); put(L); put(")+0"); break; case 2: sh_setenv("x", "0"); put("x+="); put(L); break; case 3: sh_setenv("y", L); put("x=y*1"); break; case 4: put("y="); put(L); put(",x=y"); break; }
  sh_line(line); r = sh_getenv("x"); CHECK(r && vf_streq(r, L), "the result is stored with all its digits"); if (k == 1 || k == 4) { r = sh_getenv("y"); CHECK(r && vf_streq(r, L), "assignments inside as well"); } COVER("ran");
}
