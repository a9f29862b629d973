// Runtime of the symbolic executor: expression DAG, shadow memory, path decisions, Z3 queries and the
// fork-server that explores every feasible path.  Linked with the instrumented harness.
#include <functional>
#include <z3++.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <new>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;

void harness();
static int rt_depth = 1; // >0: allocations belong to the runtime
struct G { G() { rt_depth++; } ~G() { rt_depth--; } };

// ------------------------------------------------------------------ application heap
static char* arena = nullptr;
static size_t arena_top = 0;
static const size_t ARENA = size_t(1) << 36;
static void arena_init() {
   if (!arena) arena = (char*)mmap((void*)0x200000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
extern "C" void _sy_clear(void* p, u64 n);
static void* app_alloc(size_t n, size_t al) {
   arena_init();
   if (al < 16) al = 16;
   size_t s = (arena_top + 32 + al - 1) & ~(al - 1);
   if (n > ARENA / 2 || s + n > ARENA) throw std::bad_alloc();
   arena_top = s + n;
   char* p = arena + s;
   ((u64*)p)[-1] = n;
   memset(p, 0xCB, n);
   return p;
}
static void app_free(void* p) {
   if (!p) return;
   char* c = (char*)p;
   if (arena && c >= arena && c < arena + ARENA) {
      u64 n = ((u64*)p)[-1];
      memset(p, 0xDB, n);
      _sy_clear(p, n);
   } else free(p);
}
void* operator new(size_t n) { if (rt_depth) { void* p = malloc(n ? n : 1); return p; } return app_alloc(n, 16); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { if (rt_depth) return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); return app_alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { app_free(p); }
void operator delete[](void* p) noexcept { app_free(p); }
void operator delete(void* p, size_t) noexcept { app_free(p); }
void operator delete[](void* p, size_t) noexcept { app_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { app_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { app_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { app_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { app_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { app_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { app_free(p); }

// ------------------------------------------------------------------ expressions
enum Op : u8 { CONST, RCONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR, EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE, NOT, RADD, RSUB, RMUL, RDIV, RNEG, REQ, RLT, RLE, I2R, R2I, RINT, UF1, UF2, RBYTE };
struct Expr {
   Op op;
   u8 w; // 0 real, 1 boolean, else bit vector
   u8 real; // depends on a real variable
   u8 lo;
   Expr* k[3];
   u64 c; // constant, variable id, double bits
   int vs;
   int id;
};
static u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 asu(double d) { u64 v; memcpy(&v, &d, 8); return v; }

struct Var { std::string name; u8 w; u64 val; double dval; bool fresh; };
static std::vector<Var> vars;
// interned variable sets
static std::vector<std::vector<int>> vsets;
static std::map<std::vector<int>, int> vsetid;
static std::unordered_map<u64, int> vsunion;
static int mkvs(const std::vector<int>& v) {
   auto it = vsetid.find(v);
   if (it != vsetid.end()) return it->second;
   int i = vsets.size();
   vsets.push_back(v);
   vsetid[v] = i;
   return i;
}
static int uvs(int a, int b) {
   if (a == b || b == 0) return a;
   if (a == 0) return b;
   if (a > b) std::swap(a, b);
   u64 key = (u64)a << 32 | (unsigned)b;
   auto it = vsunion.find(key);
   if (it != vsunion.end()) return it->second;
   std::vector<int> r;
   std::set_union(vsets[a].begin(), vsets[a].end(), vsets[b].begin(), vsets[b].end(), std::back_inserter(r));
   return vsunion[key] = mkvs(r);
}
struct Key { Op op; u8 w, lo; Expr* k[3]; u64 c; bool operator==(const Key& o) const { return op == o.op && w == o.w && lo == o.lo && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && c == o.c; } };
struct KeyH { size_t operator()(const Key& k) const { u64 h = k.op * 1000003ull + k.w * 131 + k.lo * 7; for (auto* x : k.k) h = (h ^ (u64)x) * 0x9E3779B97F4A7C15ull + (h >> 29); h = (h ^ k.c) * 0xC2B2AE3D27D4EB4Full; return h ^ (h >> 31); } };
static std::unordered_map<Key, Expr*, KeyH> table;
static std::vector<Expr*> all;
static Expr* mk(Op op, u8 w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, u64 k = 0, u8 lo = 0) {
   Key key{op, w, lo, {a, b, c}, k};
   auto it = table.find(key);
   if (it != table.end()) return it->second;
   Expr* e = (Expr*)malloc(sizeof(Expr));
   e->op = op; e->w = w; e->lo = lo; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = k; e->real = 0; e->vs = 0; e->id = all.size();
   for (auto* x : e->k) if (x) { e->vs = uvs(e->vs, x->vs); e->real |= x->real; }
   if (op == VAR) { e->vs = mkvs({(int)k}); e->real = w == 0; }
   all.push_back(e);
   table[key] = e;
   return e;
}
static Expr* K(u64 v, unsigned w) { return mk(CONST, w, 0, 0, 0, v & mask(w)); }
static Expr* R(double d) { if (d == 0) d = 0; return mk(RCONST, 0, 0, 0, 0, asu(d)); }
static bool isK(Expr* e) { return e->op == CONST; }
static bool isR(Expr* e) { return e->op == RCONST; }
static bool isK(Expr* e, u64 v) { return e->op == CONST && e->c == (v & mask(e->w)); }
static bool isR(Expr* e, double v) { return e->op == RCONST && asd(e->c) == v; }
static Expr *TRUE_, *FALSE_;

struct Stats { u64 paths, queries, sat, unsat, unknown, decisions, asserts, asserted_queries; double solver; };
static Stats st;
static std::set<std::string> limits, reaches, labels;
static void limit(const std::string& s) { G g; if (getenv("SY_DEBUG")) fprintf(stderr, "LIMIT %s\n", s.c_str()); limits.insert(s); }

static Expr* Not(Expr* a) {
   if (isK(a)) return a->c ? FALSE_ : TRUE_;
   if (a->op == NOT) return a->k[0];
   return mk(NOT, 1, a);
}
static u64 evalbin(Op op, unsigned w, u64 a, u64 b, bool& ok) {
   a &= mask(w); b &= mask(w);
   i64 sa = sx(a, w), sb = sx(b, w);
   ok = true;
   switch (op) {
      case ADD: return (a + b) & mask(w);
      case SUB: return (a - b) & mask(w);
      case MUL: return (a * b) & mask(w);
      case UDIV: if (!b) { ok = false; return 0; } return a / b;
      case UREM: if (!b) { ok = false; return 0; } return a % b;
      case SDIV: if (!b || (sb == -1)) { ok = b != 0; return (0 - a) & mask(w); } return (u64)(sa / sb) & mask(w);
      case SREM: if (!b || (sb == -1)) { ok = b != 0; return 0; } return (u64)(sa % sb) & mask(w);
      case SHL: return b >= w ? 0 : (a << b) & mask(w);
      case LSHR: return b >= w ? 0 : a >> b;
      case ASHR: return (u64)(sa >> (b >= w ? w - 1 : b)) & mask(w);
      case AND: return a & b;
      case OR: return a | b;
      case XOR: return a ^ b;
      case EQ: return a == b;
      case ULT: return a < b;
      case ULE: return a <= b;
      case SLT: return sa < sb;
      case SLE: return sa <= sb;
      default: ok = false; return 0;
   }
}
static Expr* Ite(Expr* c, Expr* a, Expr* b) {
   if (isK(c)) return c->c ? a : b;
   if (a == b) return a;
   if (a->w == 1) {
      if (isK(a, 1) && isK(b, 0)) return c;
      if (isK(a, 0) && isK(b, 1)) return Not(c);
   }
   return mk(ITE, a->w, c, a, b);
}
static Expr* Bin(Op op, Expr* a, Expr* b) {
   unsigned w = a->w;
   bool cmp = op >= EQ && op <= SLE;
   if (isK(a) && isK(b)) { bool ok; u64 v = evalbin(op, w, a->c, b->c, ok); if (ok) return K(v, cmp ? 1 : w); }
   if (w == 1) {
      switch (op) {
         case AND: if (isK(a)) return a->c ? b : a; if (isK(b)) return b->c ? a : b; if (a == b) return a; return mk(AND, 1, a, b);
         case OR: if (isK(a)) return a->c ? a : b; if (isK(b)) return b->c ? b : a; if (a == b) return a; return mk(OR, 1, a, b);
         case ADD: case SUB: case XOR: if (isK(a)) return a->c ? Not(b) : b; if (isK(b)) return b->c ? Not(a) : a; if (a == b) return FALSE_; return mk(XOR, 1, a, b);
         case EQ: if (isK(a)) return a->c ? b : Not(b); if (isK(b)) return b->c ? a : Not(a); if (a == b) return TRUE_; return Not(mk(XOR, 1, a, b));
         case MUL: return Bin(AND, a, b);
         case ULT: return Bin(AND, Not(a), b);
         case ULE: return Bin(OR, Not(a), b);
         case SLT: return Bin(AND, a, Not(b));
         case SLE: return Bin(OR, a, Not(b));
         default: limit("boolean arithmetic"); return a;
      }
   }
   if (isK(a) && (op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ)) std::swap(a, b);
   if (isK(b)) {
      u64 c = b->c;
      if (c == 0) {
         if (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR) return a;
         if (op == MUL || op == AND) return b;
         if (op == ULT) return FALSE_;
      }
      if (c == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
      if (c == mask(w) && op == AND) return a;
      if (op == SUB) { op = ADD; b = K(0 - c, w); c = b->c; }
      if (op == ADD && a->op == ADD && isK(a->k[1])) return Bin(ADD, a->k[0], K(a->k[1]->c + c, w));
      if (op == EQ) {
         if (a->op == ADD && isK(a->k[1])) return Bin(EQ, a->k[0], K(c - a->k[1]->c, w));
         if (a->op == ZEXT) { if (c > mask(a->k[0]->w)) return FALSE_; if (a->k[0]->w == 1) return c ? a->k[0] : Not(a->k[0]); return Bin(EQ, a->k[0], K(c, a->k[0]->w)); }
         if (a->op == SEXT && a->k[0]->w > 1) { u64 t = c & mask(a->k[0]->w); if ((u64)sx(t, a->k[0]->w) != (u64)sx(c, w)) return FALSE_; return Bin(EQ, a->k[0], K(t, a->k[0]->w)); }
         if (a->op == ITE && isK(a->k[1]) && isK(a->k[2])) {
            bool x = a->k[1]->c == c, y = a->k[2]->c == c;
            return x ? (y ? TRUE_ : a->k[0]) : (y ? Not(a->k[0]) : FALSE_);
         }
      }
   }
   if (a == b) {
      if (op == SUB || op == XOR) return K(0, w);
      if (op == AND || op == OR) return a;
      if (op == EQ || op == ULE || op == SLE) return TRUE_;
      if (op == ULT || op == SLT) return FALSE_;
   }
   return mk(op, cmp ? 1 : w, a, b);
}
static Expr* Cast(int k, unsigned from, unsigned to, Expr* a) {
   if (a->w == to) return a;
   if (k == 2) {
      if (isK(a)) return K(a->c, to);
      if ((a->op == ZEXT || a->op == SEXT) && a->k[0]->w == to) return a->k[0];
      if ((a->op == ZEXT || a->op == SEXT) && a->k[0]->w > to) return Cast(2, a->k[0]->w, to, a->k[0]);
      if ((a->op == ZEXT || a->op == SEXT) && to > a->k[0]->w && to != 1) return Cast(a->op == SEXT, a->k[0]->w, to, a->k[0]);
      if (to == 1) {
         if (a->op == ITE) return Ite(a->k[0], Cast(2, from, 1, a->k[1]), Cast(2, from, 1, a->k[2]));
         return Bin(EQ, mk(EXTRACT, 2, Bin(AND, a, K(1, a->w)), nullptr, nullptr, 0, 0), K(1, 2));
      }
      if (a->op == ITE && (isK(a->k[1]) || isK(a->k[2]))) return Ite(a->k[0], Cast(2, from, to, a->k[1]), Cast(2, from, to, a->k[2]));
      return mk(EXTRACT, to, a, nullptr, nullptr, 0, 0);
   }
   if (isK(a)) return K(k == 1 ? (u64)sx(a->c, a->w) : a->c, to);
   if (a->w == 1) return mk(ITE, to, a, K(k == 1 ? ~0ull : 1, to), K(0, to));
   if (k == 0 && a->op == ZEXT) return Cast(0, a->k[0]->w, to, a->k[0]);
   if (k == 1 && a->op == SEXT) return Cast(1, a->k[0]->w, to, a->k[0]);
   if (k == 1 && a->op == ZEXT) return Cast(0, a->k[0]->w, to, a->k[0]);
   if (a->op == ITE && isK(a->k[1]) && isK(a->k[2])) return Ite(a->k[0], Cast(k, from, to, a->k[1]), Cast(k, from, to, a->k[2]));
   return mk(k == 1 ? SEXT : ZEXT, to, a);
}
// ---- reals
static bool exact(double r) { return std::isfinite(r); }
static Expr* RNeg(Expr* a) { if (isR(a)) return R(-asd(a->c)); if (a->op == RNEG) return a->k[0]; return mk(RNEG, 0, a); }
static Expr* RBin(Op op, Expr* a, Expr* b) {
   if (isR(a) && isR(b)) {
      double x = asd(a->c), y = asd(b->c);
      // fold only when the double result is exact
      if (op == RADD || op == RSUB) { double yy = op == RADD ? y : -y; double r = x + yy; if (exact(r) && r - x == yy && r - yy == x) return R(r); }
      if (op == RMUL) { double r = x * y; if (exact(r) && std::fma(x, y, -r) == 0 && (r != 0 || x == 0 || y == 0)) return R(r); }
      if (op == RDIV && y != 0) { double r = x / y; if (exact(r) && std::fma(r, y, -x) == 0 && (r != 0 || x == 0)) return R(r); }
   }
   switch (op) {
      case RADD: if (isR(a, 0)) return b; if (isR(b, 0)) return a; if (b->op == RNEG) return RBin(RSUB, a, b->k[0]); if (a->op == RNEG) return RBin(RSUB, b, a->k[0]); if (a->id > b->id) std::swap(a, b); break;
      case RSUB: if (isR(b, 0)) return a; if (isR(a, 0)) return RNeg(b); if (a == b) return R(0); if (b->op == RNEG) return RBin(RADD, a, b->k[0]); break;
      case RMUL: if (isR(a, 0) || isR(b, 0)) return R(0); if (isR(a, 1)) return b; if (isR(b, 1)) return a; if (isR(a, -1)) return RNeg(b); if (isR(b, -1)) return RNeg(a);
         if (a->op == RNEG) return RNeg(RBin(RMUL, a->k[0], b)); if (b->op == RNEG) return RNeg(RBin(RMUL, a, b->k[0]));
         if (a->id > b->id) std::swap(a, b); break;
      case RDIV: if (isR(b, 1)) return a; if (isR(a, 0)) return a; break;
      default: break;
   }
   return mk(op, 0, a, b);
}
static Expr* RCmp(Op op, Expr* a, Expr* b) {
   if (isR(a) && isR(b)) { double x = asd(a->c), y = asd(b->c); return K(op == REQ ? x == y : op == RLT ? x < y : x <= y, 1); }
   if (a == b) return op == RLT ? FALSE_ : TRUE_;
   if (op == REQ && a->id > b->id) std::swap(a, b);
   return mk(op, 1, a, b);
}

// ------------------------------------------------------------------ Z3
static z3::context* zc;
static std::unordered_map<Expr*, z3::expr>* zmemo;
static z3::expr tob(Expr* e); // forward
static z3::expr zreal(double d) {
   // exact rational
   if (d == 0) return zc->real_val(0);
   int ex;
   double m = std::frexp(d, &ex);
   i64 n = (i64)std::ldexp(m, 53);
   ex -= 53;
   while (n % 2 == 0 && ex < 0) { n /= 2; ex++; }
   z3::expr r = zc->real_val((int64_t)n);
   if (ex == 0) return r;
   z3::expr p = zc->real_val(1);
   std::string s = "1";
   // 2^|ex| as decimal string through z3
   z3::expr two = zc->real_val(2);
   z3::expr pw = z3::pw(two, zc->real_val(std::abs(ex)));
   return (ex > 0 ? r * pw : r / pw).simplify();
}
static z3::expr tr(Expr* e) {
   // iterative post-order
   std::vector<Expr*> stk{e};
   while (!stk.empty()) {
      Expr* x = stk.back();
      if (zmemo->count(x)) { stk.pop_back(); continue; }
      bool ready = true;
      for (auto* k : x->k) if (k && !zmemo->count(k)) { stk.push_back(k); ready = false; }
      if (!ready) continue;
      stk.pop_back();
      auto k = [&](int i) -> z3::expr { return zmemo->at(x->k[i]); };
      z3::expr r(*zc);
      switch (x->op) {
         case CONST: r = x->w == 1 ? zc->bool_val(x->c != 0) : zc->bv_val((uint64_t)x->c, x->w); break;
         case RCONST: r = zreal(asd(x->c)); break;
         case VAR: {
            std::string n = vars[x->c].name + "!" + std::to_string(x->c);
            r = x->w == 0 ? zc->real_const(n.c_str()) : x->w == 1 ? zc->bool_const(n.c_str()) : zc->bv_const(n.c_str(), x->w);
            break;
         }
         case ADD: r = k(0) + k(1); break;
         case SUB: r = k(0) - k(1); break;
         case MUL: r = k(0) * k(1); break;
         case UDIV: r = z3::udiv(k(0), k(1)); break;
         case SDIV: r = k(0) / k(1); break;
         case UREM: r = z3::urem(k(0), k(1)); break;
         case SREM: r = z3::srem(k(0), k(1)); break;
         case SHL: r = z3::shl(k(0), k(1)); break;
         case LSHR: r = z3::lshr(k(0), k(1)); break;
         case ASHR: r = z3::ashr(k(0), k(1)); break;
         case AND: r = x->w == 1 ? (k(0) && k(1)) : (k(0) & k(1)); break;
         case OR: r = x->w == 1 ? (k(0) || k(1)) : (k(0) | k(1)); break;
         case XOR: r = x->w == 1 ? (k(0) != k(1)) : (k(0) ^ k(1)); break;
         case EQ: r = k(0) == k(1); break;
         case ULT: r = z3::ult(k(0), k(1)); break;
         case ULE: r = z3::ule(k(0), k(1)); break;
         case SLT: r = k(0) < k(1); break;
         case SLE: r = k(0) <= k(1); break;
         case ZEXT: r = z3::zext(k(0), x->w - x->k[0]->w); break;
         case SEXT: r = z3::sext(k(0), x->w - x->k[0]->w); break;
         case EXTRACT: r = k(0).extract(x->lo + x->w - 1, x->lo); break;
         case CONCAT: r = z3::concat(k(0), k(1)); break;
         case RBYTE: limit("byte of a real inspected"); r = zc->bv_const(("rbyte!" + std::to_string(x->id)).c_str(), 8); break;
         case ITE: r = z3::ite(k(0), k(1), k(2)); break;
         case NOT: r = !k(0); break;
         case RADD: r = k(0) + k(1); break;
         case RSUB: r = k(0) - k(1); break;
         case RMUL: r = k(0) * k(1); break;
         case RDIV: r = k(0) / k(1); break;
         case RNEG: r = -k(0); break;
         case REQ: r = k(0) == k(1); break;
         case RLT: r = k(0) < k(1); break;
         case RLE: r = k(0) <= k(1); break;
         case I2R: r = z3::expr(*zc, Z3_mk_int2real(*zc, Z3_mk_bv2int(*zc, k(0), x->c))); break;
         case R2I: r = z3::expr(*zc, Z3_mk_int2bv(*zc, x->w, Z3_mk_real2int(*zc, k(0)))); break;
         case RINT: r = z3::expr(*zc, Z3_mk_int2real(*zc, Z3_mk_real2int(*zc, k(0)))); break; // floor
         case UF1: { z3::func_decl f = zc->function(("uf" + std::to_string(x->c)).c_str(), zc->real_sort(), zc->real_sort()); r = f(k(0)); break; }
         case UF2: { z3::func_decl f = zc->function(("ug" + std::to_string(x->c)).c_str(), zc->real_sort(), zc->real_sort(), zc->real_sort()); r = f(k(0), k(1)); break; }
         default: abort();
      }
      zmemo->emplace(x, r);
   }
   return zmemo->at(e);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
enum Res { SAT, UNSAT, UNK };
struct ModelVal { u64 v; double d; };
typedef std::map<int, ModelVal> Model;
static unsigned rlimit = 40000000;
static double zdouble(const z3::expr& v) {
   if (v.is_numeral()) {
      std::string s = v.get_decimal_string(25);
      return atof(s.c_str());
   }
   if (v.is_algebraic()) { std::string s = v.get_decimal_string(25); return atof(s.c_str()); }
   return 0;
}
static std::vector<Expr*> pc; // path condition
static std::unordered_set<Expr*> pcset;
static std::vector<Expr*> axioms;

// constraints of cs relevant to seed variables
static std::vector<Expr*> slice(const std::vector<Expr*>& cs, int seedvs) {
   std::vector<char> in(vars.size(), 0), used(cs.size(), 0);
   for (int v : vsets[seedvs]) in[v] = 1;
   std::vector<Expr*> r;
   bool ch = true;
   while (ch) {
      ch = false;
      for (size_t i = 0; i < cs.size(); i++) {
         if (used[i]) continue;
         bool hit = false;
         for (int v : vsets[cs[i]->vs]) if (in[v]) { hit = true; break; }
         if (!hit) continue;
         used[i] = 1;
         r.push_back(cs[i]);
         for (int v : vsets[cs[i]->vs]) if (!in[v]) { in[v] = 1; ch = true; }
      }
   }
   return r;
}
static bool z3trace = false;
static Res check(const std::vector<Expr*>& cs, Model* out, bool assertq = false) {
   double t0 = now();
   st.queries++;
   if (assertq) st.asserted_queries++;
   Res res = UNK;
   try {
      bool anyreal = false, anyint = false;
      int vs = 0;
      for (auto* c : cs) { anyreal |= c->real; vs = uvs(vs, c->vs); }
      for (int v : vsets[vs]) if (vars[v].w) anyint = true;
      auto run = [&](z3::solver s) {
         z3::params p(*zc);
         p.set("rlimit", rlimit);
         s.set(p);
         for (auto* c : cs) s.add(tr(c));
         z3::check_result r = s.check();
         if (r == z3::sat) {
            res = SAT;
            if (out) {
               z3::model m = s.get_model();
               for (int v : vsets[vs]) {
                  z3::expr x = m.eval(tr(mk(VAR, vars[v].w, 0, 0, 0, v)), true);
                  ModelVal mv{0, 0};
                  if (vars[v].w == 0) mv.d = zdouble(x);
                  else if (vars[v].w == 1) mv.v = x.is_true();
                  else { uint64_t u = 0; x.is_numeral_u64(u); mv.v = u; }
                  (*out)[v] = mv;
               }
            }
         } else if (r == z3::unsat) res = UNSAT;
      };
      if (!anyreal) {
         run(z3::solver(*zc));
      } else {
         // polynomial normalisation first (sum of monomials), then the nonlinear solver
         z3::params sp(*zc);
         sp.set("som", true);
         sp.set("som_blowup", 2000u);
         z3::tactic t = z3::with(z3::tactic(*zc, "simplify"), sp) & z3::tactic(*zc, "propagate-values") & z3::tactic(*zc, "solve-eqs") & z3::with(z3::tactic(*zc, "simplify"), sp) & z3::tactic(*zc, anyint ? "smt" : "default");
         if (assertq && !out) {
            // sound shortcut for unsat: monomials as opaque terms
            z3::tactic l = z3::with(z3::tactic(*zc, "simplify"), sp) & z3::tactic(*zc, "propagate-values") & z3::tactic(*zc, "solve-eqs") & z3::with(z3::tactic(*zc, "simplify"), sp) & z3::tactic(*zc, "smt");
            z3::solver s = l.mk_solver();
            z3::params p(*zc);
            p.set("rlimit", rlimit);
            p.set("arith.nl", false);
            s.set(p);
            for (auto* c : cs) s.add(tr(c));
            if (s.check() == z3::unsat) res = UNSAT;
         }
         if (res == UNK) run(t.mk_solver());
         if (res == UNK) run(z3::solver(*zc));
      }
   } catch (z3::exception& e) {
      limit(std::string("z3: ") + e.msg());
      res = UNK;
   }
   double dt = now() - t0;
   st.solver += dt;
   if (z3trace && dt > 0.5) {
      fprintf(stderr, "query %s %.2fs, %zu constraints%s\n", res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown", dt, cs.size(), assertq ? " (assert)" : "");
      if (getenv("SY_DUMP")) for (auto* c : cs) fprintf(stderr, "   %s\n", tr(c).to_string().c_str());
   }
   if (res == SAT) st.sat++; else if (res == UNSAT) st.unsat++; else st.unknown++;
   return res;
}

// ------------------------------------------------------------------ paths
struct Item { std::vector<u64> dec; std::map<int, u64> ints; bool wit = false; };
static Item cur;
static size_t ndec = 0;
static int outfd = -1;
static std::unordered_map<Expr*, u64> concmap;
static int tier = 0;

static void put(std::string& b, const void* p, size_t n) { b.append((const char*)p, n); }
template<class T> static void putv(std::string& b, T v) { put(b, &v, sizeof v); }
static void puts_(std::string& b, const std::string& s) { putv<uint32_t>(b, s.size()); b += s; }
static void sendmsg_(char type, const std::string& body) {
   std::string m;
   putv<uint32_t>(m, body.size() + 1);
   m += type;
   m += body;
   size_t o = 0;
   while (o < m.size()) { ssize_t k = write(outfd, m.data() + o, m.size() - o); if (k <= 0) { if (errno == EINTR) continue; _exit(3); } o += k; }
}
static std::vector<u64> taken; // decisions so far
static void spawn(const std::vector<u64>& dec, const Model& m) {
   std::string b;
   putv<uint32_t>(b, dec.size());
   put(b, dec.data(), dec.size() * 8);
   std::map<int, u64> ints;
   for (size_t i = 0; i < vars.size(); i++) if (vars[i].w) ints[i] = vars[i].val;
   for (auto& [v, x] : m) if (vars[v].w) ints[v] = x.v;
   putv<uint32_t>(b, ints.size());
   for (auto& [v, x] : ints) { putv<int>(b, v); putv<u64>(b, x); }
   sendmsg_('C', b);
}
static void add_pc(Expr* e) { if (isK(e)) return; if (pcset.insert(e).second) pc.push_back(e); }

struct Pending { Expr* cond; std::string what; };
static std::vector<Pending> pending;
static std::set<std::string> reported;
static std::string modeltext(const Model& m) {
   std::string t;
   char buf[400];
   for (size_t i = 0; i < vars.size(); i++) {
      if (vars[i].fresh) continue;
      auto it = m.find(i);
      if (vars[i].w == 0) {
         double d = it != m.end() ? it->second.d : vars[i].dval;
         snprintf(buf, sizeof buf, "%s %.17g\n", vars[i].name.c_str(), d);
      } else {
         u64 v = it != m.end() ? it->second.v : vars[i].val;
         snprintf(buf, sizeof buf, "%s %lld\n", vars[i].name.c_str(), (long long)(vars[i].w == 1 ? (i64)v : sx(v, vars[i].w)));
      }
      t += buf;
   }
   return t;
}
static void report(const std::string& kind, const std::string& what, const Model& m) {
   if (!reported.insert(what).second) return;
   std::string b;
   puts_(b, kind);
   puts_(b, what);
   puts_(b, modeltext(m));
   sendmsg_('V', b);
}
// Model of the whole path condition plus extra (ints not constrained keep their current value)
static Res full_model(std::vector<Expr*> extra, Model& m) {
   std::vector<Expr*> cs = pc;
   for (auto* a : axioms) cs.push_back(a);
   for (auto* e : extra) cs.push_back(e);
   // constraints without common variables are solved separately
   Res r = SAT;
   Model parts;
   for (auto rest = cs; !rest.empty() && r == SAT;) {
      auto part = slice(rest, rest.front()->vs);
      if (part.empty()) part.push_back(rest.front());
      std::unordered_set<Expr*> in(part.begin(), part.end());
      r = check(part, &parts);
      rest.erase(std::remove_if(rest.begin(), rest.end(), [&](Expr* e) { return in.count(e); }), rest.end());
   }
   if (r == SAT) { m = parts; return r; }
   if (r == UNK) r = check(cs, &m);
   if (r == UNK) {
      m.clear();
      // without the axioms
      cs = pc;
      for (auto* e : extra) cs.push_back(e);
      r = check(cs, &m);
   }
   return r;
}
static std::vector<Expr*> same; // equalities whose two sides are one and the same term
static void flush_same() {
   // one query for all of them: is there a value of the inputs for which some pair differs?
   if (same.empty()) return;
   double t0 = now();
   try {
      z3::solver s(*zc);
      z3::expr_vector v(*zc);
      for (auto* e : same) { z3::expr x = tr(e); v.push_back(!(x == x)); }
      s.add(z3::mk_or(v));
      st.queries++; st.asserted_queries++;
      if (s.check() == z3::unsat) st.unsat++; else limit("trivial equality not confirmed");
   } catch (z3::exception& e) { limit(std::string("z3: ") + e.msg()); }
   st.solver += now() - t0;
   same.clear();
}
static void flush_asserts() {
   flush_same();
   if (pending.empty()) return;
   auto todo = std::move(pending);
   pending.clear();
   std::vector<Expr*> base = pc;
   for (auto* a : axioms) base.push_back(a);
   // group by slice is left to the solver; first all together, then one by one
   auto query = [&](size_t lo, size_t hi, Model* m) {
      Expr* d = FALSE_;
      std::unordered_set<Expr*> seen;
      for (size_t i = lo; i < hi; i++) if (seen.insert(todo[i].cond).second) d = Bin(OR, d, Not(todo[i].cond));
      if (isK(d)) return d->c ? SAT : UNSAT;
      auto cs = slice(base, d->vs);
      cs.push_back(d);
      return check(cs, m, true);
   };
   Res r = todo.size() <= 64 ? query(0, todo.size(), nullptr) : UNK;
   if (r == UNSAT) return;
   for (size_t i = 0; i < todo.size(); i++) {
      Model m;
      Res q = query(i, i + 1, &m);
      if (q == UNSAT) continue;
      if (q == UNK) { limit("assertion undecided: " + todo[i].what); continue; }
      Model full;
      Res f = full_model({Not(todo[i].cond)}, full);
      if (f == UNSAT) continue; // the rest of the path condition excludes it
      if (f == SAT) m = full;
      report("assert", todo[i].what, m);
      if (reported.size() >= 4) break;
   }
}
static u8* hitshared = nullptr;
struct Mod { const char* names; u8* hits; int n; };
static std::vector<Mod>& mods() { static std::vector<Mod> m; return m; }
extern "C" void _sy_register(const char* names, u8* hits, int n) { G g; mods().push_back({names, hits, n}); }

static void finish(const char* how) {
   G g;
   flush_asserts();
   if (cur.wit && !strcmp(how, "end")) { Model m; if (full_model({}, m) == SAT) { std::string b; puts_(b, modeltext(m)); sendmsg_('W', b); } }
   if (hitshared) { size_t o = 0; for (auto& m : mods()) { for (int i = 0; i < m.n; i++) if (m.hits[i]) hitshared[o + i] = 1; o += m.n; } }
   std::string b;
   puts_(b, how);
   st.decisions = ndec;
   put(b, &st, sizeof st);
   auto set = [&](std::set<std::string>& s) { putv<uint32_t>(b, s.size()); for (auto& x : s) puts_(b, x); };
   set(limits);
   set(reaches);
   set(labels);
   sendmsg_('E', b);
   _exit(0);
}
static void crash(int sig) {
   static int in = 0;
   if (in++) _exit(4);
   if (sig == SIGALRM && rt_depth > 0) _exit(5); // inside the solver: counted as an unfinished path
   rt_depth = 1;
   sigset_t ss;
   sigemptyset(&ss);
   sigprocmask(SIG_SETMASK, &ss, nullptr);
   Model m;
   Res r = full_model({}, m);
   std::string w = sig == SIGALRM || sig == SIGVTALRM || sig == SIGPROF ? "the operation does not terminate" : std::string("the operation crashes (") + strsignal(sig) + ")";
   if (r != UNSAT) report(sig == SIGALRM || sig == SIGPROF ? "hang" : "crash", w, m);
   pending.clear();
   finish("crash");
}

static bool decide(Expr* e, bool v) { // e symbolic boolean
   if (isK(e)) return e->c;
   if (pcset.count(e)) return true;
   if (pcset.count(Not(e))) return false;
   size_t i = ndec++;
   bool d;
   if (i < cur.dec.size()) d = cur.dec[i];
   else {
      auto cs = slice(pc, e->vs);
      if (e->real) {
         // keep the integers of this run; let the solver choose a direction for the reals
         std::vector<Expr*> q = cs;
         int vs = e->vs;
         for (auto* c : cs) vs = uvs(vs, c->vs);
         for (int x : vsets[vs]) if (vars[x].w) { Expr* ve = mk(VAR, vars[x].w, 0, 0, 0, x); q.push_back(vars[x].w == 1 ? (vars[x].val ? ve : Not(ve)) : Bin(EQ, ve, K(vars[x].val, vars[x].w))); }
         q.push_back(e);
         Res r = check(q, nullptr);
         if (r == UNK) limit("undecided branch");
         d = r != UNSAT;
      } else d = v;
      auto q = cs;
      q.push_back(d ? Not(e) : e);
      Model m;
      Res r = check(q, &m);
      if (r == SAT) { auto dec = taken; dec.push_back(!d); spawn(dec, m); }
      if (r == UNK) limit("undecided branch (other side not explored)");
   }
   taken.push_back(d);
   add_pc(d ? e : Not(e));
   return d;
}
static u64 concretise(Expr* e, u64 v) {
   if (isK(e)) return e->c;
   auto it = concmap.find(e);
   if (it != concmap.end()) return it->second;
   if (e->w == 0) { limit("real value used as integer or address"); return v; }
   if (e->w == 1) return decide(e, v);
   size_t i = ndec++;
   u64 r;
   if (i < cur.dec.size()) r = cur.dec[i];
   else {
      auto cs = slice(pc, e->vs);
      int vs = e->vs;
      for (auto* c : cs) vs = uvs(vs, c->vs);
      if (e->real) {
         std::vector<Expr*> q = cs;
         Expr* f = nullptr;
         for (int x : vsets[vs]) if (vars[x].w) { Expr* ve = mk(VAR, vars[x].w, 0, 0, 0, x); q.push_back(vars[x].w == 1 ? (vars[x].val ? ve : Not(ve)) : Bin(EQ, ve, K(vars[x].val, vars[x].w))); }
         // fresh variable for the value
         vars.push_back({"conc", e->w, 0, 0, true});
         f = mk(VAR, e->w, 0, 0, 0, vars.size() - 1);
         q.push_back(Bin(EQ, e, f));
         Model m;
         Res rr = check(q, &m);
         if (rr != SAT) { limit("cannot choose a concrete value"); r = v; }
         else r = m[vars.size() - 1].v;
         vars.pop_back();
         // NB: the id is reused; drop memo entries
         table.erase(Key{VAR, e->w, 0, {0, 0, 0}, (u64)vars.size()});
         zmemo->erase(f);
      } else r = v & mask(e->w);
      std::vector<Expr*> q = cs;
      q.push_back(Not(Bin(EQ, e, K(r, e->w))));
      for (int n = 0;; n++) {
         if (n > 5000) { limit("too many values in one concretisation"); break; }
         Model m;
         Res rr = check(q, &m);
         if (rr == UNK) { limit("undecided concretisation"); break; }
         if (rr == UNSAT) break;
         // value of e in m
         z3::expr_vector src(*zc), dst(*zc);
         for (int x : vsets[e->vs]) {
            src.push_back(tr(mk(VAR, vars[x].w, 0, 0, 0, x)));
            u64 mv = m[x].v;
            dst.push_back(vars[x].w == 0 ? zreal(m[x].d) : vars[x].w == 1 ? zc->bool_val(mv != 0) : zc->bv_val((uint64_t)mv, vars[x].w));
         }
         z3::expr z = tr(e).substitute(src, dst).simplify();
         uint64_t val = 0;
         if (!z.is_numeral_u64(val)) { limit("cannot evaluate concretised value"); break; }
         auto dec = taken;
         dec.push_back(val);
         spawn(dec, m);
         q.push_back(Not(Bin(EQ, e, K(val, e->w))));
      }
   }
   taken.push_back(r);
   add_pc(Bin(EQ, e, K(r, e->w)));
   concmap[e] = r;
   return r;
}

// ------------------------------------------------------------------ shadow memory
struct SB { Expr* e; u8 idx, n; };
struct Page { SB b[4096]; };
static std::unordered_map<u64, Page*> pages;
static u64 lastno = ~0ull;
static Page* lastpg = nullptr;
static Page* findpg(u64 no) {
   if (no == lastno) return lastpg;
   auto it = pages.find(no);
   lastno = no;
   lastpg = it == pages.end() ? nullptr : it->second;
   return lastpg;
}
static Page* makepg(u64 no) {
   Page* p = findpg(no);
   if (p) return p;
   G g;
   p = (Page*)calloc(1, sizeof(Page));
   pages[no] = p;
   lastno = no; lastpg = p;
   return p;
}
static SB* at(u64 a) { Page* p = findpg(a >> 12); if (!p) return nullptr; return &p->b[a & 4095]; }
extern "C" {
void* __sy_args[64];
void* __sy_rets[64];
void* __sy_byval[64];
void* __sy_fn;
void* __sy_retfn;

void _sy_clear(void* ptr, u64 n) {
   u64 a = (u64)ptr, e = a + n;
   while (a < e) {
      u64 pe = (a | 4095) + 1;
      if (pe > e || pe == 0) pe = e;
      if (Page* p = findpg(a >> 12)) memset(&p->b[a & 4095], 0, sizeof(SB) * (pe - a));
      a = pe;
   }
}
void _sy_unsup() { limit("unsupported instruction on symbolic data"); }
void _sy_unsup_load(void* p, u64 n) { for (u64 i = 0; i < n; i++) if (SB* s = at((u64)p + i)) if (s->e) { limit("unsupported load of symbolic data"); return; } }
void* _sy_load(void* ptr, int n, int fp, int w) {
   u64 a = (u64)ptr;
   bool any = false, same = true;
   SB* f = at(a);
   Expr* e = f ? f->e : nullptr;
   for (int i = 0; i < n; i++) {
      SB* s = at(a + i);
      if (s && s->e) { any = true; if (s->e != e || s->idx != i || s->n != n) same = false; }
      else same = false;
   }
   if (!any) return nullptr;
   G g;
   if (same && e) {
      if (w == 1 && e->w > 1) return Cast(2, e->w, 1, e);
      if (fp && e->w) { limit("integer bits read as a real"); return nullptr; }
      return e;
   }
   if (fp) { limit("partial read of a real"); return nullptr; }
   Expr* r = nullptr;
   for (int i = 0; i < n; i++) {
      SB* s = at(a + i);
      Expr* b;
      if (s && s->e) {
         if (s->e->w == 0) b = mk(RBYTE, 8, s->e, nullptr, nullptr, s->n, s->idx); // moved around, not looked at
         else if (s->e->w == 8) b = s->e;
         else if (isK(s->e)) b = K(s->e->c >> (8 * s->idx), 8);
         else b = mk(EXTRACT, 8, s->e, nullptr, nullptr, 0, s->idx * 8);
      } else b = K(((u8*)ptr)[i], 8);
      if (!r) r = b;
      else if (isK(r) && isK(b)) r = K(r->c | b->c << r->w, r->w + 8);
      else r = mk(CONCAT, r->w + 8, b, r);
   }
   if (w == 1) return Cast(2, 8, 1, r);
   return r;
}
void _sy_store(void* ptr, int n, void* s) {
   Expr* e = (Expr*)s;
   u64 a = (u64)ptr;
   if (!e) { _sy_clear(ptr, n); return; }
   G g;
   if (e->op == RBYTE || e->op == CONCAT) {
      std::vector<Expr*> bytes;
      std::function<void(Expr*)> flat = [&](Expr* x) {
         if (x->op == CONCAT) { flat(x->k[1]); flat(x->k[0]); }
         else if (isK(x)) for (unsigned i = 0; i < x->w; i += 8) bytes.push_back(K(x->c >> i, 8));
         else bytes.push_back(x);
      };
      flat(e);
      if (std::all_of(bytes.begin(), bytes.end(), [](Expr* x) { return x->w == 8; }) && (int)bytes.size() == n) {
         for (int i = 0; i < n; i++) {
            SB& b = makepg((a + i) >> 12)->b[(a + i) & 4095];
            if (bytes[i]->op == RBYTE) b = SB{bytes[i]->k[0], bytes[i]->lo, (u8)bytes[i]->c};
            else if (isK(bytes[i])) b = SB{nullptr, 0, 0};
            else b = SB{bytes[i], 0, 1};
         }
         return;
      }
   }
   if (e->w == 1) e = Cast(0, 1, 8 * n, e);
   else if (e->w && e->w < 8 * n) e = Cast(0, e->w, 8 * n, e);
   for (int i = 0; i < n; i++) { SB& b = makepg((a + i) >> 12)->b[(a + i) & 4095]; b.e = e; b.idx = i; b.n = n; }
}
void _sy_memcpy(void* d, void* s, u64 n) {
   u64 a = (u64)d, b = (u64)s;
   if (a == b || n == 0) return;
   // anything symbolic in the source?
   bool any = false;
   for (u64 x = b; x < b + n;) { u64 pe = (x | 4095) + 1; if (pe > b + n) pe = b + n; if (Page* p = findpg(x >> 12)) for (u64 y = x; y < pe; y++) if (p->b[y & 4095].e) { any = true; break; } if (any) break; x = pe; }
   if (!any) { _sy_clear(d, n); return; }
   G g;
   std::vector<SB> t(n);
   for (u64 i = 0; i < n; i++) { SB* x = at(b + i); if (x) t[i] = *x; else t[i] = SB{nullptr, 0, 0}; }
   for (u64 i = 0; i < n; i++) {
      if (t[i].e) makepg((a + i) >> 12)->b[(a + i) & 4095] = t[i];
      else if (SB* x = at(a + i)) *x = SB{nullptr, 0, 0};
   }
}
void _sy_memset(void* d, u64 n, void* s) { G g; for (u64 i = 0; i < n; i++) _sy_store((char*)d + i, 1, s); }
int _sy_anysym(const void* p, u64 n) {
   u64 a = (u64)p;
   for (u64 x = a; x < a + n;) { u64 pe = (x | 4095) + 1; if (pe > a + n) pe = a + n; if (Page* g = findpg(x >> 12)) for (u64 y = x; y < pe; y++) if (g->b[y & 4095].e) return 1; x = pe; }
   return 0;
}
// the same value in both places on every input of this path (same expression, or the same concrete bytes)
int _sy_same(const void* p, const void* q, u64 n) {
   for (u64 i = 0; i < n; i++) {
      SB *a = at((u64)p + i), *b = at((u64)q + i);
      Expr *x = a ? a->e : nullptr, *y = b ? b->e : nullptr;
      if (x != y || (x && (a->idx != b->idx || a->n != b->n))) return 0;
      if (!x && ((const u8*)p)[i] != ((const u8*)q)[i]) return 0;
   }
   return 1;
}
void _sy_byvalcopy(void* d, void* s, u64 n) { if (s) _sy_memcpy(d, s, n); else _sy_clear(d, n); }

static Expr* E(void* s, u64 v, unsigned w) { return s ? (Expr*)s : K(v, w); }
static Expr* ER(void* s, double v) { return s ? (Expr*)s : R(v); }

void* _sy_bin(int op, int w, void* a, u64 av, void* b, u64 bv) {
   if (!a && !b) return nullptr;
   G g;
   Expr *x = E(a, av, w), *y = E(b, bv, w);
   // llvm::Instruction opcodes
   enum { Add = 13, Sub = 15, Mul = 17, UDiv = 19, SDiv = 20, URem = 22, SRem = 23, Shl = 25, LShr = 26, AShr = 27, And = 28, Or = 29, Xor = 30 };
   if (x->w == 0 || y->w == 0) {
      if (x->w == 0 && isK(y)) {
         if (op == Xor && y->c == 1ull << 63) return RNeg(x);
         if (op == And && y->c == ~(1ull << 63)) return Ite(RCmp(RLE, R(0), x), x, RNeg(x));
      }
      limit("integer arithmetic on a real");
      return nullptr;
   }
   if (x->w != y->w) { limit("width mismatch"); return nullptr; }
   Op o;
   switch (op) {
      case Add: o = ADD; break; case Sub: o = SUB; break; case Mul: o = MUL; break; case UDiv: o = UDIV; break; case SDiv: o = SDIV; break;
      case URem: o = UREM; break; case SRem: o = SREM; break; case Shl: o = SHL; break; case LShr: o = LSHR; break; case AShr: o = ASHR; break;
      case And: o = AND; break; case Or: o = OR; break; case Xor: o = XOR; break;
      default: limit("opcode"); return nullptr;
   }
   if ((o == UDIV || o == SDIV || o == UREM || o == SREM) && !isK(y)) {
      if (decide(Bin(EQ, y, K(0, w)), (bv & mask(w)) == 0)) raise(SIGFPE);
   }
   return Bin(o, x, y);
}
void* _sy_fbin(int op, void* a, double av, void* b, double bv) {
   if (!a && !b) return nullptr;
   G g;
   if ((!a && !std::isfinite(av)) || (!b && !std::isfinite(bv))) { limit("non-finite number met a symbolic real"); return nullptr; }
   Expr *x = ER(a, av), *y = ER(b, bv);
   if (x->w || y->w) { limit("real arithmetic on integer bits"); return nullptr; }
   enum { FAdd = 14, FSub = 16, FMul = 18, FDiv = 21, FRem = 24 };
   switch (op) {
      case FAdd: return RBin(RADD, x, y);
      case FSub: return RBin(RSUB, x, y);
      case FMul: return RBin(RMUL, x, y);
      case FDiv: {
         if (!isR(y)) {
            Expr* z = RCmp(REQ, y, R(0));
            if (decide(z, false)) { finish("division by zero (outside the real model)"); }
         } else if (isR(y, 0)) finish("division by zero (outside the real model)");
         return RBin(RDIV, x, y);
      }
   }
   limit("frem");
   return nullptr;
}
void* _sy_fneg(void* a) { if (!a) return nullptr; G g; return RNeg((Expr*)a); }
void* _sy_icmp(int pred, int w, void* a, u64 av, void* b, u64 bv) {
   if (!a && !b) return nullptr;
   G g;
   Expr *x = E(a, av, w), *y = E(b, bv, w);
   if (x->w == 0 || y->w == 0) {
      if (x->w == 0 && isK(y, 0)) y = R(0);
      if (x->w == 0 && y->w == 0) { if (pred == 32) return RCmp(REQ, x, y); if (pred == 33) return Not(RCmp(REQ, x, y)); }
      limit("integer comparison of a real");
      return nullptr;
   }
   if (x->w != y->w) { limit("width mismatch"); return nullptr; }
   switch (pred) {
      case 32: return Bin(EQ, x, y);
      case 33: return Not(Bin(EQ, x, y));
      case 34: return Bin(ULT, y, x);
      case 35: return Bin(ULE, y, x);
      case 36: return Bin(ULT, x, y);
      case 37: return Bin(ULE, x, y);
      case 38: return Bin(SLT, y, x);
      case 39: return Bin(SLE, y, x);
      case 40: return Bin(SLT, x, y);
      case 41: return Bin(SLE, x, y);
   }
   return nullptr;
}
void* _sy_fcmp(int pred, void* a, double av, void* b, double bv) {
   if (!a && !b) return nullptr;
   G g;
   if (pred == 7) return TRUE_; // ord
   if (pred == 8) return FALSE_; // uno
   if (pred == 0) return FALSE_;
   if (pred == 15) return TRUE_;
   // infinities on one side
   if ((!a && !std::isfinite(av)) || (!b && !std::isfinite(bv))) {
      double x = a ? 0 : av, y = b ? 0 : bv;
      if (std::isnan(x) || std::isnan(y)) { limit("comparison of a symbolic real with NaN"); return nullptr; }
      int q = pred & 7;
      bool r = q == 1 ? x == y : q == 2 ? x > y : q == 3 ? x >= y : q == 4 ? x < y : q == 5 ? x <= y : x != y;
      return r ? TRUE_ : FALSE_;
   }
   Expr *x = ER(a, av), *y = ER(b, bv);
   if (x->w || y->w) { limit("real comparison of integer bits"); return nullptr; }
   switch (pred & 7) {
      case 1: return RCmp(REQ, x, y);
      case 2: return RCmp(RLT, y, x);
      case 3: return RCmp(RLE, y, x);
      case 4: return RCmp(RLT, x, y);
      case 5: return RCmp(RLE, x, y);
      case 6: return Not(RCmp(REQ, x, y));
   }
   return nullptr;
}
void* _sy_cast(int k, int from, int to, void* a) {
   if (!a) return nullptr;
   G g;
   Expr* x = (Expr*)a;
   if (x->w == 0) { limit("cast of a real's bits"); return nullptr; }
   return Cast(k, from, to, x);
}
void* _sy_i2f(void* a, int w, int sgn) {
   if (!a) return nullptr;
   G g;
   Expr* x = (Expr*)a;
   if (x->w == 0) { limit("i2f of real bits"); return nullptr; }
   if (x->w == 1) return Ite(x, R(sgn ? -1 : 1), R(0));
   if (isK(x)) return R(sgn ? (double)sx(x->c, x->w) : (double)x->c);
   // integers entering real arithmetic become concrete: one path per value
   u64 v = 0;
   if (!x->real) { // value of the expression in this run
      z3::expr_vector src(*zc), dst(*zc);
      for (int i : vsets[x->vs]) {
         src.push_back(tr(mk(VAR, vars[i].w, 0, 0, 0, i)));
         dst.push_back(vars[i].w == 1 ? zc->bool_val(vars[i].val != 0) : (z3::expr)zc->bv_val((uint64_t)vars[i].val, vars[i].w));
      }
      uint64_t u = 0;
      tr(x).substitute(src, dst).simplify().is_numeral_u64(u);
      v = u;
   }
   v = concretise(x, v);
   (void)w;
   return R(sgn ? (double)sx(v, x->w) : (double)v);
}
static std::unordered_map<Expr*, Expr*>* truncs; // reals whose integer part is known
void* _sy_f2i(void* a, int w, int sgn) {
   if (!a) return nullptr;
   G g;
   Expr* x = (Expr*)a;
   if (truncs) { auto it = truncs->find(x); if (it != truncs->end()) return w == 32 ? it->second : Cast(w > 32 ? 1 : 2, 32, w, it->second); }
   (void)sgn;
   if (x->w) { limit("f2i of bits"); return nullptr; }
   if (isR(x)) { double d = asd(x->c); return K((d > -9.3e18 && d < 9.3e18 ? (u64)(long long)d : 1ull << 63) & mask(w), w); }
   Expr* neg = RCmp(RLT, x, R(0));
   return Ite(neg, Bin(SUB, K(0, w), mk(R2I, w, RNeg(x))), mk(R2I, w, x)); // truncation
}
static bool splitselects; // real selects (maxima) become one path per side
void* _sy_select(void* c, bool cv, void* a, u64 av, void* b, u64 bv, int fp, int w) {
   if (!c) return cv ? a : b;
   G g;
   Expr *x, *y;
   if (fp) { x = ER(a, asd(av)); y = ER(b, asd(bv)); }
   else { x = E(a, av, w); y = E(b, bv, w); }
   if (x->w != y->w) {
      if (x->w == 0 && isK(y)) y = R(asd(y->c));
      else if (y->w == 0 && isK(x)) x = R(asd(x->c));
      else { limit("select width"); return decide((Expr*)c, cv) ? x : y; }
   }
   if (fp && splitselects && x != y) return decide((Expr*)c, cv) ? x : y;
   return Ite((Expr*)c, x, y);
}
void sy_splitselects(int on) { splitselects = on; }
bool _sy_branch(void* s, bool v, int) {
   if (!s) return v;
   G g;
   return decide((Expr*)s, v);
}
u64 _sy_switch(void* s, u64 v, int w, u64* cases, int n) {
   if (!s) return v;
   G g;
   Expr* e = (Expr*)s;
   if (isK(e)) return e->c;
   for (int i = 0; i < n; i++) if (decide(Bin(EQ, e, K(cases[i], w)), (v & mask(w)) == (cases[i] & mask(w)))) return cases[i];
   if (!e->real) return v;
   return concretise(e, v);
}
u64 _sy_conc(void* s, u64 v, int w) {
   if (!s) return v;
   G g;
   (void)w;
   return concretise((Expr*)s, v);
}
void _sy_nativereal(void* s, const char* name) { if (!s) return; if (((Expr*)s)->op == RCONST || ((Expr*)s)->op == CONST) return; limit(std::string("symbolic value passed to external function ") + name); }
static Expr* freshreal(const char* n) { vars.push_back({n, 0, 0, 1.0, true}); return mk(VAR, 0, 0, 0, 0, vars.size() - 1); }
static std::unordered_map<Expr*, Expr*>* sqrts;
static Expr* Sqrt(Expr* x) {
   if (isR(x)) { double r = std::sqrt(asd(x->c)); if (r * r == asd(x->c)) return R(r); }
   if (x->op == RMUL && x->k[0] == x->k[1]) return Ite(RCmp(RLE, R(0), x->k[0]), x->k[0], RNeg(x->k[0]));
   if (!sqrts) sqrts = new std::unordered_map<Expr*, Expr*>;
   auto it = sqrts->find(x);
   if (it != sqrts->end()) return it->second;
   Expr* r = freshreal("sqrt");
   add_pc(RCmp(RLE, R(0), r));
   add_pc(RCmp(REQ, RBin(RMUL, r, r), x));
   (*sqrts)[x] = r;
   return r;
}
void* _sy_math1(int k, void* a) {
   if (!a) return nullptr;
   G g;
   Expr* x = (Expr*)a;
   if (x->w) { limit("math on bits"); return nullptr; }
   switch (k) {
      case 0: return Sqrt(x);
      case 1: return Ite(RCmp(RLE, R(0), x), x, RNeg(x));
      case 2: return mk(RINT, 0, x);
      case 3: return RNeg(mk(RINT, 0, RNeg(x)));
      case 6: {
         // log2: one path per octave; inside an octave any value strictly between its ends
         if (isR(x)) return R(std::log2(asd(x->c)));
         if (decide(RCmp(REQ, x, R(0)), false)) return R(-2147483648.0); // minus infinity; converted to an integer it is the smallest one (x86)
         if (decide(RCmp(RLT, x, R(0)), false)) { limit("log2 of a negative number"); finish("log2 of a negative number"); }
         int e = -1;
         if (decide(RCmp(RLT, x, R(0.5)), false)) return R(-1.5); // every number below one half is treated as one octave
         for (; e < 6 && !decide(RCmp(RLT, x, R(std::ldexp(1, e + 1))), false); e++);
         if (e == 6) finish("log2 of a number above 64 (out of bounds)");
         if (decide(RCmp(REQ, x, R(std::ldexp(1, e))), false)) return R(e);
         Expr* r = freshreal("log2");
         add_pc(RCmp(RLT, R(e), r));
         add_pc(RCmp(RLT, r, R(e + 1)));
         if (!truncs) truncs = new std::unordered_map<Expr*, Expr*>;
         (*truncs)[r] = K((u64)(e < 0 ? e + 1 : e) & mask(32), 32);
         return r;
      }
      default: return mk(UF1, 0, x, nullptr, nullptr, k);
   }
}
void* _sy_math2(int k, void* a, double av, void* b, double bv) {
   if (!a && !b) return nullptr;
   G g;
   Expr *x = ER(a, av), *y = ER(b, bv);
   switch (k) {
      case 0:
         if (isR(y)) {
            double p = asd(y->c);
            if (p == 0.5) return Sqrt(x);
            if (p == std::floor(p) && std::fabs(p) <= 8) {
               int n = std::abs((int)p);
               Expr* r = R(1);
               for (int i = 0; i < n; i++) r = RBin(RMUL, r, x);
               return p < 0 ? RBin(RDIV, R(1), r) : r;
            }
         }
         return mk(UF2, 0, x, y, nullptr, 0);
      case 1: return Sqrt(RBin(RADD, RBin(RMUL, x, x), RBin(RMUL, y, y)));
      case 2: return Ite(RCmp(RLT, x, y), y, x);
      case 3: return Ite(RCmp(RLT, y, x), y, x);
      case 6: { Expr* ab = Ite(RCmp(RLE, R(0), x), x, RNeg(x)); return Ite(RCmp(RLE, R(0), y), ab, RNeg(ab)); }
      default: return mk(UF2, 0, x, y, nullptr, k);
   }
}
void* _sy_iminmax(int k, int w, void* a, u64 av, void* b, u64 bv) {
   if (!a && !b) return nullptr;
   G g;
   Expr *x = E(a, av, w), *y = E(b, bv, w);
   switch (k) {
      case 0: return Ite(Bin(SLT, x, y), y, x);
      case 1: return Ite(Bin(SLT, x, y), x, y);
      case 2: return Ite(Bin(ULT, x, y), y, x);
      case 3: return Ite(Bin(ULT, x, y), x, y);
      case 4: return Ite(Bin(ULT, x, y), K(0, w), Bin(SUB, x, y));
      case 5: return Ite(Bin(ULT, Bin(ADD, x, y), x), K(~0ull, w), Bin(ADD, x, y));
   }
   return nullptr;
}
void* _sy_iabs(int w, void* a) { if (!a) return nullptr; G g; Expr* x = (Expr*)a; return Ite(Bin(SLT, x, K(0, w)), Bin(SUB, K(0, w), x), x); }
void* _sy_ovf(int k, int w, void* a, u64 av, void* b, u64 bv) {
   if (!a && !b) return nullptr;
   G g;
   Expr *x = E(a, av, w), *y = E(b, bv, w);
   if (w > 32 && k != 0 && k != 2 && k != 4) { limit("overflow intrinsic"); return nullptr; }
   if (k == 0) return Bin(ULT, Bin(ADD, x, y), x);
   if (k == 2) return Bin(ULT, x, y);
   if (k == 4 && w == 64) {
      // constant operand only
      if (isK(x)) std::swap(x, y);
      if (!isK(y)) { limit("overflow intrinsic"); return nullptr; }
      if (y->c == 0) return FALSE_;
      return Bin(ULT, K(~0ull / y->c, 64), x);
   }
   bool sg = k & 1;
   Expr *X = Cast(sg, w, 2 * w, x), *Y = Cast(sg, w, 2 * w, y);
   Expr* r = Bin(k < 2 ? ADD : k < 4 ? SUB : MUL, X, Y);
   return Not(Bin(EQ, Cast(sg, w, 2 * w, Cast(2, 2 * w, w, r)), r));
}

// ------------------------------------------------------------------ harness API
static void* arg(int i, void* self) { return __sy_fn == self ? __sy_args[i] : nullptr; }
static void ret(void* e, void* self) { __sy_rets[0] = e; __sy_retfn = self; }
static std::map<std::string, int>* names;
static std::string uname(const char* n) {
   int k = (*names)[n]++;
   return k ? std::string(n) + "#" + std::to_string(k) : n;
}
static Expr* newint(const char* name, unsigned w, i64 lo, i64 hi, u64& val) {
   int id = vars.size();
   auto it = cur.ints.find(id);
   val = it != cur.ints.end() ? it->second : (u64)(lo <= 0 && hi >= 0 ? 0 : lo) & mask(w);
   vars.push_back({uname(name), (u8)w, val, 0, false});
   Expr* e = mk(VAR, w, 0, 0, 0, id);
   if (w > 1) {
      i64 mn = w == 64 ? INT64_MIN : -(1ll << (w - 1)), mx = w == 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
      if (lo > mn) add_pc(Bin(SLE, K(lo, w), e));
      if (hi < mx) add_pc(Bin(SLE, e, K(hi, w)));
   }
   return e;
}
double sy_real(const char* name) {
   G g;
   int id = vars.size();
   double v = 0.37 + 0.61 * (id % 17) - 0.25 * (id % 5);
   vars.push_back({uname(name), 0, 0, v, false});
   ret(mk(VAR, 0, 0, 0, 0, id), (void*)sy_real);
   return v;
}
long long sy_int(const char* name, long long lo, long long hi) { G g; u64 v; Expr* e = lo == hi ? nullptr : newint(name, 64, lo, hi, v); if (!e) v = lo; ret(e, (void*)sy_int); return v; }
int sy_i32(const char* name, int lo, int hi) { G g; u64 v; Expr* e = lo == hi ? nullptr : newint(name, 32, lo, hi, v); if (!e) v = lo; ret(e, (void*)sy_i32); return (int)v; }
short sy_i16(const char* name, short lo, short hi) { G g; u64 v; Expr* e = lo == hi ? nullptr : newint(name, 16, lo, hi, v); if (!e) v = lo; ret(e, (void*)sy_i16); return (short)v; }
unsigned char sy_u8(const char* name, unsigned char lo, unsigned char hi) {
   G g; u64 v;
   int id = vars.size();
   auto it = cur.ints.find(id);
   v = it != cur.ints.end() ? it->second : lo;
   vars.push_back({uname(name), 8, v, 0, false});
   Expr* e = mk(VAR, 8, 0, 0, 0, id);
   if (lo) add_pc(Bin(ULE, K(lo, 8), e));
   if (hi < 255) add_pc(Bin(ULE, e, K(hi, 8)));
   ret(e, (void*)sy_u8);
   return v;
}
bool sy_bool(const char* name) { G g; u64 v; Expr* e = newint(name, 1, 0, 1, v); ret(e, (void*)sy_bool); return v; }
void sy_assume(bool c) {
   Expr* e = (Expr*)arg(0, (void*)sy_assume);
   G g;
   if (!e) { if (!c) finish("assume"); return; }
   if (isK(e)) { if (!e->c) finish("assume"); return; }
   if (pcset.count(e)) return;
   flush_asserts();
   if (ndec < cur.dec.size()) { add_pc(e); return; } // inside the replayed prefix the model already satisfies it
   if (!e->real && c) { add_pc(e); return; }
   // fixed integers first
   auto cs = slice(pc, e->vs);
   cs.push_back(e);
   if (e->real) {
      auto q = cs;
      int vs = 0;
      for (auto* x : cs) vs = uvs(vs, x->vs);
      bool anyint = false;
      for (int x : vsets[vs]) if (vars[x].w) { anyint = true; Expr* ve = mk(VAR, vars[x].w, 0, 0, 0, x); q.push_back(vars[x].w == 1 ? (vars[x].val ? ve : Not(ve)) : Bin(EQ, ve, K(vars[x].val, vars[x].w))); }
      Res r = check(q, nullptr);
      if (r == SAT) { add_pc(e); return; }
      if (r == UNK) { limit("undecided assumption"); add_pc(e); return; }
      if (!anyint) finish("assume");
   }
   Model m;
   Res r = check(cs, &m);
   if (r == SAT) spawn(taken, m); // same decisions, inputs that satisfy the assumption
   if (r == UNK) limit("undecided assumption");
   finish("assume");
}
void sy_assert(bool c, const char* what) {
   Expr* e = (Expr*)arg(0, (void*)sy_assert);
   G g;
   st.asserts++;
   if (!e) e = c ? TRUE_ : FALSE_;
   if (isK(e)) {
      if (e->c) return;
      Model m;
      if (full_model({}, m) != UNSAT) report("assert", what, m);
      return;
   }
   pending.push_back({e, what});
}
void sy_fail(const char* what) { G g; Model m; if (full_model({}, m) != UNSAT) report("assert", what, m); }
void sy_eq(double a, double b, const char* what) {
   Expr *x = (Expr*)arg(0, (void*)sy_eq), *y = (Expr*)arg(1, (void*)sy_eq);
   G g;
   st.asserts++;
   if (!x && !y) {
      if (std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b))) return;
      Model m;
      if (full_model({}, m) != UNSAT) report("assert", what, m);
      return;
   }
   if ((!x && !std::isfinite(a)) || (!y && !std::isfinite(b))) {
      Model m;
      if (full_model({}, m) != UNSAT) report("assert", what, m);
      return;
   }
   x = ER(x, a); y = ER(y, b);
   Expr* e = RCmp(REQ, x, y);
   if (isK(e) && e->c) { same.push_back(x); return; }
   pending.push_back({e, what});
}
void sy_axiom(bool c) {
   Expr* e = (Expr*)arg(0, (void*)sy_axiom);
   G g;
   if (!e) { if (!c) finish("assume"); return; }
   if (isK(e)) { if (!e->c) finish("assume"); return; }
   axioms.push_back(e);
}
long long sy_fork(long long v) {
   Expr* e = (Expr*)arg(0, (void*)sy_fork);
   ret(nullptr, (void*)sy_fork);
   if (!e) return v;
   G g;
   return (long long)concretise(e, (u64)v);
}
void sy_reach(const char* tag) { G g; reaches.insert(tag); }
void sy_label(const char* t) { G g; if (labels.size() < 3) labels.insert(t); }
void sy_skip() { finish("skip"); }
int sy_tier() { return tier; }
int sy_replaying() { return 0; }
void sy_scale(double) {}
} // extern C

// ------------------------------------------------------------------ master
static std::string jesc(const std::string& s) {
   std::string r;
   for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
   return r;
}
struct Rd { const std::string& s; size_t o; template<class T> T v() { T x; memcpy(&x, &s[o], sizeof x); o += sizeof x; return x; } std::string str() { uint32_t n = v<uint32_t>(); std::string r = s.substr(o, n); o += n; return r; } };

static char altstack[1 << 16];
static void child(const Item& it, int fd, int pathsec) {
   outfd = fd;
   cur = it;
   memset(&st, 0, sizeof st);
   st.paths = 1;
   stack_t ss{};
   ss.ss_sp = altstack;
   ss.ss_size = sizeof altstack;
   (void)ss;
   struct sigaction sa{};
   sa.sa_handler = crash;
   for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
   alarm(pathsec);
   arena_init();
   rt_depth = 0;
   harness();
   rt_depth = 1;
   finish("end");
}
int main(int argc, char** argv) {
   const char* out = nullptr;
   double budget = 60;
   int jobs = sysconf(_SC_NPROCESSORS_ONLN), pathsec = 120, maxviol = 6;
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a == "--out") out = argv[++i];
      else if (a == "--budget") budget = atof(argv[++i]);
      else if (a == "--jobs") jobs = atoi(argv[++i]);
      else if (a == "--tier") tier = atoi(argv[++i]);
      else if (a == "--path-seconds") pathsec = atoi(argv[++i]);
      else if (a == "--rlimit") rlimit = strtoul(argv[++i], 0, 10);
   }
   z3trace = getenv("SY_TRACE");
   signal(SIGPIPE, SIG_IGN);
   vsets.push_back({});
   vsetid[{}] = 0;
   TRUE_ = mk(CONST, 1, 0, 0, 0, 1);
   FALSE_ = mk(CONST, 1, 0, 0, 0, 0);
   names = new std::map<std::string, int>;
   zc = new z3::context;
   zmemo = new std::unordered_map<Expr*, z3::expr>;
   size_t total = 0;
   for (auto& m : mods()) total += m.n;
   hitshared = (u8*)mmap(nullptr, total + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   { // warm up the solver before forking
      z3::solver s(*zc); s.add(zc->bv_const("w", 8) == zc->bv_val(1, 8)); s.check(); s.get_model();
      z3::solver r(*zc); z3::expr x = zc->real_const("wr"); r.add(x * x > 2); r.check();
   }
   double t0 = now();
   std::deque<Item> queue;
   queue.push_back({});
   struct Ch { pid_t pid; std::string buf; Item item; double t; bool ended; };
   std::map<int, Ch> ch;
   Stats tot{};
   std::map<std::string, u64> ends;
   std::map<std::string, u64> lim, rch;
   std::vector<std::string> samples;
   struct Viol { std::string kind, what, model; };
   std::vector<Viol> viols;
   std::map<std::string, int> seenviol;
   std::vector<std::string> witnesses;
   u64 started = 0;
   u64 lost = 0;
   u64 spawned = 0;
   bool stop = false;
   auto msg = [&](Ch& c, char type, const std::string& b) {
      Rd r{b, 0};
      if (type == 'C') {
         Item it;
         uint32_t n = r.v<uint32_t>();
         for (uint32_t i = 0; i < n; i++) it.dec.push_back(r.v<u64>());
         n = r.v<uint32_t>();
         for (uint32_t i = 0; i < n; i++) { int k = r.v<int>(); it.ints[k] = r.v<u64>(); }
         queue.push_back(std::move(it));
         spawned++;
      } else if (type == 'V') {
         Viol v;
         v.kind = r.str(); v.what = r.str(); v.model = r.str();
         if (seenviol[v.what]++ < 3) viols.push_back(v);
         if ((int)viols.size() >= maxviol) stop = true;
      } else if (type == 'W') {
         witnesses.push_back(r.str());
      } else if (type == 'E') {
         std::string how = r.str();
         ends[how]++;
         Stats s = r.v<Stats>();
         tot.paths += s.paths; tot.queries += s.queries; tot.sat += s.sat; tot.unsat += s.unsat; tot.unknown += s.unknown;
         tot.decisions += s.decisions; tot.asserts += s.asserts; tot.asserted_queries += s.asserted_queries; tot.solver += s.solver;
         for (auto* m : {&lim, &rch}) { uint32_t n = r.v<uint32_t>(); for (uint32_t i = 0; i < n; i++) (*m)[r.str()]++; }
         uint32_t n = r.v<uint32_t>();
         for (uint32_t i = 0; i < n; i++) { auto s = r.str(); if (samples.size() < 6) samples.push_back(s); }
         c.ended = true;
      }
   };
   bool exhausted = false;
   std::fflush(nullptr);
   while (true) {
      if (now() - t0 > budget) { exhausted = !(queue.empty() && ch.empty()); if (exhausted) stop = true; }
      while (!stop && (int)ch.size() < jobs && !queue.empty()) {
         Item it = std::move(queue.back());
         queue.pop_back();
         started++;
         it.wit = witnesses.size() < 12 && (started < 4 || (started * 2654435761u >> 7) % 16 == 0);
         int p[2];
         if (pipe(p)) return 2;
         pid_t pid = fork();
         if (pid == 0) {
            close(p[0]);
            for (auto& [fd, c] : ch) close(fd);
            child(it, p[1], pathsec);
         }
         close(p[1]);
         fcntl(p[0], F_SETFL, O_NONBLOCK);
         ch[p[0]] = Ch{pid, "", it, now(), false};
      }
      if (ch.empty()) break;
      std::vector<pollfd> pf;
      for (auto& [fd, c] : ch) pf.push_back({fd, POLLIN, 0});
      poll(pf.data(), pf.size(), 200);
      for (auto& q : pf) {
         auto& c = ch[q.fd];
         char buf[65536];
         bool eof = false;
         while (true) {
            ssize_t k = read(q.fd, buf, sizeof buf);
            if (k > 0) c.buf.append(buf, k);
            else { if (k == 0) eof = true; break; }
         }
         size_t o = 0;
         while (c.buf.size() - o >= 4) {
            uint32_t n;
            memcpy(&n, &c.buf[o], 4);
            if (c.buf.size() - o - 4 < n) break;
            msg(c, c.buf[o + 4], c.buf.substr(o + 5, n - 1));
            o += 4 + n;
         }
         c.buf.erase(0, o);
         double limit_ = pathsec + 60;
         if (!eof && (stop || now() - c.t > limit_)) { kill(c.pid, SIGKILL); }
         if (eof) {
            int stt;
            waitpid(c.pid, &stt, 0);
            if (!c.ended && !stop) { lost++; ends["lost"]++; }
            close(q.fd);
            ch.erase(q.fd);
         }
      }
   }
   bool complete = !exhausted && !stop && lost == 0 && lim.empty();
   FILE* f = out ? fopen(out, "w") : stdout;
   fprintf(f, "{\n \"complete\": %s,\n \"wall\": %.3f,\n \"paths\": %llu,\n \"queries\": %llu,\n \"sat\": %llu,\n \"unsat\": %llu,\n \"unknown\": %llu,\n \"decisions\": %llu,\n \"asserts\": %llu,\n \"assert_queries\": %llu,\n \"solver_s\": %.3f,\n \"lost\": %llu,\n \"budget_exhausted\": %s,\n \"unexplored\": %zu,\n",
           complete ? "true" : "false", now() - t0, (unsigned long long)tot.paths, (unsigned long long)tot.queries, (unsigned long long)tot.sat, (unsigned long long)tot.unsat, (unsigned long long)tot.unknown,
           (unsigned long long)tot.decisions, (unsigned long long)tot.asserts, (unsigned long long)tot.asserted_queries, tot.solver, (unsigned long long)lost, exhausted ? "true" : "false", queue.size());
   auto dump = [&](const char* n, std::map<std::string, u64>& m) {
      fprintf(f, " \"%s\": {", n);
      bool first = true;
      for (auto& [k, v] : m) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(k).c_str(), (unsigned long long)v); first = false; }
      fprintf(f, "},\n");
   };
   dump("ends", ends);
   dump("limits", lim);
   dump("reach", rch);
   fprintf(f, " \"samples\": [");
   for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
   fprintf(f, "],\n \"witnesses\": [");
   for (size_t i = 0; i < witnesses.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(witnesses[i]).c_str());
   fprintf(f, "],\n \"functions\": [");
   {
      bool first = true;
      size_t o = 0;
      for (auto& m : mods()) {
         const char* p = m.names;
         for (int i = 0; i < m.n; i++) {
            const char* e = strchr(p, '\n');
            if (hitshared[o + i]) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(std::string(p, e)).c_str()); first = false; }
            p = e + 1;
         }
         o += m.n;
      }
   }
   fprintf(f, "],\n \"violations\": [");
   for (size_t i = 0; i < viols.size(); i++) fprintf(f, "%s\n  {\"kind\": \"%s\", \"what\": \"%s\", \"model\": \"%s\"}", i ? "," : "", jesc(viols[i].kind).c_str(), jesc(viols[i].what).c_str(), jesc(viols[i].model).c_str());
   fprintf(f, "]\n}\n");
   if (out) fclose(f);
   _exit(0);
}
