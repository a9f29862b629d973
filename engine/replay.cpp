// Native replay: the same harness, compiled without instrumentation and linked with the real BLAS/LAPACK, fed with
// the values the solver chose.  exit 0: held, 1: violated, 3: input does not satisfy the assumptions.
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <random>
#include <string>
#include <unistd.h>
#include "sy.h"
static std::map<std::string, std::string>* vals;
static std::map<std::string, int>* cnt;
static std::mt19937_64* rng;
static int perturb = 0, tier_ = 0;
static double scale_ = 1;
static bool own = true;
static const std::string* get(const char* n) {
   own = true;
   int k = (*cnt)[n]++;
   auto it = vals->find(k ? std::string(n) + "#" + std::to_string(k) : n);
   own = false;
   return it == vals->end() ? nullptr : &it->second;
}
static void bad(const char* w) { fprintf(stdout, "REPLAY-VIOLATED %s\n", w); fflush(stdout); _exit(1); }
extern "C" {
double sy_real(const char* n) {
   auto* s = get(n);
   double v = s ? atof(s->c_str()) : 0.5;
   if (perturb) v = std::uniform_real_distribution<double>(-2, 2)(*rng);
   return v;
}
static long long geti(const char* n, long long lo, long long hi) { if (lo == hi) return lo; auto* s = get(n); return s ? atoll(s->c_str()) : (lo <= 0 && hi >= 0 ? 0 : lo); }
long long sy_int(const char* n, long long lo, long long hi) { return geti(n, lo, hi); }
int sy_i32(const char* n, int lo, int hi) { return geti(n, lo, hi); }
short sy_i16(const char* n, short lo, short hi) { return geti(n, lo, hi); }
unsigned char sy_u8(const char* n, unsigned char lo, unsigned char) { auto* s = get(n); return s ? atoll(s->c_str()) : lo; }
bool sy_bool(const char* n) { auto* s = get(n); return s ? atoll(s->c_str()) : 0; }
void sy_assume(bool c) { if (!c) _exit(3); }
void sy_assert(bool c, const char* w) { if (!c) bad(w); }
void sy_eq(double a, double b, const char* w) { if (!(std::fabs(a - b) <= scale_ * 1e-7 * (1 + std::fabs(a) + std::fabs(b)))) { fprintf(stdout, "REPLAY %.12g vs %.12g\n", a, b); bad(w); } }
void sy_axiom(bool) {}
long long sy_fork(long long v) { return v; }
void sy_reach(const char*) {}
void sy_fail(const char* w) { bad(w); }
void sy_skip() { fflush(stdout); _exit(0); }
void sy_label(const char*) {}
int sy_tier() { return tier_; }
int sy_replaying() { return 1; }
void sy_factor(int) {}
void sy_splitselects(int) {}
void sy_scale(double s) { scale_ = s; }
}
// fresh memory is poisoned, as in the symbolic run
static void* take(size_t n, size_t al) {
   void* p = nullptr;
   if (n > (size_t(1) << 34)) throw std::bad_alloc();
   if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) throw std::bad_alloc();
   memset(p, 0xCB, n);
   return p;
}
void* operator new(size_t n) { return take(n, 16); }
void* operator new[](size_t n) { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
static void crash(int s) { static char m[] = "REPLAY-VIOLATED the operation crashes\n"; (void)!write(1, m, sizeof m - 1); (void)s; _exit(1); }
static void hang(int) { static char m[] = "REPLAY-VIOLATED the operation does not terminate\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
int main(int argc, char** argv) { // replay MODEL [TIER [PERTURBATION]]
   vals = new std::map<std::string, std::string>;
   cnt = new std::map<std::string, int>;
   std::ifstream f(argv[1]);
   std::string line;
   while (std::getline(f, line)) { // name (may contain blanks), blank, value
      auto k = line.rfind(' ');
      if (k != std::string::npos && line[0] != '#') (*vals)[line.substr(0, k)] = line.substr(k + 1);
   }
   if (argc > 2) tier_ = atoi(argv[2]);
   if (argc > 3) perturb = atoi(argv[3]);
   rng = new std::mt19937_64(perturb);
   for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, crash);
   signal(SIGALRM, hang);
   alarm(argc > 4 ? atoi(argv[4]) : 30);
   harness();
   printf("REPLAY-HELD\n");
   fflush(stdout);
   _exit(0);
}
