// Stand-ins for the numerical kernels TAT calls, compiled with the instrumentation.
// gemm is executed; the factorisations are replaced by their documented contract: arbitrary results that satisfy it.
#include <complex>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include "sy.h"
typedef std::complex<double> Z;
typedef std::complex<float> C;
template<class S> struct RealOf { typedef S type; };
template<class T> struct RealOf<std::complex<T>> { typedef T type; };
template<class S> using real_t = typename RealOf<S>::type;
extern "C" int _sy_anysym(const void* p, unsigned long n);
extern "C" int _sy_same(const void* p, const void* q, unsigned long n);

extern "C" int sy_memcmp(const void* a, const void* b, size_t n) {
   const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
   if (!_sy_anysym(a, n) && !_sy_anysym(b, n)) { for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
   for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
   return 0;
}
extern "C" size_t sy_strlen(const char* a) { size_t n = 0; while (a[n]) n++; return n; }
extern "C" int sy_strcmp(const char* a, const char* b) {
   for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
extern "C" void* sy_memchr(const void* a, int c, size_t n) {
   const unsigned char* x = (const unsigned char*)a;
   for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i);
   return nullptr;
}

struct Pair { double re, im; };
extern "C" Pair sy_divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
extern "C" Pair sy_muldc3(double a, double b, double c, double d) { return {a * c - b * d, a * d + b * c}; }

struct Pairf { float re, im; };
extern "C" Pairf sy_divsc3(float a, float b, float c, float d) { float n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
extern "C" Pairf sy_mulsc3(float a, float b, float c, float d) { return {a * c - b * d, a * d + b * c}; }

extern "C" float hypotf(float, float);
extern "C" float sy_cabsf(Pairf z) { return hypotf(z.re, z.im); }

template<class T> static T cj(const T& a) { return a; }
template<class T> static std::complex<T> cj(const std::complex<T>& a) { return std::complex<T>(a.real(), -a.imag()); }
static double mul(double a, double b) { return a * b; }
static float mul(float a, float b) { return a * b; }
template<class T> static std::complex<T> mul(const std::complex<T>& a, const std::complex<T>& b) { return std::complex<T>(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static void set(double& a, double v) { a = v; }
static void set(float& a, double v) { a = v; }
template<class T> static void set(std::complex<T>& a, double v) { a = std::complex<T>(v, 0); }
static void fresh(double& a, const char* n) { a = sy_real(n); }
static void fresh(float& a, const char* n) { a = sy_real(n); }
template<class T> static void fresh(std::complex<T>& a, const char* n) { double x = sy_real(n); double y = sy_real(n); a = std::complex<T>(x, y); }
static void ax_eq(double a, double b) { sy_axiom(a == b); }
static void ax_eq(float a, float b) { sy_axiom(a == b); }
template<class T> static void ax_eq(const std::complex<T>& a, const std::complex<T>& b) { sy_axiom(a.real() == b.real()); sy_axiom(a.imag() == b.imag()); }
static double re(double a) { return a; }
static double re(float a) { return a; }
template<class T> static double re(const std::complex<T>& a) { return a.real(); }
static void need(bool c, const char* what) { if (!c) { sy_fail(what); sy_skip(); } }

template<class S> static void gemm(const char* ta, const char* tb, const int* m_, const int* n_, const int* k_, const S* alpha, const S* A, const int* lda_, const S* B, const int* ldb_, const S* beta, S* C, const int* ldc_) {
   long m = *m_, n = *n_, k = *k_, lda = *lda_, ldb = *ldb_, ldc = *ldc_;
   char a = *ta | 32, b = *tb | 32;
   need(m >= 0 && n >= 0 && k >= 0 && lda >= std::max(1l, a == 'n' ? m : k) && ldb >= std::max(1l, b == 'n' ? k : n) && ldc >= std::max(1l, m), "illegal argument passed to ?gemm");
   auto op = [](char t, const S* M, long ld, long i, long j) -> S { return t == 'n' ? M[i + j * ld] : t == 't' ? M[j + i * ld] : cj(M[j + i * ld]); };
   bool b0 = std::abs(*beta) == 0;
   for (long j = 0; j < n; j++)
      for (long i = 0; i < m; i++) {
         S s; set(s, 0);
         for (long l = 0; l < k; l++) s += mul(op(a, A, lda, i, l), op(b, B, ldb, l, j));
         S r = mul(*alpha, s);
         if (!b0) r += mul(*beta, C[i + j * ldc]);
         C[i + j * ldc] = r;
      }
}
// Factorisations of larger expressions: instead of arbitrary results under the contract, a symbolic family of exact factorisations
// (A = (A G) G^-1 with a free parameter in G). The factors are no isometries; for harnesses whose claim only needs the product.
// Mode 2: the parameter is a fixed number, for claims that divide by norms of the factors.
// Mode 3: the isometries are fixed matrices (1 - 2/4 J on four indices, a cycle on the others), which restricts the operand to what has these factors and keeps the axioms linear.
static int explicit_factors = 0;
static double mirror(long n, long i, long j) { // orthogonal, elements exact in binary
   if (n >= 4 && (i < 4 || j < 4)) return i < 4 && j < 4 ? (i == j) - 0.5 : 0;
   long o = n >= 4 ? 4 : 0;
   return i - o == (j - o + 1) % (n - o) ? j % 2 ? 1 : -1 : 0;
}
static double parameter() { return explicit_factors == 2 ? 0.5 : sy_real("lapack.g"); }
extern "C" void sy_factor(int on) { explicit_factors = on; }
template<class S> struct Svd { long m, n; std::vector<S> a, u, v; std::vector<real_t<S>> s; };
// A (m*n, column major) = U diag(s) VT
template<class S> static void gesvd(const char* jobu, const char* jobvt, const int* m_, const int* n_, const S* A, const int* lda_, real_t<S>* s, S* U, const int* ldu_, S* VT, const int* ldvt_, S* work, const int* lwork, int* info) {
   long m = *m_, n = *n_, lda = *lda_, ldu = *ldu_, ldvt = *ldvt_, k = m < n ? m : n;
   need((*jobu | 32) == 's' && (*jobvt | 32) == 's', "unexpected job passed to ?gesvd");
   need(m >= 0 && n >= 0 && lda >= std::max(1l, m) && ldu >= std::max(1l, m) && ldvt >= std::max(1l, k), "illegal argument passed to ?gesvd");
   *info = 0;
   if (*lwork == -1) { set(*work, 5 * (m + n) + 16); return; }
   need(*lwork >= 2 * k + (m > n ? m : n), "too little workspace passed to ?gesvd");
   std::vector<S> a(m * n);
   for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) a[i + j * m] = A[i + j * lda];
   // A is destroyed
   for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) fresh(const_cast<S&>(A[i + j * lda]), "lapack.a");
   // the same matrix is decomposed in the same way
   static std::vector<Svd<S>> known;
   for (auto& f : known) if (f.m == m && f.n == n && (m * n == 0 || _sy_same(f.a.data(), a.data(), m * n * sizeof(S)))) {
      for (long i = 0; i < k; i++) s[i] = f.s[i];
      for (long j = 0; j < k; j++) for (long i = 0; i < m; i++) U[i + j * ldu] = f.u[i + j * m];
      for (long j = 0; j < n; j++) for (long i = 0; i < k; i++) VT[i + j * ldvt] = f.v[i + j * k];
      return;
   }
   if (explicit_factors && explicit_factors < 3) {
      real_t<S> g = parameter(), w = 1;
      for (long i = k; i-- > 0; w *= 2) s[i] = w;
      for (long j = 0; j < n; j++) for (long i = 0; i < k; i++) set(VT[i + j * ldvt], 0);
      for (long j = 0; j < k; j++) for (long i = 0; i < m; i++) set(U[i + j * ldu], 0);
      if (m >= n) {
         for (long l = 0; l < n; l++) for (long i = 0; i < m; i++) {
            S x = a[i + l * m];
            if (l == 1) x -= a[i] * g;
            U[i + l * ldu] = x * (1 / s[l]);
         }
         for (long l = 0; l < n; l++) set(VT[l + l * ldvt], 1);
         if (n > 1) set(VT[ldvt], g);
      } else {
         for (long l = 0; l < m; l++) set(U[l + l * ldu], 1);
         if (m > 1) set(U[1], g);
         for (long l = 0; l < m; l++) for (long j = 0; j < n; j++) {
            S x = a[l + j * m];
            if (l == 1) x -= a[j * m] * g;
            VT[l + j * ldvt] = x * (1 / s[l]);
         }
      }
      return;
   }
   for (long i = 0; i < k; i++) {
      s[i] = sy_real("lapack.s");
      sy_assume(s[i] >= 0);
      if (i) sy_assume(s[i - 1] >= s[i]);
   }
   bool given = explicit_factors == 3;
   for (long j = 0; j < k; j++) for (long i = 0; i < m; i++) if (given) set(U[i + j * ldu], mirror(m, i, j)); else fresh(U[i + j * ldu], "lapack.u");
   for (long j = 0; j < n; j++) for (long i = 0; i < k; i++) if (given) set(VT[i + j * ldvt], mirror(n, i, j)); else fresh(VT[i + j * ldvt], "lapack.v");
   for (long j = 0; j < n; j++)
      for (long i = 0; i < m; i++) {
         S x; set(x, 0);
         for (long l = 0; l < k; l++) { S y; set(y, 0); y = mul(U[i + l * ldu], VT[l + j * ldvt]); x += y * s[l]; }
         ax_eq(x, a[i + j * m]);
      }
   for (long p = 0; p < k && !given; p++)
      for (long q = 0; q <= p; q++) {
         S x, y, d; set(x, 0); set(y, 0); set(d, p == q);
         for (long i = 0; i < m; i++) x += mul(cj(U[i + p * ldu]), U[i + q * ldu]);
         for (long j = 0; j < n; j++) y += mul(VT[p + j * ldvt], cj(VT[q + j * ldvt]));
         ax_eq(x, d);
         ax_eq(y, d);
      }
   Svd<S> f{m, n, a, std::vector<S>(m * k), std::vector<S>(k * n), std::vector<real_t<S>>(s, s + k)};
   for (long j = 0; j < k; j++) for (long i = 0; i < m; i++) f.u[i + j * m] = U[i + j * ldu];
   for (long j = 0; j < n; j++) for (long i = 0; i < k; i++) f.v[i + j * k] = VT[i + j * ldvt];
   known.push_back(f);
}
// QR and LQ: the factorisation call leaves R (or L) and opaque reflector data; the generating call recovers Q from it
template<class S> struct Fact { long m, n; std::vector<S> Q; }; // Q: m*k column major (QR) or k*n column major (LQ)
template<class S> static std::vector<Fact<S>>& facts() { static std::vector<Fact<S>> v; return v; }
static double tag(long id, long part) { return 0x1p100 * (2048 * (1 + id) + part); } // representable in single precision
template<class S> static void geqrf(const int* m_, const int* n_, S* A, const int* lda_, S* tau, S* work, const int* lwork, int* info, bool lq) {
   long m = *m_, n = *n_, lda = *lda_, k = m < n ? m : n;
   need(m >= 0 && n >= 0 && lda >= std::max(1l, m), "illegal argument passed to ?geqrf or ?gelqf");
   *info = 0;
   if (*lwork == -1) { set(*work, 4 * (m + n) + 16); return; }
   need(*lwork >= std::max(1l, lq ? m : n), "too little workspace passed to ?geqrf or ?gelqf");
   long id = facts<S>().size();
   Fact<S> f{m, n, {}};
   std::vector<S> a(m * n);
   for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) a[i + j * m] = A[i + j * lda];
   std::vector<S> R(m * n);
   bool given = explicit_factors == 3;
   if (explicit_factors && !given && (k == 1 || (lq ? m <= n : m >= n))) {
      real_t<S> g = parameter();
      for (auto& x : R) set(x, 0);
      if (lq ? m > n : m < n) { // k == 1
         f.Q.resize(1);
         set(f.Q[0], 2);
         for (long i = 0; i < m * n; i++) R[i] = a[i] * real_t<S>(0.5);
      } else {
         f.Q = a;
         for (long l = 0; l < k; l++) set(R[l + l * m], 1);
         if (k > 1 && !lq) { set(R[m], g); for (long i = 0; i < m; i++) f.Q[i + m] -= a[i] * g; }
         if (k > 1 && lq) { set(R[1], g); for (long j = 0; j < n; j++) f.Q[1 + j * k] -= a[j * m] * g; }
      }
      for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) if (lq ? i >= j : i <= j) A[i + j * lda] = R[i + j * m]; else set(A[i + j * lda], tag(id, i * n + j));
   } else if (!lq) {
      f.Q.resize(m * k);
      for (long i = 0; i < m * k; i++) if (given) set(f.Q[i], mirror(m, i % m, i / m)); else fresh(f.Q[i], "lapack.q");
      for (long i = 0; i < k; i++) for (long j = i; j < n; j++) fresh(R[i + j * m], "lapack.r");
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
         S x; set(x, 0);
         for (long l = 0; l < k && l <= j; l++) x += mul(f.Q[i + l * m], R[l + j * m]);
         ax_eq(x, a[i + j * m]);
      }
      for (long p = 0; p < k && !given; p++) for (long q = 0; q <= p; q++) {
         S x, d; set(x, 0); set(d, p == q);
         for (long i = 0; i < m; i++) x += mul(cj(f.Q[i + p * m]), f.Q[i + q * m]);
         ax_eq(x, d);
      }
      for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) if (i <= j) A[i + j * lda] = R[i + j * m]; else set(A[i + j * lda], tag(id, i * n + j));
   } else {
      f.Q.resize(k * n);
      for (long i = 0; i < k * n; i++) if (given) set(f.Q[i], mirror(n, i % k, i / k)); else fresh(f.Q[i], "lapack.q");
      for (long j = 0; j < k; j++) for (long i = j; i < m; i++) fresh(R[i + j * m], "lapack.r");
      for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) {
         S x; set(x, 0);
         for (long l = 0; l < k && l <= i; l++) x += mul(R[i + l * m], f.Q[l + j * k]);
         ax_eq(x, a[i + j * m]);
      }
      for (long p = 0; p < k && !given; p++) for (long q = 0; q <= p; q++) {
         S x, d; set(x, 0); set(d, p == q);
         for (long j = 0; j < n; j++) x += mul(f.Q[p + j * k], cj(f.Q[q + j * k]));
         ax_eq(x, d);
      }
      for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) if (i >= j) A[i + j * lda] = R[i + j * m]; else set(A[i + j * lda], tag(id, i * n + j));
   }
   for (long i = 0; i < k; i++) set(tau[i], tag(id, 1000 + i));
   facts<S>().push_back(std::move(f));
}
template<class S> static void orgqr(const int* m_, const int* n_, const int* k_, S* A, const int* lda_, const S* tau, S* work, const int* lwork, int* info, bool lq) {
   long m = *m_, n = *n_, k = *k_, lda = *lda_;
   need(m >= 0 && n >= 0 && k >= 0 && k <= (lq ? m : n) && (lq ? m <= n : n <= m) && lda >= std::max(1l, m), "illegal argument passed to ?orgqr or ?orglq");
   *info = 0;
   if (*lwork == -1) { set(*work, 4 * (m + n) + 16); return; }
   need(*lwork >= std::max(1l, lq ? m : n), "too little workspace passed to ?orgqr or ?orglq");
   if (k == 0) { need(m == 0 || n == 0, "stand-in: unit matrix requested from ?orgqr"); return; }
   long id = (long)(re(tau[0]) / 0x1p111) - 1;
   need(id >= 0 && id < (long)facts<S>().size(), "?orgqr called with something that is not the output of ?geqrf");
   auto& f = facts<S>()[id];
   long fk = f.m < f.n ? f.m : f.n;
   need(lq ? (n == f.n && m == fk && k == fk) : (m == f.m && n == fk && k == fk), "stand-in: ?orgqr called with other sizes than the factorisation");
   for (long i = 0; i < k; i++) need(re(tau[i]) == tag(id, 1000 + i), "?orgqr called with a wrong tau");
   for (long j = 0; j < n; j++)
      for (long i = 0; i < m; i++)
         if (lq ? i < j : i > j) need(re(A[i + j * lda]) == tag(id, i * f.n + j), "?orgqr called with wrong reflectors");
   if (!lq) for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) A[i + j * lda] = f.Q[i + j * f.m];
   else for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) A[i + j * lda] = f.Q[i + j * fk];
}
// A X = B, X overwrites B
template<class S> static void gesv(const int* n_, const int* r_, S* A, const int* lda_, int* ipiv, S* B, const int* ldb_, int* info) {
   long n = *n_, r = *r_, lda = *lda_, ldb = *ldb_;
   need(n >= 0 && r >= 0 && lda >= std::max(1l, n) && ldb >= std::max(1l, n), "illegal argument passed to ?gesv");
   *info = 0;
   std::vector<S> X(n * r);
   bool fixed = explicit_factors;
   for (long j = 0; fixed && j < n; j++) fixed = !_sy_anysym(A + j * lda, n * sizeof(S));
   for (long j = 0; fixed && j < r; j++) fixed = !_sy_anysym(B + j * ldb, n * sizeof(S));
   if (fixed) { // numbers: solved by elimination
      for (long c = 0; c < n; c++) {
         long p = c;
         for (long i = c + 1; i < n; i++) if (std::abs(A[i + c * lda]) > std::abs(A[p + c * lda])) p = i;
         if (std::abs(A[p + c * lda]) == 0) { *info = c + 1; return; }
         for (long j = 0; j < n; j++) std::swap(A[c + j * lda], A[p + j * lda]);
         for (long j = 0; j < r; j++) std::swap(B[c + j * ldb], B[p + j * ldb]);
         ipiv[c] = p + 1;
         for (long i = 0; i < n; i++) if (i != c) {
            S f = A[i + c * lda] / A[c + c * lda];
            for (long j = c; j < n; j++) A[i + j * lda] -= mul(f, A[c + j * lda]);
            for (long j = 0; j < r; j++) B[i + j * ldb] -= mul(f, B[c + j * ldb]);
         }
      }
      for (long i = 0; i < n; i++) for (long j = 0; j < r; j++) B[i + j * ldb] /= A[i + i * lda];
      return;
   }
   for (auto& x : X) fresh(x, "lapack.x");
   for (long i = 0; i < n; i++)
      for (long j = 0; j < r; j++) {
         S s; set(s, 0);
         for (long l = 0; l < n; l++) s += mul(A[i + l * lda], X[l + j * n]);
         ax_eq(s, B[i + j * ldb]);
      }
   if (n == 2 || n == 3) { // consequence of the above (Cramer's rule), stated because the solver would have to find it
      auto at = [&](long i, long j) -> S { return A[i + j * lda]; };
      auto adj = [&](long i, long j) -> S { // cofactor of (j,i)
         if (n == 2) { S x = at(1 - j, 1 - i); return (i + j) % 2 ? -x : x; }
         long a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, d = (i + 2) % 3;
         return mul(at(a, c), at(b, d)) - mul(at(a, d), at(b, c));
      };
      S det; set(det, 0);
      for (long l = 0; l < n; l++) det += mul(at(0, l), adj(l, 0));
      for (long i = 0; i < n; i++) for (long j = 0; j < r; j++) {
         S s; set(s, 0);
         for (long l = 0; l < n; l++) s += mul(adj(i, l), B[l + j * ldb]);
         ax_eq(mul(det, X[i + j * n]), s);
      }
   }
   for (long i = 0; i < n; i++) { ipiv[i] = i + 1; for (long j = 0; j < n; j++) fresh(A[i + j * lda], "lapack.lu"); for (long j = 0; j < r; j++) B[i + j * ldb] = X[i + j * n]; }
}
extern "C" {
#define G(f, S) void f(const char* ta, const char* tb, const int* m, const int* n, const int* k, const S* al, const S* A, const int* lda, const S* B, const int* ldb, const S* be, S* C, const int* ldc) { gemm<S>(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc); }
G(dgemm_, double) G(zgemm_, Z)
void dgesvd_(const char* a, const char* b, const int* m, const int* n, const double* A, const int* lda, double* s, double* U, const int* ldu, double* V, const int* ldv, double* w, const int* lw, int* info) { gesvd<double>(a, b, m, n, A, lda, s, U, ldu, V, ldv, w, lw, info); }
void zgesvd_(const char* a, const char* b, const int* m, const int* n, const Z* A, const int* lda, double* s, Z* U, const int* ldu, Z* V, const int* ldv, Z* w, const int* lw, double*, int* info) { gesvd<Z>(a, b, m, n, A, lda, s, U, ldu, V, ldv, w, lw, info); }
void dgeqrf_(const int* m, const int* n, double* A, const int* lda, double* t, double* w, const int* lw, int* i) { geqrf<double>(m, n, A, lda, t, w, lw, i, false); }
void zgeqrf_(const int* m, const int* n, Z* A, const int* lda, Z* t, Z* w, const int* lw, int* i) { geqrf<Z>(m, n, A, lda, t, w, lw, i, false); }
void dgelqf_(const int* m, const int* n, double* A, const int* lda, double* t, double* w, const int* lw, int* i) { geqrf<double>(m, n, A, lda, t, w, lw, i, true); }
void zgelqf_(const int* m, const int* n, Z* A, const int* lda, Z* t, Z* w, const int* lw, int* i) { geqrf<Z>(m, n, A, lda, t, w, lw, i, true); }
void dorgqr_(const int* m, const int* n, const int* k, double* A, const int* lda, const double* t, double* w, const int* lw, int* i) { orgqr<double>(m, n, k, A, lda, t, w, lw, i, false); }
void zungqr_(const int* m, const int* n, const int* k, Z* A, const int* lda, const Z* t, Z* w, const int* lw, int* i) { orgqr<Z>(m, n, k, A, lda, t, w, lw, i, false); }
void dorglq_(const int* m, const int* n, const int* k, double* A, const int* lda, const double* t, double* w, const int* lw, int* i) { orgqr<double>(m, n, k, A, lda, t, w, lw, i, true); }
void zunglq_(const int* m, const int* n, const int* k, Z* A, const int* lda, const Z* t, Z* w, const int* lw, int* i) { orgqr<Z>(m, n, k, A, lda, t, w, lw, i, true); }
void dgesv_(const int* n, const int* r, double* A, const int* lda, int* p, double* B, const int* ldb, int* i) { gesv<double>(n, r, A, lda, p, B, ldb, i); }
void zgesv_(const int* n, const int* r, Z* A, const int* lda, int* p, Z* B, const int* ldb, int* i) { gesv<Z>(n, r, A, lda, p, B, ldb, i); }
typedef std::complex<float> F;
G(sgemm_, float) G(cgemm_, F)
void sgesvd_(const char* a, const char* b, const int* m, const int* n, const float* A, const int* lda, float* s, float* U, const int* ldu, float* V, const int* ldv, float* w, const int* lw, int* info) { gesvd<float>(a, b, m, n, A, lda, s, U, ldu, V, ldv, w, lw, info); }
void cgesvd_(const char* a, const char* b, const int* m, const int* n, const F* A, const int* lda, float* s, F* U, const int* ldu, F* V, const int* ldv, F* w, const int* lw, float*, int* info) { gesvd<F>(a, b, m, n, A, lda, s, U, ldu, V, ldv, w, lw, info); }
#define Q(f, S, lq) void f(const int* m, const int* n, S* A, const int* lda, S* t, S* w, const int* lw, int* i) { geqrf<S>(m, n, A, lda, t, w, lw, i, lq); }
Q(sgeqrf_, float, false) Q(cgeqrf_, F, false) Q(sgelqf_, float, true) Q(cgelqf_, F, true)
#define O(f, S, lq) void f(const int* m, const int* n, const int* k, S* A, const int* lda, const S* t, S* w, const int* lw, int* i) { orgqr<S>(m, n, k, A, lda, t, w, lw, i, lq); }
O(sorgqr_, float, false) O(cungqr_, F, false) O(sorglq_, float, true) O(cunglq_, F, true)
#define V(f, S) void f(const int* n, const int* r, S* A, const int* lda, int* p, S* B, const int* ldb, int* i) { gesv<S>(n, r, A, lda, p, B, ldb, i); }
V(sgesv_, float) V(cgesv_, F)
}
