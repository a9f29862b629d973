// C28: simple update, exact states, conversions and files of square lattices.
#include "lattice.hpp"
#include <sstream>
using SU = square::SimpleUpdateLattice<double>;
using EX = square::ExactLattice<double>;
using CX = square::ExactLattice<cplx>;
typedef std::vector<std::vector<int>> Conf;
typedef std::vector<At> Where;
typedef std::vector<std::vector<double>> Mat;
void close(double a, double b, const char* w) { sy_assert(a - b < 1e-6 && b - a < 1e-6, w); }
std::string num(int k) { return std::string(1, '0' + k); }
// operator on n sites, element [in][out], first site most significant
template<class S> TAT::Tensor<S> oper(int n, const std::vector<std::vector<S>>& el) {
   std::vector<Name> names;
   for (int k = n; k-- > 0;) names.push_back("O" + num(k));
   for (int k = 0; k < n; k++) names.push_back("I" + num(k));
   TAT::Tensor<S> t(names, std::vector<TAT::Edge<No>>(2 * n, Size(2)));
   for (size_t a = 0; a < el.size(); a++) for (size_t b = 0; b < el.size(); b++) {
      std::map<Name, Size> at;
      for (int k = 0; k < n; k++) { at["I" + num(k)] = a >> (n - 1 - k) & 1; at["O" + num(k)] = b >> (n - 1 - k) & 1; }
      t.at(at) = el[a][b];
   }
   return t;
}
std::vector<Conf> everything(int M, int N) {
   std::vector<Conf> r;
   for (int x = 0; x < 1 << (M * N); x++) { Conf c(M, std::vector<int>(N)); for (int k = 0; k < M * N; k++) c[k / N][k % N] = x >> k & 1; r.push_back(c); }
   return r;
}
int index(const Conf& c) { int x = 0, k = 0; for (auto& r : c) for (int s : r) x |= s << k++; return x; }
int code(const Conf& c, const Where& p) { int x = 0; for (auto& [i, j] : p) x = x * 2 + c[i][j]; return x; }
Conf with(Conf c, const Where& p, int x) { for (size_t k = p.size(); k-- > 0;) { c[std::get<0>(p[k])][std::get<1>(p[k])] = x & 1; x >>= 1; } return c; }
// (O v)[out] = sum over in of O[in][out] v[in]
template<class S> std::vector<S> apply(int M, int N, const std::vector<S>& v, const Where& p, const std::vector<std::vector<S>>& o) {
   std::vector<S> r(v.size(), S(0));
   for (auto& c : everything(M, N)) for (size_t b = 0; b < o.size(); b++) r[index(with(c, p, b))] += mul(o[code(c, p)][b], v[index(c)]);
   return r;
}
// the state a simple update lattice stands for: sites and environments contracted
std::vector<double> state(const SU& u, double scale) {
   // every bond weighs with its environment
   T0 v(1);
   for (int i = 0; i < u.M; i++) for (int j = 0; j < u.N; j++) {
      T0 t = u.lattice[i][j];
      auto weigh = [&](const char* e, char d) {
         auto f = u.environment.find({d, i, j});
         if (f == u.environment.end()) return;
         auto r = t.same_shape().zero();
         auto& s = f->second.value.begin()->second;
         auto& names = t.names;
         Rank at = std::find(names.begin(), names.end(), Name(e)) - names.begin();
         std::vector<Size> dims;
         for (auto& x : t.core->edges) dims.push_back(x.map.begin()->second);
         auto &src = t.core->blocks.begin()->second, &dst = r.core->blocks.begin()->second;
         for (size_t k = 0; k < src.size(); k++) { size_t inner = 1; for (size_t q = at + 1; q < dims.size(); q++) inner *= dims[q]; dst[k] = src[k] * s[k / inner % dims[at]]; }
         t = r;
      };
      weigh("R", 'R');
      weigh("D", 'D');
      v = v.contract(t.edge_rename({{"D", "D" + num(j)}, {"P", "P" + num(i) + num(j)}}), {{"R", "L"}, {"D" + num(j), "U"}});
   }
   std::vector<double> r;
   for (auto& c : everything(u.M, u.N)) {
      std::map<Name, Size> at;
      for (int i = 0; i < u.M; i++) for (int j = 0; j < u.N; j++) at["P" + num(i) + num(j)] = c[i][j];
      r.push_back(v.at(at) * scale);
   }
   return r;
}
void parallel(const std::vector<double>& a, const std::vector<double>& b, size_t k, const char* w) { // a is a multiple of b, and not zero
   sy_assert((a[k] > 1e-6) | (a[k] < -1e-6), w);
   for (size_t i = 0; i < b.size(); i++) if (i != k) close(a[i] * b[k], a[k] * b[i], w);
}
SU lattice(const Lat& l, bool env) {
   SU u(l.M, l.N, 1, 2);
   for (int i = 0; i < l.M; i++) for (int j = 0; j < l.N; j++) u.lattice[i][j] = l.site(i, j, i + j);
   if (env) {
      double k = 1;
      for (int i = 0; i < l.M; i++) for (int j = 0; j < l.N; j++) for (int d = 0; d < 2; d++) {
         if (d ? i == l.M - 1 : j == l.N - 1) continue;
         T0::SingularType s;
         auto& v = s.value[No()];
         for (int q = 0; q < (d ? l.down(i, j) : l.right(i, j)); q++) { v.push_back(k); k = k == 0.25 ? 2 : k / 2; }
         u.environment[{d ? 'D' : 'R', i, j}] = s;
      }
   }
   return u;
}
// one gate on a lattice: the new state is the gate applied to the old one
void gate(const char* w, int M, int N) {
   std::vector<Where> places;
   for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
      places.push_back({At{i, j}});
      if (j < N - 1) { places.push_back({At{i, j}, At{i, j + 1}}); places.push_back({At{i, j + 1}, At{i, j}}); }
      if (i < M - 1) { places.push_back({At{i, j}, At{i + 1, j}}); places.push_back({At{i + 1, j}, At{i, j}}); }
   }
   Where p = places[sy_fork(sy_int("place", 0, places.size() - 1))];
   bool env = sy_fork(sy_int("environment", 0, 1));
   int i0 = std::get<0>(p[0]), j0 = std::get<1>(p[0]);
   Lat l(M, N, 2, 1, 1, [&](int, int, int) { return false; });
   // the bond of the gate has dimension 1 unless the site has no other; the other bonds have dimension 2
   for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { l.h[i][j] = l.v[i][j] = 2; }
   if (p.size() == 2 && M * N > 2) { auto q = std::min(p[0], p[1]); (i0 == std::get<0>(p[1]) ? l.h : l.v)[std::get<0>(q)][std::get<1>(q)] = 1; }
   l.el.clear();
   l.fill([](int, int, int) { return false; });
   // one free element in the first site of the gate
   double x = sy_real("x");
   sy_assume(x >= -0.0625 && x <= 0.0625);
   l.el.at({i0, j0, 1, 0, 0, 0, 0}) = x;
   Mat o(1 << p.size(), std::vector<double>(1 << p.size()));
   for (size_t a = 0; a < o.size(); a++) for (size_t b = 0; b < o.size(); b++) o[a][b] = (a == b ? 2 : 0.25) + 0.5 * a - 0.25 * b;
   // the component to compare the others with: the largest one for x = 0
   Lat l0 = l;
   l0.el.at({i0, j0, 1, 0, 0, 0, 0}) = 0;
   auto rough = apply(M, N, state(lattice(l0, env), 1), p, o);
   size_t k = 0;
   for (size_t i = 0; i < rough.size(); i++) if (std::abs(rough[i]) > std::abs(rough[k])) k = i;
   SU u = lattice(l, env);
   u.dimension_virtual = 64;
   auto before = state(u, 1. / 64), want = apply(M, N, before, p, o);
   auto t = std::make_shared<const T0>(oper(p.size(), o));
   u._single_term_simple_update(p, *t);
   parallel(state(u, 1), want, k, "gate: the new state is not the gate applied to the old one");
   REACH(w);
}
void schedule() {
   SU u(3, 3, 1, 2);
   auto t = std::make_shared<const T0>(1);
   // terms: any three out of one site, neighbours in either order, and others
   auto any = [&](const char* n) -> Where {
      int k = sy_fork(sy_int(n, 0, 35));
      int site = k / 4, kind = k % 4, i = site / 3, j = site % 3;
      if (kind == 0) return {At{i, j}};
      int x = kind == 1 ? i + 1 : kind == 2 ? i : i + 1, y = kind == 1 ? j : j + 1;
      if (x > 2 || y > 2) return {};
      return {At{i, j}, At{x, y}};
   };
   std::set<Where> terms;
   bool fine = true;
   for (int k = 0; k < 2; k++) {
      Where p = any(k ? "second" : "first");
      if (p.empty()) return;
      if (p.size() == 2 && sy_fork(sy_int("reversed", 0, 1))) std::swap(p[0], p[1]);
      terms.insert(p);
      if (p.size() == 2) fine = fine && std::abs(std::get<0>(p[0]) - std::get<0>(p[1])) + std::abs(std::get<1>(p[0]) - std::get<1>(p[1])) == 1;
   }
   for (auto& p : terms) u.hamiltonians[p] = t;
   bool thrown = false;
   std::multiset<Where> got;
   try {
      auto s = u._simple_update_positions_sequence();
      for (auto& g : s) {
         std::set<At> used;
         for (auto& p : g) { got.insert(p); for (auto& q : p) sy_assert(used.insert(q).second, "schedule: two terms of one parallel group share a site"); }
      }
   } catch (const square::NotImplementedError&) { thrown = true; }
   sy_assert(thrown == !fine, "schedule: a supported term is refused or an unsupported one is accepted");
   if (fine) sy_assert(got.size() == terms.size() && std::set<Where>(got.begin(), got.end()) == terms, "schedule: every term once");
   REACH(fine ? "schedule" : "refused");
}
// sweeps through the public interface, on one or several ranks
__attribute__((noinline)) Mat exponential(const Mat& h, double f) { // by its series, after scaling
   size_t n = h.size();
   Mat r(n, std::vector<double>(n, 0)), t;
   for (size_t i = 0; i < n; i++) r[i][i] = 1;
   t = r;
   for (int k = 1; k < 40; k++) {
      Mat q(n, std::vector<double>(n, 0));
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t l = 0; l < n; l++) q[i][j] += t[i][l] * h[l][j] * f / k;
      t = q;
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) r[i][j] += t[i][j];
   }
   return r;
}
void sweeps(const char* w, int M, int N) {
   Lat l(M, N, 2, 2, 2, [](int, int, int) { return false; });
   Where a{At{0, 0}}, b{At{M - 1, N - 1}}, ab{At{0, 0}, At{M - 1, N - 1}}, ba{At{M - 1, N - 1}, At{0, 0}};
   bool full = sy_fork(sy_int("one term that is not diagonal", 0, 1));
   int mask = sy_fork(sy_int("terms", 1, 15)), ranks = 1 + sy_fork(sy_int("ranks", 0, 2));
   if (full && mask != 1 && mask != 2 && mask != 4 && mask != 8) return;
   if (!sy_tier() && (ranks > 1 ? mask != 3 && mask != 15 && mask != 12 : M == 2 && mask != 5 && mask != 10 && mask != 8)) return;
   bool env = sy_tier() ? sy_fork(sy_int("environment", 0, 1)) : mask & 1;
   double x = sy_real("x");
   sy_assume(x >= -0.0625 && x <= 0.0625);
   l.el.at({0, 0, 1, 0, 0, 0, 0}) = x;
   Lat l0 = l;
   l0.el.at({0, 0, 1, 0, 0, 0, 0}) = 0;
   std::map<Where, Mat> terms;
   auto add = [&](const Where& p, double k) {
      Mat m(1 << p.size(), std::vector<double>(1 << p.size(), 0));
      for (size_t i = 0; i < m.size(); i++) { m[i][i] = k + 0.25 * i * i; if (full) for (size_t j = 0; j < m.size(); j++) m[i][j] += 0.25 * i - 0.125 * j; }
      terms[p] = m;
   };
   if (mask & 1) add(a, 0.5);
   if (mask & 2) add(b, -0.25);
   if (mask & 4) add(ab, 0.125);
   if (mask & 8) add(ba, 0);
   std::map<Where, std::shared_ptr<const T0>> ops;
   bool shared = mask == 15 && sy_fork(sy_int("one operator for several terms", 0, 1));
   if (shared) { terms[b] = terms[a]; terms[ba] = terms[ab]; }
   for (auto& [p, m] : terms) if (shared && (p == b || p == ba)) ops[p] = ops.at(p == b ? a : ab); else ops[p] = std::make_shared<const T0>(oper(p.size(), m));
   auto target = [&](std::vector<double> v) { for (auto& [p, m] : terms) v = apply(M, N, v, p, exponential(m, -0.5)); return v; }; // two half sweeps of 1/4
   auto rough = target(state(lattice(l0, env), 1)), want = target(state(lattice(l, env), 1. / 16));
   size_t k = 0;
   for (size_t i = 0; i < rough.size(); i++) if (std::abs(rough[i]) > std::abs(rough[k])) k = i;
   std::vector<SU> results(ranks);
   auto keep = TAT::mpi;
   sim::reset(ranks, false);
   bool ok = sim::run([&](int r) {
      TAT::mpi.rank = r;
      TAT::mpi.size = ranks;
      SU u = lattice(l, env);
      u.hamiltonians = ops;
      u.update(1, 0.25, 64);
      results[r] = u;
   }, false);
   TAT::mpi.rank = 0;
   TAT::mpi.size = 1;
   sim::reset(1, false);
   sy_assert(ok, "sweeps: a rank waits for ever");
   if (ok) for (auto& u : results) parallel(state(u, 1), want, k, "sweeps: the new state is not the evolution of the old one");
   REACH(w);
   if (ranks > 1) REACH("sweeps.ranks");
}
// expectation values
template<class S> Name pn(int i, int j) { return "P-" + num(i) + "-" + num(j); }
template<class S, class L> void put(L& e, const std::vector<S>& v) {
   for (auto& c : everything(e.M, e.N)) { std::map<Name, Size> at; for (int i = 0; i < e.M; i++) for (int j = 0; j < e.N; j++) at[pn<S>(i, j)] = c[i][j]; e.vector.at(at) = v[index(c)]; }
}
template<class S, class L> std::vector<S> take(L& e) {
   std::vector<S> r;
   for (auto& c : everything(e.M, e.N)) { std::map<Name, Size> at; for (int i = 0; i < e.M; i++) for (int j = 0; j < e.N; j++) at[pn<S>(i, j)] = c[i][j]; r.push_back(e.vector.at(at)); }
   return r;
}
template<class S, class C> void observe(const char* w, int M, int N) {
   square::ExactLattice<S> e(M, N, 2);
   std::vector<S> v;
   for (int k = 0; k < 1 << (M * N); k++) v.push_back(k < 4 ? sym<S>("v") : S(k % 5 - 1));
   put<S>(e, v);
   Where a{At{0, 0}}, b{At{M - 1, N - 1}};
   std::vector<Where> places{a, b, {a[0], b[0]}, {b[0], a[0]}, {}};
   Where p = places[sy_fork(sy_int("place", 0, 4))];
   std::vector<std::vector<C>> o(1 << p.size(), std::vector<C>(1 << p.size()));
   int n = 0;
   for (auto& r : o) for (auto& x : r) x = n++ < 4 ? sym<C>("o") : C(n - 9);
   double got = e.observe(p, oper<C>(p.size(), o), false);
   std::vector<std::vector<cplx>> oc(o.size(), std::vector<cplx>(o.size()));
   for (size_t i = 0; i < o.size(); i++) for (size_t j = 0; j < o.size(); j++) oc[i][j] = o[i][j];
   std::vector<cplx> vc(v.begin(), v.end()), ov = apply(M, N, vc, p, oc);
   double x = 0, norm = 0;
   for (size_t k = 0; k < v.size(); k++) { x += mul(cj(vc[k]), ov[k]).real(); norm += vc[k].real() * vc[k].real() + vc[k].imag() * vc[k].imag(); }
   sy_eq(got, x, "observe: expectation value");
   sy_eq(e.denominator(), norm, "observe: norm of the state");
   if (M * N == 2) {
      sy_assume(norm > 0);
      if (e.denominator() != 0) sy_eq(e.observe(p, oper<C>(p.size(), o), true) * norm, x, "observe: normalised expectation value");
   }
   REACH(w);
}
void energy(const char* w, int M, int N) {
   EX e(M, N, 2);
   std::vector<double> v;
   for (int k = 0; k < 1 << (M * N); k++) v.push_back(k % 7 - 2.5);
   put<double>(e, v);
   std::map<Where, Mat> terms;
   auto add = [&](const Where& p, double k) {
      Mat m(1 << p.size(), std::vector<double>(1 << p.size(), 0));
      for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) m[i][j] = i == j ? k : i < j ? 0.25 : -0.5;
      m[1][0] = sy_real("h");
      sy_assume(m[1][0] >= -0.5 && m[1][0] <= 0.5);
      terms[p] = m;
      e.hamiltonians[p] = std::make_shared<const T0>(oper(p.size(), m));
   };
   add({At{0, 0}}, 0.5);
   add({At{0, 0}, At{M - 1, N - 1}}, -1);
   if (sy_fork(sy_int("more", 0, 1))) add({At{M - 1, N - 1}, At{0, 0}}, 2);
   std::vector<double> hv(v.size(), 0);
   for (auto& [p, m] : terms) { auto x = apply(M, N, v, p, m); for (size_t k = 0; k < v.size(); k++) hv[k] += x[k]; }
   double num = 0, norm = 0, a = 4. * M * N;
   for (size_t k = 0; k < v.size(); k++) { num += v[k] * hv[k]; norm += v[k] * v[k]; }
   close(e.observe_energy() * norm * (M * N), num, "energy: energy per site");
   double ret = e.update(1, -4);
   auto r = take<double>(e);
   double n = a - ret * (M * N); // the norm of the new vector
   bool one = false, less = true;
   for (size_t k = 0; k < v.size(); k++) {
      close(r[k] * n, a * v[k] - hv[k], "energy: one step of the power method");
      one = one | (r[k] > 1 - 1e-9) | (r[k] < -1 + 1e-9);
      less = less & (r[k] < 1 + 1e-9) & (r[k] > -1 - 1e-9);
   }
   sy_assert(one & less, "energy: normalisation after a step");
   REACH(w);
}
void multiple(const std::vector<double>& a, const std::vector<double>& b, const char* w) { // exactly; the first component of b is not zero
   sy_assert(a[0] != 0, w);
   for (size_t i = 1; i < b.size(); i++) sy_eq(a[i] * b[0], a[0] * b[i], w);
}
void convert(const char* w, int M, int N) {
   bool dir = M > 1 && N > 1 && sy_fork(sy_int("wide bonds", 0, 1));
   Lat l(M, N, 2, dir && !sy_tier() ? 1 : 2, dir || sy_tier() || N == 1 ? 2 : 1, [](int, int, int) { return false; });
   // norms are powers of two that do not depend on x: every division is exact
   { int n = 0; for (auto& [at, x] : l.el) { n = (n * 3 + 2) % 7; x = at[2] == 0 ? (at[3] + at[4] + at[5] + at[6] ? 0 : 4) : (n - 3.5) / 16; } }
   int site = sy_fork(sy_int("free site", 0, M * N - 1));
   bool env = sy_fork(sy_int("environment", 0, 1));
   double x = sy_real("x");
   sy_assume(x >= -0.25 && x <= 0.25);
   std::array<int, 7> at{site / N, site % N, 1, 0, 0, 0, 0};
   l.el.at(at) = x;
   auto want = state(lattice(l, env), 1);
   SU u = lattice(l, env);
   auto op = std::make_shared<const T0>(1);
   u.hamiltonians[{At{0, 0}}] = op;
   SGL g(u, 16);
   EX e(u), f(g);
   SU back(g);
   multiple(take<double>(e), want, "convert: exact state of a simple update lattice");
   multiple(take<double>(f), want, "convert: exact state of a sampling lattice");
   multiple(state(back, 1), want, "convert: simple update lattice of a sampling lattice");
   std::vector<double> amp;
   for (auto& c : everything(M, N)) { g.initialize_spin(c); amp.push_back(g.spin()); }
   multiple(amp, want, "convert: amplitudes of a sampling lattice");
   for (auto* h : {&g.hamiltonians, &e.hamiltonians, &f.hamiltonians, &back.hamiltonians}) sy_assert(h->size() == 1 && h->begin()->second == op && h->begin()->first == Where{At{0, 0}}, "convert: terms");
   sy_assert(g.M == M && g.N == N && e.M == M && f.N == N && back.M == M && back.N == N && back.environment.empty() && g.dimension_cut == 16 && e.dimension_physics == 2, "convert: sizes");
   REACH(w);
}
// files
void same(const T0& a, const T0& b, const char* w) {
   sy_assert(a.names == b.names && a.core->edges == b.core->edges, w);
   auto &x = a.core->blocks.begin()->second, &y = b.core->blocks.begin()->second;
   sy_assert(x.size() == y.size(), w);
   if (x.size() == y.size()) for (size_t k = 0; k < x.size(); k++) sy_eq(x[k], y[k], w);
}
void same_base(const square::AbstractLattice<double>& a, const square::AbstractLattice<double>& b) {
   sy_assert(a.M == b.M && a.N == b.N && a.dimension_physics == b.dimension_physics && a.hamiltonians.size() == b.hamiltonians.size(), "files: sizes");
   for (auto& [p, t] : a.hamiltonians) {
      auto f = b.hamiltonians.find(p);
      sy_assert(f != b.hamiltonians.end(), "files: positions of a term");
      if (f != b.hamiltonians.end()) same(*t, *f->second, "files: a term");
      for (auto& [q, s] : a.hamiltonians) if (f != b.hamiltonians.end() && b.hamiltonians.count(q)) sy_assert((s == t) == (b.hamiltonians.at(q) == f->second), "files: terms shared between positions");
   }
}
void same_net(const square::AbstractNetworkLattice<double>& a, const square::AbstractNetworkLattice<double>& b) {
   same_base(a, b);
   sy_assert(a.dimension_virtual == b.dimension_virtual && a.lattice.size() == b.lattice.size(), "files: sizes");
   for (size_t i = 0; i < a.lattice.size(); i++) { sy_assert(a.lattice[i].size() == b.lattice[i].size(), "files: sizes"); for (size_t j = 0; j < a.lattice[i].size(); j++) same(a.lattice[i][j], b.lattice[i][j], "files: a site"); }
}
template<class L> void terms(L& a) {
   auto s = std::make_shared<const T0>(oper<double>(1, {{sy_real("h"), 1}, {1, sy_real("h")}})), t = std::make_shared<const T0>(oper<double>(1, {{1, 2}, {sy_real("h"), 0}}));
   int k = sy_fork(sy_int("terms", 0, 2));
   if (k > 0) { a.hamiltonians[{At{0, 0}}] = t; a.hamiltonians[{At{0, 1}}] = s; a.hamiltonians[{}] = t; }
   if (k > 1) a.hamiltonians[{At{0, 1}, At{0, 0}}] = s;
}
void files() {
   using square::operator<;
   using square::operator>;
   Lat l(1, 2, 2, 2, 1, [](int, int, int) { return true; });
   int kind = sy_fork(sy_int("kind", 0, 2));
   std::stringstream f;
   if (kind == 0) {
      SU a = lattice(l, sy_fork(sy_int("environment", 0, 1))), b(2, 1, 1, 2);
      a.dimension_virtual = 7;
      terms(a);
      b.set_all_vertical_bond(std::make_shared<const T0>(2));
      b.environment[{'D', 0, 0}].value[No()] = {1, 2};
      f < a;
      f > b;
      same_net(a, b);
      sy_assert(a.environment.size() == b.environment.size(), "files: environments");
      for (auto& [p, s] : a.environment) { auto q = b.environment.find(p); sy_assert(q != b.environment.end() && q->second.value == s.value, "files: an environment"); }
      REACH("files.update");
   } else if (kind == 1) {
      SGL a(1, 2, 2, 8, 2), b(2, 1, 1, 4, 2);
      l.put(a);
      terms(a);
      Conf c{{sy_fork(sy_int("spin", 0, 1)) ? 1 : 0, 1}};
      a.initialize_spin(c);
      b.initialize_spin([](int, int) { return 1; });
      if (sy_fork(sy_int("evaluated", 0, 1))) b.spin();
      f < a;
      f > b;
      same_net(a, b);
      sy_assert(b.dimension_cut == 8 && b.spin.configuration == c, "files: configuration");
      sy_eq(b.spin(), l.amplitude(c), "files: amplitude after loading");
      sy_eq(a.spin(), l.amplitude(c), "files: amplitude after saving");
      c[0][0] ^= 1;
      b.spin.set({0, 0}, c[0][0]);
      sy_eq(b.spin(), l.amplitude(c), "files: amplitude after loading and changing a spin");
      REACH("files.sampling");
   } else {
      EX a(1, 2, 2), b(2, 1, 2);
      std::vector<double> v;
      for (int k = 0; k < 4; k++) v.push_back(sy_real("v"));
      put<double>(a, v);
      terms(a);
      b.set_all_site(std::make_shared<const T0>(1));
      f < a;
      f > b;
      same_base(a, b);
      same(a.vector, b.vector, "files: exact state");
      REACH("files.exact");
   }
}
void harness() {
   quiet();
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 6))) {
      case 0: schedule(); break;
      case 1: observe<double, double>("observe", 1, 2); break;
      case 2: observe<double, cplx>("observe.mixed", 2, 1); break;
      case 3: observe<cplx, cplx>("observe.complex", 1, 2); break;
      case 4: observe<double, double>("observe.square", 2, 2); break;
      case 5: energy("energy", sy_fork(sy_int("M", 1, 2)), 2); break;
      case 6: sy_factor(1); files(); break;
   }
#else
   sy_factor(2);
   sy_splitselects(1);
   switch (sy_fork(sy_int("family", 0, 8))) {
      case 0: convert("convert.row", 1, 3); break;
      case 1: gate("gate.row", 1, 2); break;
      case 2: gate("gate.column", 2, 1); break;
      case 3: gate("gate.long", 1, 3); break;
      case 4: gate("gate.square", 2, 2); break;
      case 5: sweeps("sweeps.row", 1, 2); break;
      case 6: sweeps("sweeps.column", 2, 1); break;
      case 7: convert("convert.square", 2, 2); break;
      case 8: convert("convert.column", 3, 1); break;
   }
#endif
}
