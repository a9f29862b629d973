#include "streams.hpp"
#include <random>
#include "../engine/sy.h"
// the random elements of a new lattice: one of them free, the others numbers
static int drawn, free_draw;
template<> template<> double std::normal_distribution<double>::operator()(std::default_random_engine&, const param_type& p) {
   int n = drawn++;
   if (n == free_draw) { double x = sy_real("element"); sy_assume(x >= -4 && x <= 4); return x; }
   return n % 3 ? 0.5 + n % 5 : -1.5;
}
#include "lattice.hpp"
using square::ExactLattice;
using square::SimpleUpdateLattice;
typedef std::vector<At> Sites;
template<class L> void terms(L& l, int M, int N, const char* tag) { // each setter covers its sites or bonds, and nothing else
   auto op = std::make_shared<const T0>(sy_real("term")), other = std::make_shared<const T0>(2.), last = std::make_shared<const T0>(3.);
   int order = sy_fork(sy_int("order", 0, 5));
   static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
   int done = sy_fork(sy_int("number of setters", 0, 3));
   bool has[3] = {false, false, false};
   for (int k = 0; k < done; k++) switch (orders[order][k]) {
      case 0: l.set_all_site(op); has[0] = true; break;
      case 1: l.set_all_vertical_bond(other); has[1] = true; break;
      default: l.set_all_horizontal_bond(last); has[2] = true;
   }
   std::map<Sites, const T0*> want;
   for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
      if (has[0]) want[{{i, j}}] = &*op;
      if (has[1] && i + 1 < M) want[{{i, j}, {i + 1, j}}] = &*other;
      if (has[2] && j + 1 < N) want[{{i, j}, {i, j + 1}}] = &*last;
   }
   // a bond may be stored from either end
   sy_assert(l.hamiltonians.size() == want.size(), "number of terms");
   for (auto& [at, t] : want) {
      auto it = l.hamiltonians.find(at);
      if (it == l.hamiltonians.end() && at.size() == 2) it = l.hamiltonians.find({at[1], at[0]});
      sy_assert(it != l.hamiltonians.end(), "a site or bond has no term");
      if (it != l.hamiltonians.end()) sy_eq(it->second->at({}), t->at({}), "the term of a site or bond");
   }
   REACH(tag);
}
void bounded(const T0& t) {
   double top = 0;
   bool one = false;
   for (auto& x : t.core->blocks.begin()->second) { sy_assert(x <= 1 && x >= -1, "an element of a new lattice is larger than one"); one = one | (x == 1) | (x == -1); }
   (void)top;
   sy_assert(one, "the largest element of a new lattice is one");
}
template<class L> void network(L& l, int M, int N, Size D, Size d, const char* tag) {
   sy_assert(l.M == M && l.N == N && l.dimension_virtual == D && l.dimension_physics == d, "sizes of a new lattice");
   sy_assert(int(l.lattice.size()) == M, "rows of a new lattice");
   for (int i = 0; i < M; i++) {
      sy_assert(int(l.lattice[i].size()) == N, "columns of a new lattice");
      for (int j = 0; j < N; j++) {
         auto& t = l.lattice[i][j];
         well_formed(t, "site of a new lattice");
         std::map<Name, Size> want{{"P", d}};
         if (i > 0) want["U"] = D;
         if (j > 0) want["L"] = D;
         if (i + 1 < M) want["D"] = D;
         if (j + 1 < N) want["R"] = D;
         sy_assert(t.names.size() == want.size(), "number of edges of a site");
         for (auto& [n, k] : want) {
            auto it = t.name_to_index.find(n);
            sy_assert(it != t.name_to_index.end() && t.core->edges[it->second].map.begin()->second == k, "edges of a site");
         }
         bounded(t);
      }
   }
   REACH(tag);
}
// the operators acting on arbitrary states
typedef square::Common<double> S;
template<class T> std::vector<T> act1(const TAT::Tensor<T>& o, const std::vector<T>& v) { // I: the state that goes in
   std::vector<T> r(2, T(0));
   for (Size i = 0; i < 2; i++) for (Size k = 0; k < 2; k++) r[k] = r[k] + mul(o.at({{"I0", i}, {"O0", k}}), v[i]);
   return r;
}
std::vector<double> act2(const T0& o, const std::vector<double>& v) {
   std::vector<double> r(4, 0);
   for (Size a = 0; a < 2; a++) for (Size b = 0; b < 2; b++) for (Size c = 0; c < 2; c++) for (Size e = 0; e < 2; e++) r[c * 2 + e] += o.at({{"I0", a}, {"I1", b}, {"O0", c}, {"O1", e}}) * v[a * 2 + b];
   return r;
}
void spins() {
   if (sy_fork(sy_int("sites", 1, 2)) == 1) {
      std::vector<cplx> v{sym<cplx>("v"), sym<cplx>("v")};
      auto x = [&](const std::vector<cplx>& w) { return act1<cplx>(S::Sx()->to<cplx>(), w); };
      auto y = [&](const std::vector<cplx>& w) { return act1<cplx>(*S::Sy(), w); };
      auto z = [&](const std::vector<cplx>& w) { return act1<cplx>(S::Sz()->to<cplx>(), w); };
      // [Sx, Sy] = i Sz and so on, each squares to a quarter, Sz is diagonal and raises the first state
      // the operators are stored with either index as the one that goes in, so the sign of i is common to all three
      double sg = S::Sy()->at({{"I0", 0}, {"O0", 1}}).imag() < 0 ? 1 : -1;
      auto check = [&](auto a, auto b, auto c, const char* w) {
         auto p = a(b(v)), q = b(a(v)), r = c(v);
         for (int k = 0; k < 2; k++) { cplx l = p[k] - q[k]; eq(l, cplx(sg * r[k].imag(), -sg * r[k].real()), w); }
      };
      check(x, y, z, "commutator of Sx and Sy");
      check(y, z, x, "commutator of Sy and Sz");
      check(z, x, y, "commutator of Sz and Sx");
      for (int k = 0; k < 2; k++) {
         eq(x(x(v))[k], v[k] * 0.25, "square of Sx");
         eq(y(y(v))[k], v[k] * 0.25, "square of Sy");
         eq(z(z(v))[k], v[k] * 0.25, "square of Sz");
         eq(z(v)[k], v[k] * (k ? -0.5 : 0.5), "Sz");
      }
      REACH("spin");
   } else {
      std::vector<double> v;
      for (int k = 0; k < 4; k++) v.push_back(sy_real("v"));
      auto s = act2(*S::SS(), v), xx = act2(*S::SxSx(), v), yy = act2(*S::SySy(), v), zz = act2(*S::SzSz(), v);
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
         int k = a * 2 + b;
         eq(s[k], v[b * 2 + a] * 0.5 - v[k] * 0.25, "product of two spins: half of the exchange less a quarter");
         eq(xx[k], v[(1 - a) * 2 + 1 - b] * 0.25, "SxSx");
         eq(yy[k], v[(1 - a) * 2 + 1 - b] * (a == b ? -0.25 : 0.25), "SySy");
         eq(zz[k], v[k] * (a == b ? 0.25 : -0.25), "SzSz");
      }
      sy_assert(&*S::SS() == &*S::SS(), "a standard term is one object");
      REACH("pair");
   }
}
void harness() {
   quiet();
   drawn = 0;
   int top = sy_tier() ? 5 : 3;
   int fam = sy_fork(sy_int("family", 0, 3));
   if (fam == 3) { spins(); return; }
   int M = sy_fork(sy_int("rows", 1, top)), N = sy_fork(sy_int("columns", 1, top));
   if (fam == 0) { square::AbstractLattice<double> l(M, N, 2); terms(l, M, N, "terms"); return; }
   Size D = sy_fork(sy_int("virtual dimension", 1, 2)), d = sy_fork(sy_int("physical dimension", 1, 3));
   free_draw = sy_fork(sy_int("free element", 0, 1)) ? 0 : 3;
   sy_splitselects(1);
   if (fam == 1) { if (D * d > 4) sy_skip(); square::SimpleUpdateLattice<double> l(M, N, D, d); network(l, M, N, D, d, "network"); }
   else {
      if (M * N > 4 || D > 1) sy_skip();
      ExactLattice<double> l(M, N, d);
      well_formed(l.vector, "new exact state");
      std::set<Name> want;
      for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) want.insert("P-" + std::to_string(i) + "-" + std::to_string(j));
      sy_assert(std::set<Name>(l.vector.names.begin(), l.vector.names.end()) == want, "names of an exact state");
      for (auto& e : l.vector.core->edges) sy_assert(e.map.begin()->second == d, "dimensions of an exact state");
      bounded(l.vector);
      REACH("exact");
   }
}
