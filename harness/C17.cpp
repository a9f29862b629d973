#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
// Matrices whose exponential is a polynomial (nilpotent ones): there the rational approximant of every order >= the
// degree/2 is exact, whatever the scaling, so the result has to be the exponential itself, 1 + A + A^2/2 + ...
// The matrix product and its neutral element are those of the contraction.
template<class S, class Y> Tab<S, Y> product(const Tab<S, Y>& a, const Tab<S, Y>& b, const std::vector<std::pair<Name, Name>>& pairs) {
   std::vector<std::pair<Name, Name>> p;
   for (auto& [x, y] : pairs) p.push_back({y, x});
   return ref_transpose(ref_contract<S, Y>(a, b, p), a.names);
}
template<class Y> struct Idx { Pos<Y> row, col; };
template<class S> S over(const S& a, double b) { if constexpr (std::is_floating_point_v<S>) return a / S(b); else { typedef typename S::value_type R; return S(a.real() / R(b), a.imag() / R(b)); } }
void within(double x, double t) { sy_assume(x >= -t && x <= t); }
void within(float x, double t) { within(double(x), t); }
void within(const cflt& x, double t) { within(x.real(), t); within(x.imag(), t); }
void within(const cplx& x, double t) { within(x.real(), t); within(x.imag(), t); }
static double largest = 0; // bound of the entries where it is not the usual one
static int most = 0; // largest order where it is not the usual one
// kind 4: fixed numbers next to the diagonal and a free one in the corner; kind 0: strictly triangular (in a symbolically chosen order of the components); 1: c (-ab aa; -bb ab); 2: zero; 3: triangular in three steps, so that the third power vanishes
template<class S, class Y> void run(const std::vector<Segs<Y>>& paired, int kind, int degree, const char* tag, bool perms = true, bool small = false) {
   std::vector<Name> all;
   std::vector<Segs<Y>> segs;
   std::vector<bool> arrows;
   std::vector<std::pair<Name, Name>> pairs;
   Pairs given;
   bool swapped = sy_fork(sy_int("swapped", 0, 1));
   static const char* c1[] = {"a", "b", "c"};
   static const char* c2[] = {"q", "p", "r"};
   for (size_t i = 0; i < paired.size(); i++) {
      bool w = any_arrow<Y>("arrow");
      all.push_back(Name(c1[i])); segs.push_back(paired[i]); arrows.push_back(w);
      all.push_back(Name(c2[i])); segs.push_back(conj_segs<Y>(paired[i])); arrows.push_back(!w);
      pairs.push_back({Name(c1[i]), Name(c2[i])});
      if (swapped) given.insert({Name(c2[i]), Name(c1[i])}); else given.insert({Name(c1[i]), Name(c2[i])});
   }
   std::vector<int> order;
   if (perms) order = any_perm(all.size(), "order"); else { for (size_t i = 0; i < all.size(); i++) order.push_back(i); if (sy_fork(sy_int("order", 0, 1))) std::reverse(order.begin(), order.end()); }
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (int i : order) { names.push_back(all[i]); edges.push_back(edge<Y>(segs[i], arrows[i])); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   // components of the rows, in the order of the positions of the first edges of the pairs
   std::vector<Segs<Y>> rs;
   for (auto& [x, y] : pairs) rs.push_back(segs[std::find(all.begin(), all.end(), x) - all.begin()]);
   std::map<Pos<Y>, int> rank;
   int n = 0;
   each<Y>(rs, [&](const Pos<Y>& p) { rank[p] = n++; });
   bool down = sy_fork(sy_int("triangle", 0, 1));
   auto part = [&](const Pos<Y>& p, bool col) { Pos<Y> r; for (auto& [x, y] : pairs) { auto q = p[t.name_to_index.at(col ? y : x)]; if (col) q.first = Ch<Y>::neg(q.first); r.push_back(q); } return r; };
   double a = 0, b = 0, c = 0, top = largest ? largest : sy_tier() ? 4 : 1;
   if (kind == 1) { a = sy_real("a"); b = sy_real("b"); c = sy_real("c"); within(a, 1); within(b, 1); within(c, top); }
   t.zero();
   auto shape = table(t);
   for (auto& [p, v] : shape.data) {
      int i = rank.at(part(p, false)), j = rank.at(part(p, true));
      S x = S(0);
      if (kind == 0 && (down ? i > j : i < j) || kind == 3 && (down ? (i + 1) / 2 > (j + 1) / 2 : (i + 1) / 2 < (j + 1) / 2)) x = sym<S>("x"), within(x, small ? 0.5 : top);
      if (kind == 4) { int u = down ? j : i, w = down ? i : j; if (u + 1 == w) x = S(0.5); else if (u == 0 && w == n - 1) x = sym<S>("x"), within(x, top); }
      if (kind == 1) x = S(i == 0 ? (j == 0 ? -(a * b * c) : a * a * c) : (j == 0 ? -(b * b * c) : a * b * c));
      v = x;
      std::vector<Y> ys; Size o = 0;
      for (size_t k = 0; k < p.size(); k++) { ys.push_back(p[k].first); o = o * dim_of<Y>(shape.segs[k], p[k].first) + p[k].second; }
      t.core->blocks.at(ys)[o] = x;
   }
   // the coefficients of higher orders are not dyadic: there the comparison is up to rounding
   int least = std::max(1, (degree + 1) / 2);
   int step = std::is_same_v<S, float> || std::is_same_v<S, cflt> ? least : sy_fork(sy_int("step", least, most ? most : sy_tier() ? 3 : 2));
   auto r = t.exponential(given, step);
   well_formed(r, "exponential");
   auto got = table(r);
   sy_assert(std::set<Name>(got.names.begin(), got.names.end()) == std::set<Name>(names.begin(), names.end()) && got.names.size() == names.size(), "names of the exponential");
   // neutral element: unit at every matching pair of positions
   auto want = shape;
   for (auto& [p, v] : want.data) v = S(0);
   for (auto& [p, v] : shape.data) if (part(p, false) == part(p, true)) {
      Tab<S, Y> u = shape;
      for (auto& [q, w] : u.data) w = S(q == p ? 1 : 0);
      want.data[p] = product<S, Y>(u, u, pairs).get(p);
   }
   auto power = shape;
   double f = 1;
   for (int k = 1; k <= degree; k++) {
      f *= k;
      for (auto& [p, v] : want.data) v = v + over<S>(power.get(p), f);
      if (k < degree) power = product<S, Y>(power, shape, pairs);
   }
   auto have = ref_transpose(got, names);
   if (step == 1) same(have, want, "exponential");
   else {
      auto zero = want;
      for (auto& [p, v] : zero.data) {
         S e = have.get(p) - want.get(p);
         constexpr double tol = sizeof(S) == sizeof(float) || std::is_same_v<S, cflt> ? 1e-4 : 1e-9;
         if constexpr (std::is_floating_point_v<S>) sy_assert(e <= tol && e >= -tol, "exponential");
         else sy_assert(e.real() <= tol && e.real() >= -tol && e.imag() <= tol && e.imag() >= -tol, "exponential");
         v = S(0);
         have.data[p] = S(0);
      }
      same(have, zero, "shape of the exponential");
   }
   same(table(t), shape, "exponential changed its operand");
   REACH(tag);
}
// one by one matrices (dense, and one per charge): close to the exponential function, from both sides
__attribute__((noinline)) double taylor(double x) { double s = 1, u = 1; for (int k = 1; k <= 4; k++) { u = u * x / k; s += u; } return s; }
template<class Y> void accuracy(const Segs<Y>& s, const char* tag) {
   TAT::Tensor<double, Y, Name> t({Name("a"), Name("b")}, {edge<Y>(s), edge<Y>(conj_segs<Y>(s))});
   fill(t, "x");
   auto m = table(t);
   double top = 1;
   for (auto& [p, v] : m.data) sy_assume(v >= -top && v <= top);
   int step = sy_fork(sy_int("step", 2, sy_tier() ? 3 : 2));
   auto r = table(t.exponential(Pairs{{Name("a"), Name("b")}}, step).transpose({Name("a"), Name("b")}));
   for (auto& [p, v] : m.data) {
      double x = r.get(p);
      double e = taylor(v); // within 1% of the exponential for |v| <= 1
      sy_assert(x >= e * 0.97, "exponential of a number");
      sy_assert(x <= e * 1.03, "exponential of a number");
   }
   REACH(tag);
}
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int lo, int hi) { return sy_fork(sy_int("dim", lo, hi)); }
#ifndef FAMSEL
#define FAMSEL(a, b) sy_fork(sy_int("family", a, b))
#endif
void harness() {
#if PART == 3 // single precision: kernels of their own
   sy_scale(1e4);
   switch (FAMSEL(0, 1)) {
      case 0: run<float, No>({d(3)}, 0, 2, "float"); break;
      default: run<cflt, No>({d(2)}, 0, 1, "complexfloat");
   }
#elif PART == 4 // large entries and high orders
   switch (FAMSEL(0, 2)) {
      case 0: most = 1; largest = 64; run<double, No>({d(2)}, 0, 1, "scaled", false); break;
      case 1: most = 6; run<double, No>({d(5)}, 4, 4, "orders", false); break;
      default: most = 5; run<double, U1>({{{U1(0), 4}}}, 4, 3, "orders.u1", false);
   }
#elif PART == 0
   switch (FAMSEL(0, 5)) {
      case 0: run<double, No>({d(3)}, 0, 2, "dense"); break;
      case 1: run<double, No>({d(2)}, 1, 1, "full"); break;
      case 2: run<cplx, No>({d(2)}, 0, 1, "complex"); break;
      case 3: run<double, No>({d(anyd(0, 2)), d(anyd(0, 2))}, 2, 0, "zero"); break;
      case 4: run<double, No>({d(2), d(2)}, 3, 2, "two", true, true); break;
      default: accuracy<No>(d(1), "number");
   }
#elif PART == 1
   switch (FAMSEL(0, 3)) {
      case 0: run<double, U1>({c2<U1>(0, 1, 2, 2)}, 0, 1, "u1"); break;
      case 1: run<double, U1>({c2<U1>(0, 1), c2<U1>(0, 1)}, 0, 1, "u1two"); break;
      case 2: run<double, Z2>({c2<Z2>(0, 1), c2<Z2>(0, 1)}, 0, 1, "z2two", sy_tier()); break;
      default: accuracy<U1>({{U1(1), 1}}, "number.u1");
   }
#else
   switch (FAMSEL(0, 2)) {
      case 0: run<double, F1>({c2<F1>(0, 1, 2, 2)}, 0, 1, "fermi"); break;
      case 1: run<double, F1>({c2<F1>(0, 1), c2<F1>(1, 2)}, 0, 1, "fermimixed", sy_tier()); break; // one block with components of both signs
      default: run<double, F1>({c2<F1>(0, 1), c2<F1>(0, 1)}, 0, 1, "fermitwo", sy_tier());
   }
#endif
}
