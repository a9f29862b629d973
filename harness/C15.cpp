#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
template<class S> inline S scale(const S& a, double b) { if constexpr (std::is_floating_point_v<S>) return a * b; else return S(decltype(a.real())(a.real() * b), decltype(a.real())(a.imag() * b)); }
// U, S, V of a tensor over every bipartition: names, shape, reconstruction, isometry; with a cut the largest values survive
template<class S, class Y> void run(const std::vector<Segs<Y>>& segs, bool cuts, const char* tag, bool iso = false, int mask = -1) {
   int n = segs.size();
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   std::set<Name> left;
   std::vector<Name> un, vn{Name("V")};
   if (mask < 0) mask = sy_fork(sy_int("left", 0, (1 << n) - 1));
   for (int i = 0; i < n; i++) {
      names.push_back(nm(i));
      edges.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow")));
      if (mask >> i & 1) { left.insert(nm(i)); un.push_back(nm(i)); } else vn.push_back(nm(i));
   }
   un.push_back(Name("U"));
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   auto tab = table(t);
   auto r = t.svd(left, Name("U"), Name("V"));
   same(table(t), tab, "svd changed its operand");
   well_formed(r.U, "svd U");
   well_formed(r.V, "svd V");
   auto u = table(r.U), v = table(r.V);
   sy_assert(u.names == un, "names of U");
   sy_assert(v.names == vn, "names of V");
   if (u.names != un || v.names != vn) return;
   int cu = un.size() - 1;
   // dimension of the new edge: over each charge the smaller side
   for (auto& [y, dim] : u.segs[cu]) {
      sy_assert(dim_of<Y>(v.segs[0], Ch<Y>::neg(y)) == dim, "the common edges of U and V fit");
      auto it = r.S.value.find(y);
      sy_assert(it != r.S.value.end() && it->second.size() == dim, "there is a singular value for every index of the common edge");
      if (it == r.S.value.end() || it->second.size() != dim) return;
      for (Size i = 0; i < dim; i++) { sy_assert(it->second[i] >= 0, "singular values are not negative"); if (i) sy_assert(it->second[i - 1] >= it->second[i], "singular values decrease"); }
   }
   if (!cuts) {
      auto w = u;
      for (auto& [p, x] : w.data) x = scale<S>(x, r.S.value.at(p[cu].first)[p[cu].second]);
      auto back = ref_contract<S, Y>(w, v, {{Name("U"), Name("V")}});
      same(ref_transpose(back, names), tab, "U S V");
      if (iso) {
         for (auto& [y, dim] : u.segs[cu]) for (Size i = 0; i < dim; i++) for (Size j = 0; j <= i; j++) {
            S a = S(0), b = S(0);
            for (auto& [p, x] : u.data) if (eqc<Y>(p[cu].first, y) && p[cu].second == i) { auto q = p; q[cu].second = j; a = a + mul(cj(u.get(q)), x); }
            for (auto& [p, x] : v.data) if (eqc<Y>(p[0].first, Ch<Y>::neg(y)) && p[0].second == i) { auto q = p; q[0].second = j; b = b + mul(cj(v.get(q)), x); }
            eq(a, S(i == j ? 1 : 0), "U is an isometry");
            eq(b, S(i == j ? 1 : 0), "V is an isometry");
         }
      }
      REACH(tag);
      return;
   }
   size_t total = 0;
   for (auto& [y, s] : r.S.value) total += s.size();
   size_t cut = sy_fork(sy_int("cut", 1, total + 1));
   auto c = t.svd(left, Name("U"), Name("V"), cut);
   well_formed(c.U, "svd U with cut");
   well_formed(c.V, "svd V with cut");
   auto u2 = table(c.U), v2 = table(c.V);
   sy_assert(u2.names == un && v2.names == vn, "names with cut");
   if (u2.names != un || v2.names != vn) return;
   size_t kept = 0;
   bool ordered = true;
   for (auto& [y, s] : c.S.value) {
      kept += s.size();
      auto it = r.S.value.find(y);
      sy_assert(it != r.S.value.end() && s.size() <= it->second.size(), "a cut adds no singular values");
      if (it == r.S.value.end() || s.size() > it->second.size()) return;
      for (size_t i = 0; i < s.size(); i++) {
         eq(s[i], it->second[i], "kept singular value");
         for (auto& [z, f] : r.S.value) { // every dropped value
            auto g = c.S.value.find(z);
            size_t have = g == c.S.value.end() ? 0 : g->second.size();
            for (size_t j = have; j < f.size(); j++) ordered = ordered & (f[j] <= s[i]);
         }
      }
      sy_assert(s.size() == dim_of<Y>(u2.segs[cu], y) && s.size() == dim_of<Y>(v2.segs[0], Ch<Y>::neg(y)), "kept singular values fit the common edges");
   }
   sy_assert(ordered, "a dropped singular value is larger than a kept one");
   sy_assert(kept == std::min(cut, total), "number of singular values after the cut");
   Size du = 0, dv = 0;
   for (auto& [y, d] : u2.segs[cu]) du += d;
   for (auto& [y, d] : v2.segs[0]) dv += d;
   sy_assert(du == kept && dv == kept, "dimension of the common edges after the cut");
   for (auto& [p, x] : u2.data) eq(x, u.get(p), "kept columns of U");
   for (auto& [p, x] : v2.data) eq(x, v.get(p), "kept rows of V");
   for (auto& [p, x] : u.data) if (p[cu].second < dim_of<Y>(u2.segs[cu], p[cu].first)) sy_assert(u2.data.count(p), "a kept column of U is missing");
   for (auto& [p, x] : v.data) if (p[0].second < dim_of<Y>(v2.segs[0], p[0].first)) sy_assert(v2.data.count(p), "a kept row of V is missing");
   REACH(tag);
}
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int lo, int hi) { return sy_fork(sy_int("dim", lo, hi)); }
void harness() {
   int lim = sy_tier() ? 9 : 3;
#if PART == 4 // single precision: kernels of their own
   sy_scale(1e4);
   switch (sy_fork(sy_int("family", 0, 4))) {
      case 0: run<float, No>({d(anyd(1, 3)), d(2)}, false, "float"); break;
      case 1: run<cflt, No>({d(2), d(1)}, false, "complexfloat"); break;
      case 2: run<float, No>({d(3), d(2)}, true, "cut.float", false, 1 + sy_fork(sy_int("side", 0, 1))); break;
      case 3: run<float, No>({d(anyd(1, 2)), d(2)}, false, "isometry.float", true, 1 + sy_fork(sy_int("side", 0, 1))); break;
      default: run<float, F1>({c2<F1>(-1, 0, 1, 1), c2<F1>(0, 1, 1, 1)}, false, "fermi.float");
   }
#elif PART == 5 // the isometries are fixed matrices: linear, hence larger matrices
   sy_factor(3);
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: run<double, No>({d(anyd(1, 5)), d(anyd(1, 5))}, false, "large"); break;
      case 1: run<double, No>({d(anyd(2, 4)), d(anyd(2, 4))}, true, "largecut", false, 1 + sy_fork(sy_int("side", 0, 1))); break;
      case 2: run<cplx, No>({d(anyd(2, 4)), d(anyd(2, 4))}, false, "largecomplex"); break;
      default: run<double, U1>({c2<U1>(-1, 0, 2, 3), c2<U1>(0, 1, 3, 2), c2<U1>(0, 1)}, false, "largeu1");
   }
#elif PART == 0
   switch (sy_fork(sy_int("family", 0, 4))) {
      case 0: run<double, No>({d(anyd(0, 3)), d(anyd(0, 2))}, false, "dense"); break;
      case 1: run<double, No>({d(2), d(1), d(2)}, false, "dense3"); break;
      case 2: run<cplx, No>({d(2), d(1)}, false, "complex"); break;
      case 3: run<double, No>({d(anyd(1, 2)), d(2)}, false, "isometry", true, 1 + sy_fork(sy_int("side", 0, 1))); break;
      default: run<double, No>({d(3), d(anyd(1, 2))}, true, "cut", false, 1 + sy_fork(sy_int("side", 0, 1)));
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: run<double, U1>({any_segs<U1>("e", 2, 2, 1, 2, lim), any_segs<U1>("e", 2, 2, 1, 1, lim)}, false, "u1"); break;
      case 1: run<double, U1>({c2<U1>(-1, 0, 1, 2), c2<U1>(0, 1, 2, 1), c2<U1>(0, 1)}, false, "u1three"); break;
      default: run<cplx, Z2>({c2<Z2>(0, 1), c2<Z2>(0, 1)}, false, "z2");
   }
#elif PART == 2
   switch (sy_fork(sy_int("family", 0, 1))) {
      case 0: run<double, F1>({c2<F1>(-1, 0, 1, 1), c2<F1>(0, 1, 1, 1), c2<F1>(-1, 1)}, false, "fermi"); break;
      default: run<double, FZ>({c2<FZ>(FZ(0, 1), FZ(1, 0)), c2<FZ>(FZ(-1, 0), FZ(0, 1), 2, 1)}, false, "fermiz2");
   }
#else
   switch (sy_fork(sy_int("family", 0, 1))) {
      case 0: run<double, U1>({c2<U1>(-1, 0, 2, 2), c2<U1>(0, 1, 2, 2)}, true, "cut.u1"); break;
      default: run<double, F1>({c2<F1>(-1, 0, 1, 2), c2<F1>(0, 1, 2, 1), c2<F1>(0, 1)}, true, "cut.fermi", false, 1 + 4 * sy_fork(sy_int("side", 0, 1)));
   }
#endif
}
