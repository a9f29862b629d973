#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
// Q, R of a tensor over every bipartition and either direction: names, shape, reconstruction, isometry
template<class S, class Y> void run(const std::vector<Segs<Y>>& segs, const char* tag, bool iso = true, bool orders = false) {
   int n = segs.size();
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   std::set<Name> set, qn{Name("Q")}, rn{Name("R")};
   int mask = sy_fork(sy_int("set", 0, (1 << n) - 1));
   bool dir = sy_fork(sy_int("direction", 0, 1));
   auto order = orders ? any_perm(n, "order") : std::vector<int>{};
   for (int k = 0; k < n; k++) {
      int i = orders ? order[k] : k;
      names.push_back(nm(i));
      edges.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow")));
      bool in = mask >> i & 1;
      if (in) set.insert(nm(i));
      (in == dir ? rn : qn).insert(nm(i));
   }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   auto tab = table(t);
   auto r = t.qr(dir ? 'r' : 'q', set, Name("Q"), Name("R"));
   same(table(t), tab, "qr changed its operand");
   well_formed(r.Q, "qr Q");
   well_formed(r.R, "qr R");
   auto q = table(r.Q), w = table(r.R);
   bool okq = std::set<Name>(q.names.begin(), q.names.end()) == qn, okr = std::set<Name>(w.names.begin(), w.names.end()) == rn;
   sy_assert(okq, "names of Q");
   sy_assert(okr, "names of R");
   if (!okq || !okr) return;
   int c = q.index(Name("Q")), e = w.index(Name("R"));
   for (auto& [y, dim] : q.segs[c]) sy_assert(dim_of<Y>(w.segs[e], Ch<Y>::neg(y)) == dim, "the common edges of Q and R fit");
   sy_assert(q.segs[c].size() == w.segs[e].size(), "the common edges of Q and R fit");
   if constexpr (fermi<Y>) sy_assert(q.arrows[c] != w.arrows[e], "arrows of the common edges");
   auto back = ref_contract<S, Y>(q, w, {{Name("Q"), Name("R")}});
   same(ref_transpose(back, names), tab, "Q R");
   if (iso)
      for (auto& [y, dim] : q.segs[c])
         for (Size i = 0; i < dim; i++)
            for (Size j = 0; j <= i; j++) {
               S a = S(0);
               for (auto& [p, x] : q.data) if (eqc<Y>(p[c].first, y) && p[c].second == i) { auto o = p; o[c].second = j; a = a + mul(cj(q.get(o)), x); }
               eq(a, S(i == j ? 1 : 0), "Q is an isometry");
            }
   REACH(tag);
}
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int lo, int hi) { return sy_fork(sy_int("dim", lo, hi)); }
void harness() {
   int lim = sy_tier() ? 9 : 3;
#if PART == 3 // single precision: kernels of their own
   sy_scale(1e4);
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: run<float, No>({d(anyd(1, 3)), d(anyd(1, 3))}, "float", true); break;
      case 1: run<cflt, No>({d(anyd(1, 2)), d(anyd(1, 2))}, "complexfloat"); break;
      default: run<float, F1>({c2<F1>(-1, 0, 1, 1), c2<F1>(0, 1, 1, 1)}, "fermi.float");
   }
#elif PART == 4 // the isometry is a fixed matrix: linear, hence larger matrices
   sy_factor(3);
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: run<double, No>({d(anyd(1, 5)), d(anyd(1, 5))}, "large", false); break;
      case 1: run<double, No>({d(2), d(3), d(2)}, "large3", false, true); break;
      case 2: run<cplx, No>({d(anyd(2, 4)), d(anyd(2, 4))}, "largecomplex", false); break;
      default: run<double, U1>({c2<U1>(-1, 0, 2, 3), c2<U1>(0, 1, 3, 2), c2<U1>(0, 1)}, "largeu1", false, true);
   }
#elif PART == 0
   switch (sy_fork(sy_int("family", 0, 4))) {
      case 0: run<double, No>({d(anyd(0, 3)), d(anyd(0, 3))}, "dense", true); break;
      case 1: run<double, No>({d(2), d(1), d(3)}, "dense3", true, true); break;
      case 2: run<cplx, No>({d(anyd(1, 2)), d(anyd(1, 2))}, "complex"); break;
      case 3: run<double, No>({}, "rank0"); break;
      default: run<double, No>({d(2), d(2), d(1), d(1)}, "dense4", true, true);
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: run<double, U1>({any_segs<U1>("e", 2, 2, 1, 2, lim), any_segs<U1>("e", 2, 2, 1, 1, lim)}, "u1"); break;
      case 1: run<double, U1>({c2<U1>(-1, 0, 1, 2), c2<U1>(0, 1, 2, 1), c2<U1>(0, 1)}, "u1three", true, true); break;
      default: run<cplx, Z2>({c2<Z2>(0, 1, 1, 2), c2<Z2>(0, 1)}, "z2");
   }
#else
   switch (sy_fork(sy_int("family", 0, 1))) {
      case 0: run<double, F1>({c2<F1>(-1, 0, 1, 1), c2<F1>(0, 1, 1, 1), c2<F1>(-1, 1)}, "fermi", true, true); break;
      default: run<double, FZ>({c2<FZ>(FZ(0, 1), FZ(1, 0)), c2<FZ>(FZ(-1, 0), FZ(0, 1), 2, 1)}, "fermiz2");
   }
#endif
}
