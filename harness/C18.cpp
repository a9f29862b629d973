#include "ops.hpp"
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
inline cplx mul(const cplx& a, double b) { return cplx(a.real() * b, a.imag() * b); }
__attribute__((noinline)) double dv(double a, double b) { return a / b; }
__attribute__((noinline)) cplx dv(const cplx& a, double b) { return cplx(a.real() / b, a.imag() / b); }
template<class S, class Y> void run(const std::vector<Segs<Y>>& segs, const char* tag) {
   int n = segs.size(), k = sy_fork(sy_int("edge", 0, n - 1));
   bool v = sy_fork(sy_int("direction", 0, 1)), upper = sy_fork(sy_int("upper", 0, 1)), division = sy_fork(sy_int("division", 0, 1));
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (int i = 0; i < n; i++) { names.push_back(nm(i)); edges.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow"))); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   TAT::Singular<S, Y, Name> s;
   std::map<std::pair<Y, Size>, double> val; // by charge on the edge
   for (auto& [y, dim] : segs[k]) {
      auto& w = s.value[v ? Ch<Y>::neg(y) : y];
      w = TAT::vector<double>(dim);
      for (Size i = 0; i < dim; i++) { double q = sym<double>("s"); if (division) sy_assume(q != 0); w[i] = q; val[{y, i}] = q; }
   }
   auto before = table(t), want = before;
   for (auto& [p, x] : want.data) { double q = val.at(p[k]); x = division ? dv(x, q) : mul(x, q); }
   auto r = t.multiple(s, nm(k), v ? (upper ? 'V' : 'v') : (upper ? 'U' : 'u'), division);
   well_formed(r, "multiple");
   same(table(r), want, "multiple");
   same(table(t), before, "multiple changed its operand");
   if (division) same(table(r.multiple(s, nm(k), v ? 'v' : 'u')), before, "multiplying undoes the division");
   REACH(tag);
}
void other() {
   TAT::Tensor<double, No, Name> t({nm(0), nm(1)}, {2, 3});
   fill(t, "x");
   TAT::Singular<double, No, Name> s;
   Size n = sy_fork(sy_int("size", 0, 4));
   s.value[No()] = TAT::vector<double>(n);
   for (auto& x : s.value[No()]) x = sym<double>("s");
   auto before = table(t);
   int kind = sy_fork(sy_int("kind", 0, 2));
   if (kind == 0) { auto r = t.multiple(s, nm(5), 'u'); same(table(r), before, "multiple along an absent edge"); REACH("absent"); }
   else if (kind == 1) { if (n != 3) { sy_assert(rejects([&] { (void)t.multiple(s, nm(1), 'u'); }), "singular values of a wrong number are rejected"); REACH("wrong size"); } }
   else { if (n == 3) { sy_assert(rejects([&] { (void)t.multiple(s, nm(1), 'x'); }), "an unknown direction is rejected"); REACH("wrong direction"); } }
}
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int hi) { return sy_fork(sy_int("dim", 0, hi)); }
void harness() {
   switch (sy_fork(sy_int("family", 0, 6))) {
      case 0: { int r = sy_fork(sy_int("rank", 1, 3)); std::vector<Segs<No>> s; for (int i = 0; i < r; i++) s.push_back(d(anyd(2))); run<double, No>(s, "dense"); break; }
      case 1: run<cplx, No>({d(2), d(3)}, "complex"); break;
      case 2: run<double, No>({d(2), d(2), d(sy_fork(sy_int("line", 15, 18)))}, "line"); break;
      case 3: run<double, U1>({any_segs<U1>("e", 1, 2, 1, 2, 4), any_segs<U1>("e", 2, 2, 1, 1, 4)}, "u1"); break;
      case 4: run<double, F1>({c2<F1>(-1, 0, 2, 1), c2<F1>(0, 1, 1, 2), c2<F1>(-1, 1)}, "fermi"); break;
      case 5: run<cplx, Z2>({c2<Z2>(0, 1, 2, 1), c2<Z2>(0, 1, 1, 2)}, "z2"); break;
      default: other();
   }
}
