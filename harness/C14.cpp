#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int hi) { return sy_fork(sy_int("dim", 0, hi)); }
inline double ab(double x) { return x < 0 ? -x : x; }
inline double sq(double x) { return x * x; }
inline double sq(const cplx& x) { return x.real() * x.real() + x.imag() * x.imag(); }
template<class S, class Y> TAT::Tensor<S, Y, Name> make(const std::vector<Segs<Y>>& segs, bool split = false) {
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (size_t i = 0; i < segs.size(); i++) { names.push_back(nm(i)); edges.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow", split))); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   return t;
}
template<class S, class Y> void norms(const std::vector<Segs<Y>>& segs, const char* tag) {
   auto t = make<S, Y>(segs);
   auto tab = table(t);
   switch (sy_fork(sy_int("p", -1, 3))) {
      case -1: {
         double m = t.template norm<-1>();
         bool hit = tab.data.empty();
         bool all = m >= 0;
         for (auto& [p, v] : tab.data) { if constexpr (std::is_same_v<S, double>) { all = all & (ab(v) <= m); hit = hit | (ab(v) == m); } else { all = all & (sq(v) <= m * m); hit = hit | (sq(v) == m * m); } }
         sy_assert(all, "max norm is smaller than an element");
         if (!sy_replaying()) sy_assert(hit, "max norm is not attained");
         if (tab.data.empty()) eq(m, 0, "max norm of nothing");
         break;
      }
      case 0: eq(t.template norm<0>(), double(tab.data.size()), "0 norm"); break;
      case 1: {
         double s = 0;
         for (auto& [p, v] : tab.data) { if constexpr (std::is_same_v<S, double>) s += ab(v); else s += std::abs(v); }
         eq(t.template norm<1>(), s, "1 norm");
         break;
      }
      case 2: {
         double s = 0, r = t.template norm<2>();
         for (auto& [p, v] : tab.data) s += sq(v);
         eq(r * r, s, "2 norm");
         sy_assert(r >= 0, "2 norm is negative");
         break;
      }
      default: {
         double s = 0, r = t.template norm<4>();
         for (auto& [p, v] : tab.data) s += sq(v) * sq(v);
         eq(r, std::pow(s, 1. / 4), "4 norm");
      }
   }
   REACH(tag);
}
template<class S, class Y> void maps(const std::vector<Segs<Y>>& segs, const char* tag) {
   auto t = make<S, Y>(segs);
   auto before = table(t), want = before;
   double a = sy_real("a");
   for (auto& [p, v] : want.data) v = mul(v, v) + S(a);
   auto f = [&](const S& x) { return mul(x, x) + S(a); };
   switch (sy_fork(sy_int("kind", 0, 3))) {
      case 0: { auto r = t.map(f); well_formed(r, "map"); same(table(r), want, "map"); same(table(t), before, "map changed its operand"); break; }
      case 1: { auto c = t; t.transform(f); same(table(t), want, "transform"); same(table(c), before, "transform changed a copy"); break; }
      case 2: { // generator called once per element
         int n = 0;
         std::vector<double> seen;
         t.set([&] { n++; seen.push_back(sy_real("g")); return S(seen.back()); });
         auto r = table(t);
         sy_assert(n == (int)r.data.size(), "set calls the generator once per element");
         std::vector<char> used(seen.size(), 0);
         double total = 0, want = 0;
         for (auto& [p, v] : r.data) total += std::real(v);
         for (double x : seen) want += x;
         eq(total, want, "set stores what the generator returned");
         break;
      }
      default: {
         t.zero();
         for (auto& [p, v] : table(t).data) eq(v, S(0), "zero");
         auto u = make<S, Y>(segs);
         S first = sym<S>("first"), step = sym<S>("step");
         u.test(first, step);
         S sum = S(0), want = S(0), k = first;
         auto r = table(u);
         for (auto& [p, v] : r.data) sum = sum + v;
         for (size_t i = 0; i < r.data.size(); i++) { want = want + k; k = k + step; }
         eq(sum, want, "test fills an arithmetic sequence");
      }
   }
   REACH(tag);
}
template<class Y> void convert(const std::vector<Segs<Y>>& segs, const char* tag) {
   if (sy_fork(sy_int("narrow", 0, 1))) {
      auto t = make<cplx, Y>(segs);
      auto a = table(t);
      auto r = t.template to<double>();
      well_formed(r, "to real");
      auto b = table(r);
      sy_assert(a.names == b.names && a.arrows == b.arrows && a.data.size() == b.data.size(), "to real: shape");
      for (auto& [p, v] : a.data) { sy_assert(b.data.count(p), "to real: element missing"); eq(b.get(p), v.real(), "to real: element differs"); }
      same(table(t), a, "to changed its operand");
   } else {
      auto t = make<double, Y>(segs);
      auto a = table(t);
      auto r = t.template to<cplx>();
      well_formed(r, "to complex");
      auto b = table(r);
      sy_assert(a.names == b.names && a.arrows == b.arrows && a.data.size() == b.data.size(), "to complex: shape");
      for (auto& [p, v] : a.data) { sy_assert(b.data.count(p), "to complex: element missing"); eq(b.get(p), cplx(v, 0), "to complex: element differs"); }
      auto back = r.template to<double>();
      same(table(back), a, "to complex and back");
      same(table(t.template to<double>()), a, "to the same type");
   }
   REACH(tag);
}
template<class S, class Y> void conj(const std::vector<Segs<Y>>& segs, const char* tag, bool contract) {
   auto t = make<S, Y>(segs);
   auto a = table(t);
   auto c = t.conjugate();
   well_formed(c, "conjugate");
   Tab<S, Y> want;
   want.names = a.names;
   for (auto& s : a.segs) want.segs.push_back(conj_segs<Y>(s));
   for (auto w : a.arrows) want.arrows.push_back(fermi<Y> ? !w : w);
   for (auto& [p, v] : a.data) {
      Pos<Y> q;
      std::vector<int> rev;
      for (auto& [y, i] : p) q.push_back({Ch<Y>::neg(y), i});
      for (int i = p.size(); i-- > 0;) rev.push_back(i);
      want.data[q] = signed_<S>(fermi<Y> && perm_sign<Y>(charges<Y>(p), rev) < 0, cj(v));
   }
   same(table(c), want, "conjugate");
   same(table(t), a, "conjugate changed its operand");
   same(table(c.conjugate()), a, "conjugating twice");
   if (contract) {
      Pairs all;
      for (auto& n : a.names) all.insert({n, n});
      auto r = t.contract(c, all);
      S s = S(0);
      for (auto& [p, v] : a.data) s = s + S(sq(v));
      auto tr = table(r);
      sy_assert(tr.names.empty() && tr.data.size() == 1, "contraction with the conjugate is a number");
      // with fermionic edges every odd edge whose arrow on the first tensor is unset gives a sign, see contract
      if (!fermi<Y>) eq(tr.data.begin()->second, s, "contraction with the conjugate");
      else {
         S f = S(0);
         for (auto& [p, v] : a.data) { int par = 0; for (size_t i = 0; i < p.size(); i++) if (!a.arrows[i]) par ^= odd(p[i].first); f = f + signed_<S>(par, S(sq(v))); }
         eq(tr.data.begin()->second, f, "contraction with the conjugate");
         bool out = true;
         for (auto w : a.arrows) out = out && w;
         if (out) { eq(tr.data.begin()->second, s, "contraction with the conjugate, all arrows set"); REACH("norm2.fermi"); }
      }
      REACH("norm2");
   }
   REACH(tag);
}
template<class Y> void singular(const Segs<Y>& s, const char* tag) {
   typename TAT::Tensor<double, Y, Name>::SingularType v;
   std::vector<double> all;
   for (auto& [y, n] : s) { auto& x = v.value[y]; x.resize(n); for (auto& e : x) { e = sy_real("s"); all.push_back(e); } }
   if (sy_fork(sy_int("p", 0, 1))) {
      double w = 0;
      for (double e : all) w += ab(e);
      eq(v.template norm<1>(), w, "1 norm of singular values");
   } else {
      double m = v.template norm<-1>();
      bool hit = all.empty(), fit = m >= 0;
      for (double e : all) { fit = fit & (ab(e) <= m); hit = hit | (ab(e) == m); }
      sy_assert(fit, "max norm of singular values is smaller than one of them");
      if (!sy_replaying()) sy_assert(hit, "max norm of singular values is not attained");
   }
   REACH(tag);
}
void harness() {
   int lim = sy_tier() ? 9 : 4;
   switch (sy_fork(sy_int("family", 0, 18))) {
      case 0: norms<double, No>({d(anyd(2)), d(anyd(2))}, "norm.dense"); break;
      case 1: norms<cplx, No>({d(2)}, "norm.complex"); break;
      case 2: norms<double, U1>({c2<U1>(-1, 0), c2<U1>(0, 1)}, "norm.u1"); break;
      case 3: norms<double, F1>({c2<F1>(-1, 0), c2<F1>(0, 1, 2, 1)}, "norm.fermi"); break;
      case 15: singular<No>(d(anyd(3)), "norm.singular"); break;
      case 16: singular<U1>(c2<U1>(0, 1, 1, 2), "norm.singular"); break;
      case 17: { cplx z = sym<cplx>("z"); sy_assume(z.real() >= -4 && z.real() <= 4 && z.imag() >= -4 && z.imag() <= 4);
         TAT::Tensor<cplx, No, Name> t(z);
         eq(t.norm<4>(), std::pow(sq(z) * sq(z), 1. / 4), "4 norm of a number");
         REACH("norm.number"); break; }
      case 4: maps<double, No>({d(anyd(2)), d(anyd(2))}, "map.dense"); break;
      case 5: maps<double, U1>({c2<U1>(-1, 0), c2<U1>(0, 1, 1, 2)}, "map.u1"); break;
      case 6: maps<cplx, FZ>({c2<FZ>(FZ(-1, 1), FZ(0, 0)), c2<FZ>(FZ(0, 0), FZ(1, 1))}, "map.fermi"); break;
      case 7: convert<No>({d(anyd(2)), d(2)}, "to.dense"); break;
      case 8: convert<F1>({any_segs<F1>("e", 1, 2, 1, 2, lim), any_segs<F1>("e", 1, 2, 1, 1, lim)}, "to.fermi"); break;
      case 9: conj<cplx, No>({d(anyd(2)), d(anyd(2))}, "conj.dense", true); break;
      case 10: conj<double, U1>({any_segs<U1>("e", 1, 2, 1, 2, lim), any_segs<U1>("e", 1, 2, 1, 1, lim)}, "conj.u1", false); break;
      case 11: conj<cplx, Z2>({c2<Z2>(0, 1, 1, 2), c2<Z2>(0, 1, 2, 1), c2<Z2>(0, 1)}, "conj.z2", true); break;
      case 12: conj<double, F1>({any_segs<F1>("e", 2, 2, 1, 1, 3), c2<F1>(-1, 1), c2<F1>(0, 1)}, "conj.fermi", false); break;
      case 13: conj<cplx, FU>({c2<FU>(FU(0, 1), FU(1, 0)), c2<FU>(FU(-1, 0), FU(0, -1), 2, 1)}, "conj.fermiu1", false); break;
      // one block, because of the known finding of C09
      case 14: conj<double, U1>({any_segs<U1>("e", 1, 1, 2, 2, lim), any_segs<U1>("e", 1, 1, 1, 2, lim), any_segs<U1>("e", 1, 1, 1, 1, lim)}, "conj.u1block", true); break;
      default: conj<double, F1>({any_segs<F1>("e", 1, 1, 1, 2, lim), any_segs<F1>("e", 1, 1, 1, 1, lim), any_segs<F1>("e", 1, 1, 1, 1, lim), Segs<F1>{{F1(sy_tier() ? 0 : 1), 1}}}, "conj.fermiblock", true);
   }
}
