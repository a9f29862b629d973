#include "streams.hpp"
#include "common.hpp"
#ifndef PART
#define PART 0
#endif
// Derive tensors from one another by operations that may share storage, change one in place, and check that nothing else moves.
template<class S, class Y> struct World {
   using T = TAT::Tensor<S, Y, Name>;
   // a tensor holding the same elements as `a`, obtained in way k; the names may change
   static T derive(int k, const T& a) {
      std::vector<Name> own(a.names.begin(), a.names.end());
      switch (k) {
         case 0: return T(a);
         case 1: { T b; b = a; return b; }
         case 2: return a.copy();
         case 3: return a.edge_rename(std::map<Name, Name>{{own[0], nm(5)}});
         case 4: return a.edge_rename(std::map<Name, Name>{});
         case 5: return a.template to<S>();
         case 6: return a.transpose(own);
         case 7: return a.conjugate();
         case 8: { typename T::SingularType s; return a.multiple(s, nm(7), 'u'); }
         case 9: return a.map([](auto x) { return x; });
         case 10: return a + 0.;
         case 11: return a.edge_operator(std::map<Name, Name>{{own[0], nm(6)}}, {}, {}, {}, std::vector<Name>(a.names.size() == 2 ? std::vector<Name>{nm(6), own[1]} : std::vector<Name>{nm(6)}));
         case 12: { T b(a); T c(std::move(b)); return c; }
         default: { std::stringstream f; f < a; T b; f > b; return b; }
      }
   }
   static constexpr int ways = 13;
   static void change(int k, T& t) { // change every element of t in place
      S v = sym<S>("v");
      auto before = table(t);
      auto e = before;
      bool one = false;
      switch (k) {
         case 0: t.set([&] { return v; }); for (auto& [p, x] : e.data) x = v; break;
         case 1: t.zero(); for (auto& [p, x] : e.data) x = S(0); break;
         case 2: t.transform([&](auto x) { return x + v; }); for (auto& [p, x] : e.data) x = x + v; break;
         case 3: t += v; for (auto& [p, x] : e.data) x = x + v; break;
         case 4: t -= v; for (auto& [p, x] : e.data) x = x - v; break;
         case 5: t *= v; for (auto& [p, x] : e.data) x = mul(x, v); break;
         case 6: { T u(t); t += u; for (auto& [p, x] : e.data) x = x + x; break; }
         case 7: { auto keep = t.core->blocks.begin()->first; std::map<Name, Y> w; for (size_t i = 0; i < t.names.size(); i++) w[t.names[i]] = keep[i]; auto& b = t.block(w); for (auto& x : b) x = v; for (auto& [p, x] : e.data) if (charges<Y>(p) == keep) x = v; break; }
         case 8: {
            auto p0 = e.data.begin()->first;
            std::map<Name, typename T::EdgePoint> w;
            for (size_t i = 0; i < t.names.size(); i++) { if constexpr (nosym<Y>) w[t.names[i]] = p0[i].second; else w[t.names[i]] = {p0[i].first, p0[i].second}; }
            t.at(w) = v;
            e.data[p0] = v;
            break;
         }
         case 9: { t = T(v); REACH("reassign"); return; }
         case 10: { std::stringstream f; T u(v); f < u; f > t; return; }
         case 11: { T gone(std::move(t)); t = T(v); return; }
         case 12: { t.load(T(v).dump()); return; }
         case 13: { T u = t.map([](auto x) { return x; }); fill(u, "y"); e.data = table(u).data; std::stringstream f; u.data_put(f); t.data_get(f); break; }
         case 14: { t.test(v, S(1)); S c = v; for (auto& [ys, b] : t.core->blocks) for (size_t i = 0; i < b.size(); i++) { eq(b[i], c, "range"); c += S(1); } return; }
         default: { T u = t.map([](auto) { return S(2); }); t /= u; for (auto& [p, x] : e.data) x = x / 2.; }
      }
      (void)one;
      same(table(t), e, "in-place change");
   }
   static constexpr int changes = 15;
};
template<class S, class Y> void run(TAT::Tensor<S, Y, Name> a, int steps, const char* tag) {
   using W = World<S, Y>;
   using T = TAT::Tensor<S, Y, Name>;
   auto a0 = table(a);
   static const int some[] = {0, 1, 3, 4, 5, 8, 12};
   int k = steps == 2 ? some[sy_fork(sy_int("derive", 0, 6))] : sy_fork(sy_int("derive", 0, W::ways));
   T b = W::derive(k, a);
   same(table(a), a0, "deriving a tensor changed its operand");
   auto b0 = table(b);
   if (steps == 1) {
      int which = sy_fork(sy_int("which", 0, 1)), m = sy_fork(sy_int("change", 0, W::changes));
      if (which) { W::change(m, b); same(table(a), a0, "changing the derived tensor changed its source"); }
      else { W::change(m, a); same(table(b), b0, "changing the source changed the derived tensor"); }
   } else {
      static const int sharing[] = {0, 1, 2, 3, 4, 8, 12};
      int l = steps == 2 ? sharing[sy_fork(sy_int("derive", 0, 6))] : sy_fork(sy_int("derive", 0, W::ways)), from = sy_fork(sy_int("from", 0, 1));
      T c = W::derive(l, from ? b : a);
      auto c0 = table(c);
      same(table(a), a0, "deriving a tensor changed another");
      same(table(b), b0, "deriving a tensor changed another");
      int which = sy_fork(sy_int("which", 0, 2)), m = sy_fork(sy_int("change", 0, W::changes));
      W::change(m, which == 0 ? a : which == 1 ? b : c);
      if (which != 0) same(table(a), a0, "changing one of three tensors changed another");
      if (which != 1) same(table(b), b0, "changing one of three tensors changed another");
      if (which != 2) same(table(c), c0, "changing one of three tensors changed another");
   }
   REACH(tag);
}
void harness() {
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: { TAT::Tensor<double, No, Name> a({nm(0), nm(1)}, {1, 2}); fill(a, "x"); run<double, No>(a.copy(), 1, "dense"); break; }
      case 1: { TAT::Tensor<cplx, Z2, Name> a({nm(0), nm(1)}, std::vector<TAT::Edge<Z2>>{{{Z2(0), 1}, {Z2(1), 1}}, {{Z2(0), 1}, {Z2(1), 1}}}); fill(a, "x"); run<cplx, Z2>(a.copy(), 1, "z2"); break; }
      default: { TAT::Tensor<double, FU, Name> a({nm(0), nm(1)}, std::vector<TAT::Edge<FU>>{{{FU(0, 0), 1}, {FU(1, 1), 1}}, {{FU(0, 0), 1}, {FU(-1, -1), 1}}}); fill(a, "x"); run<double, FU>(a.copy(), 1, "fermi"); }
   }
#else
   TAT::Tensor<double, No, Name> a({nm(0)}, {1});
   fill(a, "x");
   if (sy_fork(sy_int("held", 0, 1))) { // a deep copy is independent even of references taken before
      double& r = a.at({{nm(0), 0}});
      auto a0 = table(a);
      TAT::Tensor<double, No, Name> b = sy_fork(sy_int("way", 0, 1)) ? a.copy() : a.map([](auto x) { return x; });
      r = sy_real("v");
      same(table(b), a0, "writing through a reference to the source changed a copy");
      REACH("held");
      return;
   }
   run<double, No>(std::move(a), sy_tier() ? 3 : 2, "chain");
#endif
}
