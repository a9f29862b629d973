#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// sum over the paired edges at opposite charge and equal index; fermionic sign: bring the two edges of every pair next to each other, the one with set arrow first
template<class S, class Y> Tab<S, Y> ref_trace(const Tab<S, Y>& t, const std::vector<std::pair<Name, Name>>& pairs) {
   Tab<S, Y> r;
   std::vector<int> fst, snd, fr;
   for (auto& [x, y] : pairs) { int i = t.index(x), j = t.index(y); if (fermi<Y> && !t.arrows[i]) std::swap(i, j); fst.push_back(i); snd.push_back(j); }
   for (int i = 0; i < (int)t.names.size(); i++) if (std::find(fst.begin(), fst.end(), i) == fst.end() && std::find(snd.begin(), snd.end(), i) == snd.end()) { fr.push_back(i); r.names.push_back(t.names[i]); r.segs.push_back(t.segs[i]); r.arrows.push_back(t.arrows[i]); }
   std::vector<int> order;
   for (size_t i = 0; i < fst.size(); i++) { order.push_back(fst[i]); order.push_back(snd[i]); }
   order.insert(order.end(), fr.begin(), fr.end());
   for (auto& [p, v] : t.data) {
      bool meet = true;
      for (size_t i = 0; i < fst.size(); i++) meet = meet && p[fst[i]].second == p[snd[i]].second && eqc<Y>(p[fst[i]].first, Ch<Y>::neg(p[snd[i]].first));
      if (!meet) continue;
      Pos<Y> o;
      for (int i : fr) o.push_back(p[i]);
      S x = signed_<S>(fermi<Y> && perm_sign<Y>(charges<Y>(p), order) < 0, v);
      auto it = r.data.find(o);
      if (it == r.data.end()) r.data[o] = x; else it->second = it->second + x;
   }
   return normal(r);
}
template<class S, class Y> void run(const std::vector<Segs<Y>>& paired, const std::vector<Segs<Y>>& fr, const char* tag, bool perms = true, const std::vector<Segs<Y>>& other = {}) {
   std::vector<Name> all;
   std::vector<Segs<Y>> segs;
   std::vector<bool> arrows;
   std::vector<std::pair<Name, Name>> pairs;
   static const char* c1[] = {"a", "b", "c"};
   static const char* c2[] = {"q", "p", "r"};
   Pairs given;
   for (size_t i = 0; i < paired.size(); i++) {
      bool w = any_arrow<Y>("arrow", true);
      all.push_back(Name(c1[i])); segs.push_back(paired[i]); arrows.push_back(w);
      all.push_back(Name(c2[i])); segs.push_back(other.empty() ? conj_segs<Y>(paired[i]) : other[i]); arrows.push_back(!w);
      pairs.push_back({Name(c1[i]), Name(c2[i])});
      if (sy_fork(sy_int("swapped", 0, 1))) given.insert({Name(c2[i]), Name(c1[i])}); else given.insert({Name(c1[i]), Name(c2[i])});
   }
   for (size_t i = 0; i < fr.size(); i++) { all.push_back(nm(i)); segs.push_back(fr[i]); arrows.push_back(any_arrow<Y>("arrow")); }
   std::vector<int> order;
   if (perms) order = any_perm(all.size(), "order");
   else { int s = sy_fork(sy_int("order", 0, 2)); int n = all.size(); for (int i = 0; i < n; i++) order.push_back(s == 0 ? i : s == 1 ? n - 1 - i : (i * 2) % n + (n % 2 == 0 && i * 2 >= n)); }
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (int i : order) { names.push_back(all[i]); edges.push_back(edge<Y>(segs[i], arrows[i])); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   auto before = table(t);
   auto r = t.trace(given);
   well_formed(r, "trace");
   same(table(r), ref_trace<S, Y>(before, pairs), "trace");
   same(table(t), before, "trace changed its operand");
   if constexpr (!fermi<Y>) if (other.empty() && paired.size() == 1 && sy_fork(sy_int("identity", 0, 1))) { // the same through the identity tensor, one side at a time
      auto idn = TAT::Tensor<S, Y, Name>({Name("i"), Name("j")}, {edge<Y>(conj_segs<Y>(paired[0])), edge<Y>(paired[0])}).identity(Pairs{{Name("i"), Name("j")}});
      auto c = t.contract(idn, Pairs{{Name("a"), Name("i")}}).trace(Pairs{{Name("j"), Name("q")}});
      same(table(c), table(r), "trace through the identity");
      if constexpr (nosym<Y> || std::is_same_v<Y, Z2>) {
         auto d = t.contract(idn, Pairs{{Name("a"), Name("i")}, {Name("q"), Name("j")}});
         same(table(d), table(r), "contraction with the identity");
         REACH("identity");
      }
   }
   REACH(tag);
}
template<class Y> Segs<Y> s2(int lim) { return any_segs<Y>("e", 2, 2, 1, 1, lim); }
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int hi) { return sy_fork(sy_int("dim", 0, hi)); }
void harness() {
   int lim = sy_tier() ? 9 : 3;
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 5))) {
      case 0: run<double, No>({d(anyd(3))}, {}, "dense0"); break;
      case 1: run<double, No>({d(anyd(2))}, {d(anyd(3))}, "dense1"); break;
      case 2: run<double, No>({d(2), d(anyd(3))}, {}, "dense2"); break;
      case 3: run<cplx, No>({d(2)}, {d(3), d(2)}, "complex"); break;
      case 4: run<double, No>({d(2), d(3)}, {d(2)}, "dense5", sy_tier()); break;
      default: {
         Size x = anyd(3), y = anyd(3);
         if (x == y) sy_skip();
         TAT::Tensor<double, No, Name> t({nm(0), nm(1), nm(2)}, {x, 2, y});
         fill(t, "x");
         sy_assert(rejects([&] { (void)t.trace(Pairs{{nm(0), nm(2)}}); }), "traced edges of different dimension are rejected");
         REACH("mismatch");
      }
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: run<double, U1>({s2<U1>(lim)}, {c2<U1>(0, 1, 2, 1)}, "u1"); break;
      case 1: run<double, U1>({c2<U1>(0, 1, 1, 2), c2<U1>(0, 1, 2, 1)}, {}, "u1two", true); break;
      case 2: run<double, Z2>({c2<Z2>(0, 1, 1, 2)}, {c2<Z2>(0, 1, 2, 1)}, "z2"); break;
      default: run<double, U1>({s2<U1>(2)}, {c2<U1>(0, 1)}, "unmatched", false, {s2<U1>(2)});
   }
#else
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: run<double, F1>({s2<F1>(lim)}, {c2<F1>(-1, 0), c2<F1>(0, 1)}, "fermi", sy_tier()); break;
      case 1: run<double, F1>({c2<F1>(0, 1), c2<F1>(0, 1)}, {}, "fermi.two"); break;
      case 2: run<double, F1>({c2<F1>(0, 1), c2<F1>(-1, 1)}, {c2<F1>(0, 1), c2<F1>(-1, 0)}, "fermi.six", false); break;
      default: run<double, FZ>({c2<FZ>(FZ(0, 1), FZ(1, 0))}, {c2<FZ>(FZ(-1, 1), FZ(0, 0))}, "fermiz2");
   }
#endif
}
