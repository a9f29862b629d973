#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
template<class S, class Y> void run(const std::vector<Segs<Y>>& paired, const char* tag, bool perms = true) {
   std::vector<Name> all;
   std::vector<Segs<Y>> segs;
   std::vector<bool> arrows;
   std::vector<std::pair<Name, Name>> pairs;
   Pairs given;
   static const char* c1[] = {"a", "b", "c"};
   static const char* c2[] = {"q", "p", "r"};
   for (size_t i = 0; i < paired.size(); i++) {
      bool w = any_arrow<Y>("arrow");
      all.push_back(Name(c1[i])); segs.push_back(paired[i]); arrows.push_back(w);
      all.push_back(Name(c2[i])); segs.push_back(conj_segs<Y>(paired[i])); arrows.push_back(!w);
      pairs.push_back({Name(c1[i]), Name(c2[i])});
      if (sy_fork(sy_int("swapped", 0, 1))) given.insert({Name(c2[i]), Name(c1[i])}); else given.insert({Name(c1[i]), Name(c2[i])});
   }
   std::vector<int> order;
   if (perms) order = any_perm(all.size(), "order"); else for (size_t i = 0; i < all.size(); i++) order.push_back((i * 2) % all.size() + (i * 2 >= all.size()));
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (int i : order) { names.push_back(all[i]); edges.push_back(edge<Y>(segs[i], arrows[i])); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   auto before = table(t);
   auto r = t.identity(given);
   well_formed(r, "identity");
   auto want = before;
   for (auto& [p, v] : want.data) {
      bool meet = true;
      for (auto& [x, y] : pairs) { auto &u = p[want.index(x)], &w = p[want.index(y)]; meet = meet && u.second == w.second && eqc<Y>(u.first, Ch<Y>::neg(w.first)); }
      v = S(meet ? 1 : 0);
   }
   same(table(r), want, "identity");
   same(table(t), before, "identity changed the tensor whose shape it takes");
   REACH(tag);
}
// contraction with the identity
template<class S, class Y> void neutral(const std::vector<Segs<Y>>& paired, const Segs<Y>& fr, const char* tag) {
   std::vector<Name> an{Name("A")}, in;
   std::vector<TAT::Edge<Y>> ae, ie;
   static const char* x[] = {"x", "y"};
   static const char* i1[] = {"a", "b"};
   static const char* i2[] = {"q", "p"};
   Pairs ip, cp;
   std::map<Name, Name> back;
   ae.push_back(edge<Y>(fr, any_arrow<Y>("arrow")));
   for (size_t i = 0; i < paired.size(); i++) {
      // for fermionic edges the identity is stored input edge first, and the contracted edge of the tensor points out
      an.push_back(Name(x[i])); ae.push_back(edge<Y>(paired[i], fermi<Y>));
      in.push_back(Name(i1[i])); ie.push_back(edge<Y>(conj_segs<Y>(paired[i]), false));
      in.push_back(Name(i2[i])); ie.push_back(edge<Y>(paired[i], fermi<Y>));
      ip.insert({Name(i1[i]), Name(i2[i])});
      cp.insert({Name(x[i]), Name(i1[i])});
      back[Name(i2[i])] = Name(x[i]);
   }
   if (!fermi<Y> && sy_fork(sy_int("stored", 0, 1))) { std::reverse(in.begin(), in.end()); std::reverse(ie.begin(), ie.end()); }
   if (sy_fork(sy_int("order", 0, 1))) { std::rotate(an.begin(), an.begin() + 1, an.end()); std::rotate(ae.begin(), ae.begin() + 1, ae.end()); }
   TAT::Tensor<S, Y, Name> t(an, ae);
   fill(t, "x");
   auto id = TAT::Tensor<S, Y, Name>(in, ie).identity(ip);
   auto r = t.contract(id, cp).edge_rename(back).transpose(an);
   // the identity covers every segment of its edges; segments the tensor does not have stay absent
   same(table(r), table(t), "contraction with the identity");
   REACH(tag);
}
template<class Y> Segs<Y> s2(int lim) { return any_segs<Y>("e", 1, 2, 1, 2, lim); }
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int hi) { return sy_fork(sy_int("dim", 0, hi)); }
void harness() {
   int lim = sy_tier() ? 9 : 3;
   switch (sy_fork(sy_int("family", 0, 11))) {
      case 0: run<double, No>({d(anyd(3)), d(anyd(2))}, "dense"); break;
      case 1: run<double, No>({}, "rank0"); run<double, U1>({}, "rank0"); break;
      case 2: run<cplx, No>({d(anyd(3))}, "complex"); break;
      case 3: run<double, No>({d(2), d(1), d(3)}, "dense6", false); break;
      case 4: run<double, U1>({s2<U1>(lim)}, "u1"); break;
      case 5: run<double, U1>({c2<U1>(0, 1, 1, 2), c2<U1>(0, 1, 2, 1)}, "u1two"); break;
      case 6: run<double, Z2>({c2<Z2>(0, 1, 2, 1), c2<Z2>(0, 1, 0, 1)}, "z2two"); break;
      case 7: run<double, F1>({s2<F1>(lim)}, "fermi"); break;
      case 8: run<double, FZ>({c2<FZ>(FZ(0, 1), FZ(1, 0)), c2<FZ>(FZ(0, 1), FZ(1, 0))}, "fermiz2"); break;
      case 9: neutral<double, No>({d(2), d(anyd(3))}, d(2), "neutral.dense"); break;
      case 10: neutral<double, U1>({c2<U1>(-1, 2, 2, 1)}, c2<U1>(-2, 1, 1, 2), "neutral.u1"); break;
      default: neutral<double, F1>({c2<F1>(-1, 2, 2, 1)}, c2<F1>(-2, 1, 1, 2), "neutral.fermi");
   }
}
