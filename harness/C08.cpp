#include "ops.hpp"
#ifndef PART
#define PART 0
#endif
template<class Y> using Parts = std::vector<std::tuple<Name, TAT::BoseEdge<Y>>>;
inline bool in(const std::set<Name>& s, const Name& n) { return s.count(n) != 0; }
// rename, split, reverse, merge and transpose in one call
template<class S, class Y> void run(const TAT::Tensor<S, Y, Name>& t, const std::vector<std::pair<Name, Segs<Y>>>& sp, int flags, const char* tag, int order_step = 1) {
   const Name A = nm(0), B = nm(1), C = nm(2), X = Name("X"), M = Name("M");
   auto a = table(t);
   Parts<Y> parts;
   for (auto& [n, s] : sp) { TAT::BoseEdge<Y> e; if constexpr (nosym<Y>) e = TAT::BoseEdge<Y>(s[0].second); else for (auto& [y, d] : s) e.map[y] = d; parts.push_back({n, e}); }
   bool do_rename = flags & 1 ? true : sy_fork(sy_int("rename", 0, 1)), do_split = sy_fork(sy_int("split", 0, 1)), do_merge = sy_fork(sy_int("merge", 0, 1));
   std::map<Name, Name> ren;
   if (do_rename) { ren[B] = X; ren[Name("absent")] = Name("other"); }
   std::vector<Name> after = a.names;
   for (auto& n : after) if (do_rename && n == B) n = X;
   std::vector<Name> split_names;
   for (auto& n : after) if (do_split && n == A) for (auto& [p, s] : sp) split_names.push_back(p); else split_names.push_back(n);
   int r = split_names.size();
   std::set<Name> rev;
   if (fermi<Y>) { if (sy_fork(sy_int("reversed", 0, 1))) rev.insert(split_names[0]); if (sy_fork(sy_int("reversed", 0, 1))) rev.insert(split_names[r - 1]); }
   // merge: an ordered pair of edges
   std::vector<Name> group, rest = split_names, target;
   if (do_merge) {
      auto k = any_perm(r, "pair");
      for (int i = 2; i + 1 < r; i++) if (k[i] > k[i + 1]) sy_skip();
      group = {split_names[k[0]], split_names[k[1]]};
      rest.clear();
      for (int i = 2; i < r; i++) rest.push_back(split_names[k[i]]);
      rest.push_back(M);
   }
   for (int k : any_perm(rest.size(), "order")) target.push_back(rest[k]);
   bool apply = fermi<Y> ? sy_fork(sy_int("apply", 0, 1)) : false;
   std::array<std::set<Name>, 4> ex;
   if (fermi<Y>) {
      if (sy_fork(sy_int("excluded", 0, 1))) ex[0].insert(A), ex[1].insert(split_names[0]), ex[3].insert(M);
      else if (do_merge) ex[2].insert(group[1]);
   }
   std::map<Name, Parts<Y>> smap;
   if (do_split) smap[A] = parts;
   std::map<Name, std::vector<Name>> mmap;
   if (do_merge) mmap[M] = group;
   auto q = t.edge_operator(ren, smap, rev, mmap, target, apply, ex);
   well_formed(q, "edge_operator");
   // reference
   auto e = ref_rename<S, Y>(a, ren);
   if (do_split) e = ref_split<S, Y>(e, A, sp, apply != in(ex[0], A));
   e = ref_reverse<S, Y>(e, rev, [&](Name n) { return apply != in(ex[1], n); });
   std::vector<Name> before;
   size_t at = 0;
   for (auto& n : target) if (do_merge && n == M) { at = before.size(); before.insert(before.end(), group.begin(), group.end()); } else before.push_back(n);
   e = ref_transpose<S, Y>(e, before);
   if (do_merge) e = ref_merge_adjacent<S, Y>(e, M, group, at, apply != in(ex[3], M), [&](Name n) { return apply != in(ex[2], n); });
   same(table(q), normal(e), "combined edge operation");
   // the same, one library call after another
   auto s = t.edge_rename(ren);
   if (do_split) s = s.split_edge(smap, apply, std::set<Name>(ex[0]));
   if (!rev.empty()) s = s.reverse_edge(rev, apply, std::set<Name>(ex[1]));
   if (do_merge) s = s.merge_edge(mmap, apply, std::set<Name>(ex[3]), std::set<Name>(ex[2]));
   s = s.transpose(target);
   same(table(q), table(s), "combined edge operation against the steps");
   same(table(t), a, "edge_operator changed its operand");
   REACH(tag);
   if (do_rename && do_split && do_merge) REACH("all steps");
}
template<class S, class Y> void rename(const TAT::Tensor<S, Y, Name>& t, const char* tag) { // every partial renaming, including exchanging names
   auto a = table(t);
   std::map<Name, Name> ren;
   std::vector<Name> want = a.names;
   auto p = any_perm(a.names.size(), "to");
   for (size_t i = 0; i < a.names.size(); i++) if (sy_fork(sy_int("renamed", 0, 1))) { ren[a.names[i]] = nm(p[i] + 3); want[i] = nm(p[i] + 3); }
   auto q = t.edge_rename(ren);
   auto e = a;
   e.names = want;
   well_formed(q, "rename");
   same(table(q), e, "rename");
   same(table(t), a, "rename changed its operand");
   if (a.names.size() == 2) {
      auto w = t.edge_rename(std::map<Name, Name>{{a.names[0], a.names[1]}, {a.names[1], a.names[0]}});
      e.names = {a.names[1], a.names[0]};
      well_formed(w, "exchanging names");
      same(table(w), e, "exchanging names");
   }
   auto reject = [&](auto&& f) { try { (void)f(); } catch (const std::exception&) { return true; } return false; };
   if (a.names.size() >= 1) {
      // a target list that is not a reordering is rejected, wherever it differs
      int k = sy_fork(sy_int("wrong", 0, (int)a.names.size() - 1));
      auto l = a.names;
      l[k] = nm(7);
      sy_assert(reject([&] { return t.transpose(l); }), "transposing to an unknown name is rejected");
      l = a.names;
      l.push_back(nm(7));
      sy_assert(reject([&] { return t.transpose(l); }), "transposing to too many names is rejected");
      l = a.names;
      l.pop_back();
      sy_assert(reject([&] { return t.transpose(l); }), "transposing to too few names is rejected");
   }
   REACH(tag);
}
// cut before everything else: segments are shortened to their first positions, or removed
template<class S, class Y> void cut(const TAT::Tensor<S, Y, Name>& t, const char* tag) {
   auto a = table(t);
   std::map<Name, std::map<Y, Size>> cuts;
   auto e = a;
   for (size_t i = 0; i < a.names.size(); i++) {
      Segs<Y> s;
      for (auto& [y, d] : a.segs[i]) {
         int k = sy_fork(sy_int("cut", -1, 2));
         if (k < 0) s.push_back({y, d});
         else { cuts[a.names[i]][y] = k; if (k) s.push_back({y, std::min<Size>(d, k)}); }
      }
      e.segs[i] = s;
   }
   e.data.clear();
   for (auto& [p, v] : a.data) {
      bool keep = true;
      for (size_t i = 0; i < p.size(); i++) keep = keep && p[i].second < dim_of<Y>(e.segs[i], p[i].first);
      if (keep) e.data[p] = v;
   }
   std::vector<Name> target;
   for (int k : any_perm(a.names.size(), "order")) target.push_back(a.names[k]);
   int merged = sy_fork(sy_int("merged", 0, 1));
   std::map<Name, std::vector<Name>> mm;
   auto before = target;
   if (merged) { mm[nm(7)] = {target[0], target[1]}; target.erase(target.begin(), target.begin() + 2); target.insert(target.begin(), nm(7)); }
   auto q = t.edge_operator(std::map<Name, Name>{}, std::map<Name, Parts<Y>>{}, std::set<Name>{}, mm, target, false, std::array<std::set<Name>, 4>{}, cuts);
   well_formed(q, "cut");
   e = ref_transpose<S, Y>(e, before);
   if (merged) e = ref_merge_adjacent<S, Y>(e, nm(7), {before[0], before[1]}, 0, false, [](Name) { return false; });
   same(table(q), normal(e), "cut");
   REACH(tag);
}
void harness() {
   int more = sy_tier();
   const Name A = nm(0), B = nm(1), C = nm(2), P = Name("P"), Q = Name("Q");
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: {
         Size p = sy_fork(sy_int("p", 1, 2)), q = sy_fork(sy_int("q", 1, 2)), b = sy_fork(sy_int("b", 1, 2 + more));
         TAT::Tensor<double, No, Name> t({B, A, C}, {b, p * q, 2});
         fill(t, "x");
         run<double, No>(t, {{P, {{No(), p}}}, {Q, {{No(), q}}}}, 0, "dense");
         break;
      }
      case 1: {
         TAT::Tensor<double, Z2, Name> t({A, B, C}, std::vector<TAT::Edge<Z2>>{{{Z2(0), 3}, {Z2(1), 3}}, {{Z2(0), 1}, {Z2(1), 1}}, {{Z2(0), 1}, {Z2(1), 1}}});
         fill(t, "x");
         run<double, Z2>(t, {{P, {{Z2(0), 1}, {Z2(1), 1}}}, {Q, {{Z2(0), 1}, {Z2(1), 2}}}}, 0, "z2");
         break;
      }
      default: {
         int r = sy_fork(sy_int("rank", 0, 3));
         std::vector<Name> n;
         for (int i = 0; i < r; i++) n.push_back(nm(i));
         if (sy_fork(sy_int("symmetric", 0, 1))) { auto t = any_tensor<double, Z2>("e", n, 2, 2, 1, 1, 0); rename(t, "rename"); }
         else { auto t = any_tensor<double, No>("e", n, 1, 1, 1, 2, 0); rename(t, "rename"); }
      }
   }
#elif PART == 1
   {
      bool a = any_arrow<F1>("arrow", true), b = any_arrow<F1>("arrow", true), c = any_arrow<F1>("arrow", true);
      if (!more && c) sy_skip();
      TAT::Tensor<double, F1, Name> t({B, A}, std::vector<TAT::Edge<F1>>{edge<F1>({{F1(-2), 1}, {F1(-1), 1}, {F1(0), 1}}, b), edge<F1>({{F1(0), 1}, {F1(1), 2}, {F1(2), 1}}, a)});
      fill(t, "x");
      run<double, F1>(t, {{P, {{F1(0), 1}, {F1(1), 1}}}, {Q, {{F1(0), 1}, {F1(1), 1}}}}, 1, "fermi");
   }
#elif PART == 2
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 3: { // one edge cut, another split
         bool a = any_arrow<F1>("arrow", true);
         auto p = any_perm(2, "order");
         std::vector<Name> n{A, B}, names;
         std::vector<TAT::Edge<F1>> l{edge<F1>({{F1(0), 1}, {F1(1), 2}, {F1(2), 1}}, a), edge<F1>({{F1(-2), 2}, {F1(-1), 3}, {F1(0), 1}}, !a)}, edges;
         for (int k : p) names.push_back(n[k]), edges.push_back(l[k]);
         TAT::Tensor<double, F1, Name> t(names, edges);
         fill(t, "x");
         auto e = table(t);
         std::map<Name, std::map<F1, Size>> cuts;
         for (auto& [y, d] : e.segs[e.index(B)]) { int k = sy_fork(sy_int("cut", 0, 3)); if (k < 3) { cuts[B][y] = k; d = std::min<Size>(d, k); } }
         Segs<F1> keep;
         for (auto& [y, d] : e.segs[e.index(B)]) if (d) keep.push_back({y, d});
         e.segs[e.index(B)] = keep;
         for (auto it = e.data.begin(); it != e.data.end();) if (it->first[e.index(B)].second < dim_of<F1>(keep, it->first[e.index(B)].first)) ++it; else it = e.data.erase(it);
         std::vector<std::pair<Name, Segs<F1>>> sp{{P, {{F1(0), 1}, {F1(1), 1}}}, {Q, {{F1(0), 1}, {F1(1), 1}}}};
         Parts<F1> parts;
         for (auto& [m, s] : sp) { TAT::BoseEdge<F1> g; for (auto& [y, d] : s) g.map[y] = d; parts.push_back({m, g}); }
         std::vector<Name> target;
         for (int k : any_perm(3, "target")) target.push_back(std::vector<Name>{P, Q, B}[k]);
         auto q = t.edge_operator(std::map<Name, Name>{}, std::map<Name, Parts<F1>>{{A, parts}}, std::set<Name>{}, std::map<Name, std::vector<Name>>{}, target, false, std::array<std::set<Name>, 4>{}, cuts);
         well_formed(q, "cut and split");
         same(table(q), normal(ref_transpose<double, F1>(ref_split<double, F1>(e, A, sp, false), target)), "cut and split");
         REACH("cut.split");
         break;
      }
      case 2: { // some combinations of the parts have no counterpart in the edge that is split
         TAT::Tensor<double, U1, Name> t({B, A, C}, std::vector<TAT::Edge<U1>>{{{U1(-2), 1}, {U1(0), 1}}, {{U1(0), 1}, {U1(1), 2}}, {{U1(0), 1}, {U1(1), 1}}});
         fill(t, "x");
         run<double, U1>(t, {{P, {{U1(0), 1}, {U1(1), 1}}}, {Q, {{U1(0), 1}, {U1(1), 1}}}}, 0, "partial");
         break;
      }
      case 0: { TAT::Tensor<double, U1, Name> t({A, B}, std::vector<TAT::Edge<U1>>{{{U1(0), 2}, {U1(1), 2}}, {{U1(-1), 3}, {U1(0), 2}}}); fill(t, "x"); cut(t, "cut.u1"); break; }
      default: { bool a = any_arrow<FU>("arrow", true), b = any_arrow<FU>("arrow", true);
         TAT::Tensor<double, FU, Name> t({A, B}, std::vector<TAT::Edge<FU>>{edge<FU>({{FU(0, 0), 2}, {FU(1, 1), 2}}, a), edge<FU>({{FU(-1, -1), 2}, {FU(0, 0), 2}}, b)}); fill(t, "x"); cut(t, "cut.fermi"); }
   }
#endif
}
