#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
inline std::set<Name> any_set(const std::vector<Name>& names, const char* n) {
   std::set<Name> r;
   for (auto& x : names) if (sy_fork(sy_int(n, 0, 1))) r.insert(x);
   return r;
}
template<class S, class Y> void reverse(TAT::Tensor<S, Y, Name>& t, const char* tag) {
   auto a = table(t);
   auto names = a.names;
   auto rev = any_set(names, "reversed"), ex = any_set(names, "excluded");
   bool apply = sy_fork(sy_int("apply", 0, 1));
   auto extra = rev;
   extra.insert(nm(6)); // not an edge: ignored
   auto q = t.reverse_edge(extra, apply, std::set<Name>(ex));
   well_formed(q, "reverse");
   same(table(q), ref_reverse<S, Y>(a, rev, [&](Name n) { return apply != bool(ex.count(n)); }), "reverse");
   same(table(t), a, "reverse changed its operand");
   REACH(tag);
}
template<class S, class Y> void merge(TAT::Tensor<S, Y, Name>& t, const char* tag, bool few = false) {
   auto a = table(t);
   int r = a.names.size();
   auto order = any_perm(r, "group");
   int n = sy_fork(sy_int("members", 0, r));
   for (int i = n; i + 1 < r; i++) if (order[i] > order[i + 1]) sy_skip();
   std::vector<Name> group;
   for (int i = 0; i < n; i++) group.push_back(a.names[order[i]]);
   Name m = nm(7);
   auto ex = few ? std::set<Name>(group.begin(), group.begin() + (n > 1)) : any_set(group, "excluded");
   bool exm = sy_fork(sy_int("exclude.merge", 0, 1)), apply = sy_fork(sy_int("apply", 0, 1));
   auto q = t.merge_edge(std::map<Name, std::vector<Name>>{{m, group}}, apply, exm ? std::set<Name>{m} : std::set<Name>{}, std::set<Name>(ex));
   well_formed(q, "merge");
   auto e = normal(ref_merge<S, Y>(a, m, group, apply != exm, [&](Name x) { return apply != bool(ex.count(x)); }));
   same(table(q), e, "merge with signs");
   // splitting again with the same sign decision undoes the merge up to the arrows the merge had to align
   std::vector<std::tuple<Name, TAT::BoseEdge<Y>>> parts;
   std::vector<std::pair<Name, Segs<Y>>> sp;
   for (auto& g : group) { parts.push_back({g, TAT::BoseEdge<Y>{t.core->edges[a.index(g)].map}}); sp.push_back({g, a.segs[a.index(g)]}); }
   bool exs = few ? exm : sy_fork(sy_int("exclude.split", 0, 1));
   auto b = q.split_edge(std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Y>>>>{{m, parts}}, apply, exs ? std::set<Name>{m} : std::set<Name>{});
   well_formed(b, "split");
   same(table(b), normal(ref_split<S, Y>(e, m, sp, apply != exs)), "split with signs");
   if (exs == exm) {
      std::vector<Name> back;
      for (auto& x : e.names) if (x == m) back.insert(back.end(), group.begin(), group.end()); else back.push_back(x);
      auto want = ref_transpose<S, Y>(a, back);
      bool aligned = true;
      for (auto& g : group) if (valid_arrow<Y>(a.segs[a.index(g)]) && bool(a.arrows[a.index(g)]) != bool(e.arrows[e.index(m)])) aligned = false;
      if (aligned) {
         for (size_t i = 0; i < want.names.size(); i++) if (std::find(group.begin(), group.end(), want.names[i]) != group.end()) want.arrows[i] = e.arrows[e.index(m)];
         same(table(b), want, "splitting what was merged");
         REACH("roundtrip");
      } else REACH("aligned");
   }
   REACH(tag);
}
// doing an operation with sign on one operand and without on the other leaves a contraction unchanged
template<class Y> void both(bool merged) {
   bool arrow = sy_fork(sy_int("arrow", 0, 1)), arrow2 = sy_fork(sy_int("arrow2", 0, 1));
   // two common edges, every pair of charges with its own total
   Segs<Y> c{{qn<Y>(0), 1}, {qn<Y>(1, 1), 1}}, d{{qn<Y>(0), 1}, {qn<Y>(3, 1), 1}}, x{{qn<Y>(-4, -2), 1}, {qn<Y>(-3, -1), 1}, {qn<Y>(-1, -1), 1}, {qn<Y>(0), 1}}, y{{qn<Y>(0), 1}, {qn<Y>(1, 1), 1}, {qn<Y>(3, 1), 1}, {qn<Y>(4, 2), 1}};
   using E = TAT::Edge<Y>;
   using T = TAT::Tensor<double, Y, Name>;
   auto p = any_perm(3, "order1"), q = std::vector<int>{p[2], p[0], p[1]};
   std::vector<Name> n1, n2, l1{nm(0), nm(1), nm(2)}, l2{nm(0), nm(1), nm(3)};
   std::vector<E> e1, e2, s1{edge<Y>(c, arrow), edge<Y>(d, arrow2), edge<Y>(x, false)}, s2{edge<Y>(conj_segs<Y>(c), !arrow), edge<Y>(conj_segs<Y>(d), !arrow2), edge<Y>(y, true)};
   for (int k : p) { n1.push_back(l1[k]); e1.push_back(s1[k]); }
   for (int k : q) { n2.push_back(l2[k]); e2.push_back(s2[k]); }
   T t(n1, e1), u(n2, e2);
   fill(t, "x");
   fill(u, "y");
   auto want = t.contract(u, Pairs{{nm(0), nm(0)}, {nm(1), nm(1)}});
   int side = sy_fork(sy_int("side", 0, 1));
   if (!merged) {
      auto rev = any_set({nm(0), nm(1)}, "reversed");
      auto a = t.reverse_edge(rev, side), b = u.reverse_edge(rev, !side);
      same(table(a.contract(b, Pairs{{nm(0), nm(0)}, {nm(1), nm(1)}})), table(want), "contraction after reversing both sides");
      // a sign decision made per edge, complementary on the two sides
      auto ex = any_set({nm(0), nm(1)}, "excluded");
      auto f = t.reverse_edge(rev, side, std::set<Name>(ex)), g = u.reverse_edge(rev, !side, std::set<Name>(ex));
      same(table(f.contract(g, Pairs{{nm(0), nm(0)}, {nm(1), nm(1)}})), table(want), "contraction after reversing both sides with exceptions");
      REACH("both.reverse");
   } else {
      if (arrow != arrow2) sy_skip();
      auto a = t.merge_edge(std::map<Name, std::vector<Name>>{{nm(7), {nm(0), nm(1)}}}, side), b = u.merge_edge(std::map<Name, std::vector<Name>>{{nm(7), {nm(0), nm(1)}}}, !side);
      same(table(a.contract(b, Pairs{{nm(7), nm(7)}})), table(want), "contraction after merging both sides");
      REACH("both.merge");
   }
}
void harness() {
   int more = sy_tier();
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: { auto t = shaped<double, F1>({nm(0), nm(1)}, {{1, 2}, {1, 1}}, more ? 20 : 5); if (t.core->blocks.empty()) sy_skip(); reverse(t, "reverse.fermi"); break; }
      case 1: { auto t = shaped<cplx, FZ>({nm(0), nm(1)}, {{1, 1}, {1, 1}}, 3); if (t.core->blocks.empty()) sy_skip(); reverse(t, "reverse.fermiz2"); break; }
      default: { using E = TAT::Edge<FU>; bool a = sy_bool("arrow"), b = sy_bool("arrow"), c = sy_bool("arrow");
         TAT::Tensor<double, FU, Name> t({nm(0), nm(1), nm(2)}, std::vector<E>{edge<FU>({{FU(0, 0), 1}, {FU(1, 1), 2}}, a), edge<FU>({{FU(0, 0), 1}, {FU(1, 1), 1}}, b), edge<FU>({{FU(-1, -1), 1}, {FU(0, 0), 1}}, c)}); fill(t, "x"); reverse(t, "reverse.fermiu1"); }
   }
#elif PART == 1 || PART == 3
   switch (PART == 3 ? (int[]){1, 4, 5}[sy_fork(sy_int("family", 0, 2))] : 2 * sy_fork(sy_int("family", 0, more))) {
      case 0: { auto t = shaped<double, F1>({nm(0), nm(1)}, {{1, 1}, {1, 2}}, more ? 5 : 2, true); if (t.core->blocks.empty()) sy_skip(); merge(t, "merge.fermi", true); break; }
      case 4: { using E = TAT::Edge<F1>; bool a = any_arrow<F1>("arrow", true), b = any_arrow<F1>("arrow", true); // every combination of sign decisions
         TAT::Tensor<double, F1, Name> t({nm(0), nm(1), nm(2)}, std::vector<E>{edge<F1>({{F1(0), 1}, {F1(1), 1}}, a), edge<F1>({{F1(0), 1}, {F1(1), 1}}, b), edge<F1>({{F1(-2), 1}, {F1(-1), 1}}, false)}); fill(t, "x"); merge(t, "merge.flags"); break; }
      case 5: { using E = TAT::Edge<F1>; bool a = any_arrow<F1>("arrow", true), b = any_arrow<F1>("arrow", true), c = any_arrow<F1>("arrow", true); // an edge without charge has no say in the direction
         TAT::Tensor<double, F1, Name> t({nm(0), nm(1), nm(2)}, std::vector<E>{edge<F1>({{F1(0), 2}}, a), edge<F1>({{F1(0), 1}, {F1(1), 1}}, b), edge<F1>({{F1(-1), 1}, {F1(0), 1}}, c)}); fill(t, "x"); merge(t, "merge.neutral", true); break; }
      case 1: { using E = TAT::Edge<FZ>; bool a = any_arrow<FZ>("arrow", true), b = any_arrow<FZ>("arrow", true), c = any_arrow<FZ>("arrow", true);
         TAT::Tensor<double, FZ, Name> t({nm(0), nm(1), nm(2)}, std::vector<E>{edge<FZ>({{FZ(0, 0), 1}, {FZ(1, 1), 1}}, a), edge<FZ>({{FZ(0, 0), 1}, {FZ(1, 0), 1}}, b), edge<FZ>({{FZ(-2, 1), 1}, {FZ(-1, 0), 1}, {FZ(-1, 1), 1}, {FZ(0, 0), 1}}, c)}); fill(t, "x"); merge(t, "merge.fermiz2", true); break; }
      default: { auto t = shaped<double, F1>({nm(0), nm(1), nm(2)}, {{1, 1}, {1}, {1}}, more ? 3 : 1, true); if (t.core->blocks.empty()) sy_skip(); merge(t, "merge.three", true); }
   }
#else
   int m = sy_fork(sy_int("merged", 0, 1));
   if (sy_fork(sy_int("type", 0, 1))) both<F1>(m); else both<FU>(m);
#endif
}
