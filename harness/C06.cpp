#include "ops.hpp"
#ifndef PART
#define PART 0
#endif
// merge an arbitrary ordered group of edges of t (possibly empty), compare with the reference, split back
template<class S, class Y> void run(TAT::Tensor<S, Y, Name>& t, const char* tag) {
   int r = t.names.size();
   auto a = table(t);
   auto order = any_perm(r, "group");
   int n = sy_fork(sy_int("members", 0, r));
   std::vector<Name> group;
   for (int i = 0; i < n; i++) group.push_back(t.names[order[i]]);
   for (int i = n; i + 1 < r; i++) if (order[i] > order[i + 1]) sy_skip(); // same group again
   Name m = nm(7);
   auto none = [](Name) { return false; };
   auto q = t.merge_edge(std::map<Name, std::vector<Name>>{{m, group}});
   well_formed(q, "merge");
   same(table(q), normal(ref_merge<S, Y>(a, m, group, false, none)), "merge");
   same(table(t), a, "merge changed its operand");
   std::vector<std::tuple<Name, TAT::BoseEdge<Y>>> parts;
   for (auto& g : group) parts.push_back({g, TAT::BoseEdge<Y>{t.core->edges[a.index(g)].map}});
   auto b = q.split_edge(std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Y>>>>{{m, parts}});
   well_formed(b, "split");
   std::vector<Name> back;
   for (auto& x : table(q).names) if (x == m) back.insert(back.end(), group.begin(), group.end()); else back.push_back(x);
   same(table(b), ref_transpose(a, back), "splitting what was merged");
   REACH(tag);
   if (n == 0) REACH("empty");
   // names that are not there are ignored
   auto w = t.merge_edge(std::map<Name, std::vector<Name>>{{m, [&] { auto g = group; g.insert(g.begin(), nm(6)); return g; }()}});
   same(table(w), table(q), "merge ignores absent names");
   auto z = t.split_edge(std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Y>>>>{{m, parts}});
   same(table(z), a, "split ignores absent names");
}
// two groups at once
template<class S, class Y> void two(TAT::Tensor<S, Y, Name>& t, const char* tag) {
   auto a = table(t);
   auto order = any_perm(4, "group");
   if (order[0] > order[2]) sy_skip();
   std::vector<Name> g{t.names[order[0]], t.names[order[1]]}, h{t.names[order[2]], t.names[order[3]]};
   auto none = [](Name) { return false; };
   auto q = t.merge_edge(std::map<Name, std::vector<Name>>{{nm(6), g}, {nm(7), h}});
   well_formed(q, "merge");
   auto e = ref_merge<S, Y>(ref_merge<S, Y>(a, nm(6), g, false, none), nm(7), h, false, none);
   same(table(q), normal(e), "merging two groups");
   std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Y>>>> parts;
   for (auto& x : g) parts[nm(6)].push_back({x, TAT::BoseEdge<Y>{t.core->edges[a.index(x)].map}});
   for (auto& x : h) parts[nm(7)].push_back({x, TAT::BoseEdge<Y>{t.core->edges[a.index(x)].map}});
   auto b = q.split_edge(parts);
   std::vector<Name> back;
   for (auto& x : table(q).names) for (auto& y : x == nm(6) ? g : h) back.push_back(y);
   same(table(b), ref_transpose(a, back), "splitting two edges");
   REACH(tag);
}
void harness() {
#if PART == 0
   int r = sy_fork(sy_int("rank", 0, 4));
   if (r == 4) {
      auto t = any_tensor<double, No>("e", {nm(0), nm(1), nm(2), nm(3)}, 1, 1, 1, 2, 0);
      two(t, "dense2");
   } else {
      std::vector<Name> names;
      for (int i = 0; i < r; i++) names.push_back(nm(i));
      auto t = any_tensor<double, No>("e", names, 1, 1, 0, 2, 0);
      run(t, "dense");
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: { auto t = shaped<double, U1>({nm(0), nm(1)}, {{1, 2}, {2, 1}}, 9); if (t.core->blocks.empty()) sy_skip(); run(t, "u1"); break; }
      case 1: { auto t = shaped<cplx, Z2>({nm(0), nm(1), nm(2)}, {{1, 2}, {1, 1}, {2, 1}}, 0); run(t, "z2"); break; }
      case 2: { auto t = shaped<double, Z2>({nm(0), nm(1), nm(2), nm(3)}, {{1, 1}, {1, 1}, {1, 1}, {2, 1}}, 0); two(t, "z2two"); break; }
      default: { auto t = shaped<double, U1>({nm(0), nm(1), nm(2)}, {{1, 1}, {1, 2}, {1}}, sy_tier() ? 4 : 2); if (t.core->blocks.empty()) sy_skip(); run(t, "u1rank3"); }
   }
#endif
}
