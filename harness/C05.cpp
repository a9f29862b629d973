#include "common.hpp"
#ifndef PART
#define PART 0
#endif
template<class S, class Y> void run(TAT::Tensor<S, Y, Name>& t, const char* tag, bool swaps = false) {
   int r = t.names.size();
   std::vector<int> plan;
   if (!swaps) plan = any_perm(r);
   else { // one exchange of two edges, or the reversal
      for (int i = 0; i < r; i++) plan.push_back(i);
      int i = sy_fork(sy_int("first", 0, r - 1)), j = sy_fork(sy_int("second", 0, r - 1));
      if (i > j) sy_skip();
      if (i == j) std::reverse(plan.begin(), plan.end()); else std::swap(plan[i], plan[j]);
      if (i == j && i > 0) sy_skip();
   }
   std::vector<Name> to;
   for (int k : plan) to.push_back(t.names[k]);
   auto a = table(t);
   auto q = t.transpose(to);
   well_formed(q, "transpose");
   auto b = table(q);
   Tab<S, Y> e;
   e.names = to;
   for (int k : plan) { e.segs.push_back(a.segs[k]); e.arrows.push_back(a.arrows[k]); }
   for (auto& [p, v] : a.data) {
      Pos<Y> s(r);
      for (int i = 0; i < r; i++) s[i] = p[plan[i]];
      S x = v;
      if (fermi<Y> && perm_sign<Y>(charges<Y>(p), plan) < 0) { x = -x; REACH((std::string(tag) + ".minus").c_str()); }
      e.data[s] = x;
   }
   same(b, e, "transpose");
   same(table(t), a, "transpose changed its operand");
   REACH(tag);
}
template<class S> void dense(int minrank, int maxrank, int maxdim, const char* tag) {
   int r = sy_fork(sy_int("rank", minrank, maxrank));
   std::vector<Name> names;
   for (int i = 0; i < r; i++) names.push_back(nm(i));
   auto t = any_tensor<S, No>("e", names, 1, 1, 0, maxdim, 0);
   run(t, tag);
}
template<class S, class Y> void sparse(int rank, int maxseg, int mindim, int maxdim, int lim, const char* tag) {
   std::vector<Name> names;
   for (int i = 0; i < rank; i++) names.push_back(nm(i));
   auto t = any_tensor<S, Y>("e", names, 1, maxseg, mindim, maxdim, lim);
   if (t.core->blocks.empty()) sy_skip();
   run(t, tag);
}
// one dimension beyond the specialised line lengths of the copy loop (16), the others small
void line(const char* tag) {
   int r = sy_fork(sy_int("rank", 2, 3)), k = sy_fork(sy_int("long", 0, 2));
   if (k >= r) sy_skip();
   std::vector<Name> names;
   std::vector<TAT::Edge<No>> edges;
   for (int i = 0; i < r; i++) { names.push_back(nm(i)); edges.push_back(edge<No>({{No(), Size(sy_fork(i == k ? sy_int("dim", 15, 17) : sy_int("dim", 1, 2)))}})); }
   TAT::Tensor<double, No, Name> t(names, edges);
   fill(t, "x");
   run(t, tag);
}
// one block of one element: the sign of the permutation of the odd edges, whichever are odd
void one(int r, bool swaps, const char* tag) {
   std::vector<Name> names;
   std::vector<TAT::Edge<F1>> edges;
   int total = 0;
   for (int i = 0; i < r; i++) {
      int q = i < r - 1 ? (int)sy_i16("charge", 0, 1) : -total;
      total += q;
      names.push_back(nm(i));
      edges.push_back(edge<F1>({{F1(q), 1}}, any_arrow<F1>("arrow")));
   }
   TAT::Tensor<double, F1, Name> t(names, edges);
   fill(t, "x");
   run(t, tag, swaps);
}
void harness() {
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: dense<double>(0, 3, sy_tier() ? 4 : 3, "dense3"); break;
      case 1: dense<double>(4, 4, sy_tier() ? 3 : 2, "dense4"); break;
      default: line("line");
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: sparse<double, U1>(3, 2, 1, 1, 1000, "u1"); break;
      case 1: sparse<cplx, Z2>(2, 2, 0, 2, 0, "z2"); break;
      default: dense<cplx>(0, 2, 2, "complex");
   }
#elif PART == 2
   sparse<double, F1>(3, 2, 1, 1, sy_tier() ? 9 : 3, "fermi");
#elif PART == 3
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: dense<double>(0, 3, 3, "cache3"); break;
      case 1: dense<double>(4, 4, 2, "cache4"); break;
      case 2: sparse<double, F1>(2, 2, 1, 2, 1, "cachefermi"); break;
      default: line("cacheline");
   }
#elif PART == 4
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: { // rank 4, two segments each
         std::vector<Name> names;
         std::vector<TAT::Edge<F1>> edges;
         for (int i = 0; i < 4; i++) { names.push_back(nm(i)); edges.push_back(edge<F1>(i % 2 ? Segs<F1>{{F1(-1), 1}, {F1(0), 1}} : Segs<F1>{{F1(0), 1}, {F1(1), 1}}, any_arrow<F1>("arrow"))); }
         TAT::Tensor<double, F1, Name> t(names, edges);
         fill(t, "x");
         run(t, "fermi4");
         break;
      }
      case 1: one(5, sy_tier() ? 0 : 1, "fermi5"); break;
      case 2: one(7, 1, "fermi7"); break;
      default: { // rank 3 with blocks of several elements
         TAT::Tensor<cplx, FZ, Name> t({nm(0), nm(1), nm(2)}, {edge<FZ>({{FZ(-1, 0), 2}, {FZ(0, 1), 1}}, any_arrow<FZ>("arrow")), edge<FZ>({{FZ(0, 0), 1}, {FZ(1, 0), 2}}, any_arrow<FZ>("arrow")), edge<FZ>({{FZ(-1, 1), 1}, {FZ(0, 0), 3}, {FZ(1, 0), 1}}, any_arrow<FZ>("arrow"))});
         fill(t, "x");
         run(t, "fermiz2");
      }
   }
#endif
}
