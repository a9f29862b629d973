#include "common.hpp"
#ifndef PART
#define PART 0
#endif
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template<class Y> bool eqc(const Y& a, const Y& b) { return !before(a, b) && !before(b, a); }
// expected edges: segments that occur in a charge-conserving combination
template<class S, class Y> void check(const TAT::Tensor<S, Y, Name>& t, const std::vector<Segs<Y>>& in, const std::vector<char>& arrows, const std::vector<Name>& names, const char* tag) {
   int r = in.size();
   sy_assert(std::vector<Name>(t.names.begin(), t.names.end()) == names, "names are those given");
   sy_assert(t.core->edges.size() == in.size(), "number of edges");
   std::vector<std::vector<char>> used(r);
   for (int i = 0; i < r; i++) used[i].assign(in[i].size(), 0);
   size_t blocks = 0;
   std::vector<int> pick(r);
   std::function<void(int, Size)> rec = [&](int k, Size total) {
      if (k == r) {
         std::vector<Y> ys;
         for (int i = 0; i < r; i++) ys.push_back(in[i][pick[i]].first);
         auto it = t.core->blocks.find(ys);
         if (Ch<Y>::zero(ys)) {
            blocks++;
            for (int i = 0; i < r; i++) used[i][pick[i]] = 1;
            sy_assert(it != t.core->blocks.end(), "every charge-conserving combination has storage");
            if (it != t.core->blocks.end()) sy_assert(it->second.size() == total, "a block holds the product of the dimensions");
         } else sy_assert(it == t.core->blocks.end(), "no storage for a combination violating charge conservation");
         return;
      }
      for (size_t j = 0; j < in[k].size(); j++) { pick[k] = j; rec(k + 1, total * in[k][j].second); }
   };
   rec(0, 1);
   sy_assert(t.core->blocks.size() == blocks, "number of blocks");
   for (int i = 0; i < r; i++) {
      Segs<Y> want;
      for (size_t j = 0; j < in[i].size(); j++) if (used[i][j]) want.push_back(in[i][j]); else REACH((std::string(tag) + ".dropped").c_str());
      sy_assert(same_segs<Y>(segs_of<Y>(t.core->edges[i]), want), "an edge keeps exactly its usable segments with their dimensions");
      sy_assert(arrow_of<Y>(t.core->edges[i]) == bool(arrows[i]), "an edge keeps its arrow");
      auto n = t.name_to_index.find(names[i]);
      sy_assert(n != t.name_to_index.end() && n->second == i, "name lookup finds the edge");
   }
   if (r == 0) sy_assert(blocks == 1 && t.core->blocks.begin()->second.size() == 1, "a rank-0 tensor holds one element");
   REACH(tag);
}
template<class S, class Y> void build(int minrank, int maxrank, int minseg, int maxseg, int mindim, int maxdim, int lim, const char* tag) {
   int r = sy_fork(sy_int("rank", minrank, maxrank));
   std::vector<Segs<Y>> in;
   std::vector<char> arrows;
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (int i = 0; i < r; i++) {
      in.push_back(any_segs<Y>("e", minseg, maxseg, mindim, maxdim, lim));
      arrows.push_back(any_arrow<Y>("arrow"));
      names.push_back(nm(r - 1 - i));
      edges.push_back(edge<Y>(in[i], arrows[i]));
   }
   TAT::Tensor<S, Y, Name> t(names, edges);
   check(t, in, arrows, names, tag);
   if (r == 2) { // names: too few, too many, duplicated
      auto few = names, many = names, twice = names;
      few.pop_back();
      many.push_back(nm(6));
      twice[1] = twice[0];
      sy_assert(rejects([&] { TAT::Tensor<S, Y, Name> x(few, edges); }), "too few names are rejected");
      sy_assert(rejects([&] { TAT::Tensor<S, Y, Name> x(many, edges); }), "too many names are rejected");
      sy_assert(rejects([&] { TAT::Tensor<S, Y, Name> x(twice, edges); }), "duplicated names are rejected");
   }
   if (r == 3) { // a duplicate that is not adjacent
      auto twice = names;
      int k = sy_fork(sy_int("dup", 0, 2));
      twice[k] = twice[(k + 1) % 3];
      sy_assert(rejects([&] { TAT::Tensor<S, Y, Name> x(twice, edges); }), "duplicated names are rejected");
   }
   auto u = t.same_shape();
   for (int i = 0; i < r; i++) { in[i] = segs_of<Y>(t.core->edges[i]); }
   check(u, in, arrows, names, "same_shape");
}
void scalars() {
   double v = sy_real("v");
   TAT::Tensor<double, U1, Name> t(v);
   sy_assert(t.names.empty() && t.core->blocks.size() == 1 && t.core->blocks.begin()->second.size() == 1, "number to rank-0 tensor");
   eq(double(t), v, "a rank-0 tensor converts back to its number");
   auto o = TAT::Tensor<double, No, Name>::one(v, std::vector<Name>{nm(0), nm(1)});
   sy_assert(o.names.size() == 2 && o.core->blocks.size() == 1 && o.core->blocks.begin()->second.size() == 1, "one(): one element");
   eq(double(o), v, "one(): value");
   int q = sy_i32("q", -9, 9);
   bool a = sy_bool("a"), b = sy_bool("b");
   auto f = TAT::Tensor<double, FU, Name>::one(v, std::vector<Name>{nm(0), nm(1)}, std::vector<FU>{FU(q, 2 * q), FU(-q, -2 * q)}, std::vector<bool>{a, b});
   sy_assert(arrow_of<FU>(f.core->edges[0]) == a && arrow_of<FU>(f.core->edges[1]) == b, "one(): arrows");
   sy_assert(f.core->blocks.size() == 1 && f.core->blocks.count({FU(q, 2 * q), FU(-q, -2 * q)}) == 1, "one(): charges");
   eq(double(f), v, "one(): value");
   // edges given as a set of charges: dimension one each; trivial edge: one segment of neutral charge
   TAT::Edge<U1> e{U1(q), U1(q + 1)};
   sy_assert(e.map.size() == 2 && e.map.at(U1(q)) == 1 && e.map.at(U1(q + 1)) == 1, "edge from charges");
   Size d = sy_int("d", 0, 1000);
   TAT::Edge<U1> w(d);
   sy_assert(w.map.size() == 1 && w.map.at(U1(0)) == d, "trivial edge");
   bool thrown = rejects([&] { TAT::Tensor<double, No, Name> x({nm(0)}, {2}); (void)double(x); });
   sy_assert(thrown, "more than one element is not a number");
   REACH("scalars");
}
void reversed() { // automatic choice of the arrow: reversed exactly for edges holding a negative particle number
   bool a = sy_bool("arrow");
   short x = sy_i16("x", -50, 50), y = sy_i16("y", -50, 50);
   sy_assume(x < y);
   using E = TAT::Edge<F1>;
   TAT::Tensor<double, F1, Name> t({nm(0), nm(1)}, std::vector<E>{E(a, {{F1(x), 1}, {F1(y), 2}}), E(!a, {{F1(-x), 1}, {F1(-y), 1}})}, true);
   sy_assert(t.core->edges[0].arrow == (a != (x < 0)), "automatic arrow of the first edge");
   sy_assert(t.core->edges[1].arrow == (!a != (y > 0)), "automatic arrow of the second edge");
   REACH("auto_reverse");
}
void harness() {
   int more = sy_tier();
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 4))) {
      case 0: build<double, No>(0, 4, 1, 1, 0, 2, 0, "dense"); break;
      case 1: build<double, Z2>(0, 2, 0, 2, 0, 2, 0, "z2"); break;
      case 2: scalars(); break;
      case 3: reversed(); break;
      default: build<cplx, FZ>(2, 2, 1, 2, 1, 1, 100, "fermiz2");
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: build<double, U1>(1, 2, 0, 2 + more, 0, 2, 1000, "u1"); break;
      case 1: build<double, U1>(3, 3, 1, 2, 2, 2, 1000, "u1rank3"); break;
      default: build<double, FU>(2, 2, 1, 2, 1, 1, 100, "fermiu1");
   }
#endif
}
