#include "common.hpp"
#ifndef PART
#define PART 0
#endif
template<class S, class Y> void run(TAT::Tensor<S, Y, Name>& t, const char* tag) {
   using T = TAT::Tensor<S, Y, Name>;
   int r = t.names.size();
   auto a = table(t);
   if (a.data.empty()) sy_skip();
   // an arbitrary element
   int k = sy_fork(sy_int("element", 0, (long long)a.data.size() - 1));
   auto it = a.data.begin();
   std::advance(it, k);
   auto p = it->first;
   std::map<Name, typename T::EdgePoint> at;
   std::map<Name, Y> bl;
   for (int i = 0; i < r; i++) {
      if constexpr (nosym<Y>) at[a.names[i]] = p[i].second;
      else at[a.names[i]] = {p[i].first, p[i].second};
      bl[a.names[i]] = p[i].first;
   }
   const T& c = t;
   eq(c.at(at), it->second, "reading an element");
   eq(t.const_at(at), it->second, "reading an element (const_at)");
   auto what = sy_fork(sy_int("write", 0, 1));
   S v = sym<S>("v");
   auto e = a;
   e.data[p] = v;
   if (what == 0) {
      t.at(at) = v;
      REACH((std::string(tag) + ".at").c_str());
   } else { // through the block: row major in the tensor's edge order
      Size o = 0, total = 1;
      for (int i = 0; i < r; i++) {
         Size d = 0;
         for (auto& [y, n] : a.segs[i]) if (y == p[i].first) d = n;
         o = o * d + p[i].second;
         total *= d;
      }
      sy_assert(c.block(bl).size() == total, "a block has the size of its segments");
      eq(c.block(bl)[o], it->second, "storage order of a block");
      sy_assert(t.const_block(bl).size() == total, "a block has the size of its segments (const_block)");
      t.block(bl)[o] = v;
      REACH((std::string(tag) + ".block").c_str());
   }
   same(table(t), e, "writing one element");
   eq(c.at(at), v, "reading back a written element");
}
template<class S, class Y> void rejected(TAT::Tensor<S, Y, Name>& t) { // a coordinate list missing an edge is rejected
   using T = TAT::Tensor<S, Y, Name>;
   const T& c = t;
   auto thrown = [&](auto&& m) { try { (void)c.at(m); } catch (const std::exception&) { return true; } return false; };
   std::map<Name, typename T::EdgePoint> at;
   int miss = sy_fork(sy_int("missing", 0, (int)t.names.size() - 1));
   for (int i = 0; i < (int)t.names.size(); i++) if (i != miss) {
      if constexpr (nosym<Y>) at[t.names[i]] = 0;
      else at[t.names[i]] = {t.core->edges[i].map.begin()->first, 0};
   }
   sy_assert(thrown(at), "an incomplete coordinate list is rejected");
   REACH("rejected");
}
template<class S, class Y> void go(int minrank, int maxrank, int minseg, int maxseg, int mindim, int maxdim, int lim, const char* tag) {
   int r = sy_fork(sy_int("rank", minrank, maxrank));
   std::vector<Name> names;
   for (int i = 0; i < r; i++) names.push_back(nm((i + 1) % r));
   auto t = any_tensor<S, Y>("e", names, minseg, maxseg, mindim, maxdim, lim);
   if (t.core->blocks.empty()) sy_skip();
   if (r > 0 && sy_fork(sy_int("reject", 0, 1))) { rejected(t); return; }
   run(t, tag);
}
void z2rank3() {
   auto t = shaped<double, Z2>({nm(1), nm(2), nm(0)}, {{1, 2}, {2, 1}, {3, 2}}, 0);
   run(t, "z2rank3");
}
void harness() {
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 0: go<double, No>(0, 3, 1, 1, 0, 3, 0, "dense"); break;
      case 3: z2rank3(); break;
      case 1: go<cplx, No>(1, 2, 1, 1, 1, 2, 0, "complex"); break;
      default: go<double, Z2>(2, 2, 2, 2, 0, 2, 0, "z2");
   }
#else
   switch (sy_fork(sy_int("family", 0, 1))) {
      case 0: go<double, U1>(2, 2, 1, 2, 1, sy_tier() ? 3 : 2, 1000, "u1"); break;
      default: go<double, FU>(2, 2, 1, 2, 1, 2, 3, "fermiu1");
   }
#endif
}
