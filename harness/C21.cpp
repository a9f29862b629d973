// C21: binary serialisation gives back what was written, consumes exactly its bytes and leaves no trace of the former content.
#include "streams.hpp"
#include "common.hpp"
using TAT::operator<;
using TAT::operator>;

template<class Y> using Sg = TAT::Singular<double, Y, Name>;
template<class Y> Sg<Y> any_singular(const Segs<Y>& s) {
   Sg<Y> r;
   for (auto& [y, d] : s) { auto& v = r.value[y]; for (Size i = 0; i < d; i++) v.push_back(sym<double>("s")); }
   return r;
}
template<class Y> void same_singular(const Sg<Y>& a, const Sg<Y>& b, const char* w) {
   std::string m = w;
   sy_assert(a.value.size() == b.value.size(), (m + ": number of segments differs").c_str());
   for (auto& [y, v] : a.value) {
      auto it = b.value.find(y);
      if (it == b.value.end()) { sy_fail((m + ": a segment is missing").c_str()); continue; }
      sy_assert(it->second.size() == v.size(), (m + ": number of values differs").c_str());
      if (it->second.size() == v.size()) for (size_t i = 0; i < v.size(); i++) eq(v[i], it->second[i], (m + ": value differs").c_str());
   }
}
// a target with content of its own, sharing it with a copy
template<class S, class Y> TAT::Tensor<S, Y, Name> old_target() {
   std::vector<TAT::Edge<Y>> e;
   for (int i = 0; i < 2; i++) {
      if constexpr (nosym<Y>) e.push_back(TAT::Edge<Y>(2));
      else e.push_back(edge<Y>({{qn<Y>(0), 1}, {qn<Y>(i ? -1 : 1, 1), 2}}, i));
   }
   TAT::Tensor<S, Y, Name> t({"Old", "A"}, e);
   fill(t, "o");
   return t;
}
template<class S, class Y> void stream(const TAT::Tensor<S, Y, Name>& t, const Segs<Y>& ss, const char* tag) {
   auto want = table<S, Y>(t);
   auto target = old_target<S, Y>();
   auto copy = target;
   auto before_copy = table<S, Y>(copy);
   int way = sy_fork(sy_int("way", 0, 2));
   if (way == 0) { // dump and load
      std::string text = t.dump();
      auto& r = target.load(text);
      sy_assert(&r == &target, "load: returns another object");
      well_formed(target, "load");
      same(want, table<S, Y>(target), "load");
      auto moved = TAT::Tensor<S, Y, Name>().load(text);
      same(want, table<S, Y>(moved), "load of a temporary");
      auto again = target.dump();
      sy_assert(again.size() == text.size(), "dump after load: size differs");
      auto s = any_singular<Y>(ss);
      Sg<Y> q = any_singular<Y>({{qn<Y>(7), 2}});
      q.load(s.dump());
      same_singular<Y>(s, q, "load of singular values");
   } else if (way == 1) { // consecutive objects of different types in one stream
      auto s = any_singular<Y>(ss);
      std::ostringstream out;
      out < t < s < t < Size(77);
      std::istringstream in(out.str());
      Sg<Y> q = any_singular<Y>({{qn<Y>(7), 2}});
      TAT::Tensor<S, Y, Name> second;
      Size last = 0;
      in > target > q > second > last;
      well_formed(target, "read");
      well_formed(second, "read");
      same(want, table<S, Y>(target), "read");
      same_singular<Y>(s, q, "read of singular values");
      same(want, table<S, Y>(second), "read after other objects");
      sy_assert(last == 77, "what follows in the stream is lost");
      sy_assert(bool(in) && in.peek() == EOF, "bytes left over or missing");
   } else { // shape and data apart
      std::ostringstream meta, data;
      t.meta_put(meta);
      t.data_put(data);
      data < Size(77);
      std::istringstream mi(meta.str()), di(data.str());
      target.meta_get(mi).data_get(di);
      Size last = 0;
      di > last;
      well_formed(target, "meta_get and data_get");
      same(want, table<S, Y>(target), "meta_get and data_get");
      sy_assert(last == 77 && di.peek() == EOF && mi.peek() == EOF, "shape and data apart: bytes left over or missing");
      // data alone into another tensor of that shape, whose elements a copy shares
      auto other = t.same_shape();
      fill(other, "p");
      auto oc = table<S, Y>(other);
      std::istringstream d2(data.str());
      other.data_get(d2);
      same(want, table<S, Y>(other), "data_get");
   }
   same(before_copy, table<S, Y>(copy), "load changed a copy of the target");
   same(want, table<S, Y>(t), "writing changed the tensor");
   // the loaded tensor shares nothing with the written one
   for (auto& [ys, b] : target.core->blocks) for (auto& x : b) x = S(0);
   same(want, table<S, Y>(t), "loaded tensor shares elements with the written one");
   REACH(tag);
}
template<class S, class Y> void stream(const TAT::Tensor<S, Y, Name>& t, const char* tag) {
   Segs<Y> s;
   if (t.names.empty()) s = {{qn<Y>(0), 1}};
   else s = segs_of<Y>(t.core->edges[0]);
   stream<S, Y>(t, s, tag);
}
template<class S> void family(int k) {
   std::string c = std::is_same_v<S, double> ? "" : "c";
   if (k == 0) {
      int rank = sy_fork(sy_int("rank", 0, sy_tier() ? 3 : 2));
      std::vector<Name> names;
      for (int i = 0; i < rank; i++) names.push_back(nm(i));
      stream<S, No>(any_tensor<S, No>("e", names, 1, 1, 0, sy_tier() ? 3 : 2, 0), (c + "dense").c_str());
   }
   int lim = 20000;
   if (k == 1) stream<S, U1>(shaped<S, U1>({"A", "B"}, {{2, 1}, {1, 2}}, lim * 50000), (c + "u1").c_str());
   if (k == 2) stream<S, F1>(shaped<S, F1>({"A", "B"}, {{1, 2}, {1, 1}}, lim), (c + "fermi").c_str());
   if (k == 3) {
      auto a = any_segs<Z2>("e", 0, 2, 0, 2, 0), b = any_segs<Z2>("e", 0, 2, 1, 1, 0);
      TAT::Tensor<S, Z2, Name> t({"A", "B"}, {edge<Z2>(a), edge<Z2>(b)});
      fill(t, "x");
      stream<S, Z2>(t, (c + "z2").c_str());
   }
   if (k == 4) stream<S, FZ>(shaped<S, FZ>({"A", "B"}, {{1}, {2, 1}}, lim), (c + "fermiz2").c_str());
   if (k == 5) stream<S, FU>(shaped<S, FU>({"A", "B"}, {{1, 1}, {2}}, lim), (c + "fermiu1").c_str());
}
// tensors whose names are texts
void texts() {
   using T = TAT::Tensor<double, U1, std::string>;
   std::string n1, n2;
   int k1 = sy_fork(sy_int("length", 0, 2)), k2 = sy_fork(sy_int("length", 1, 2));
   for (int i = 0; i < k1; i++) n1 += char(sy_u8("char", 0, 255));
   for (int i = 0; i < k2; i++) n2 += char(sy_u8("char", 0, 255));
   sy_assume(n1 != n2);
   T t({n1, n2}, {TAT::Edge<U1>({{U1(0), 1}, {U1(1), 2}}), TAT::Edge<U1>({{U1(0), 1}})});
   for (auto& [ys, b] : t.core->blocks) for (auto& x : b) x = sym<double>("x");
   std::ostringstream out;
   out < t < Size(77);
   std::istringstream in(out.str());
   T r({"Old"}, {TAT::Edge<U1>({{U1(0), 3}})});
   Size last = 0;
   in > r > last;
   sy_assert(last == 77 && in.peek() == EOF, "texts: bytes left over or missing");
   sy_assert(r.names.size() == 2 && r.names[0] == n1 && r.names[1] == n2, "texts: names differ");
   auto p = r.name_to_index.find(n2);
   sy_assert(r.name_to_index.size() == 2 && p != r.name_to_index.end() && p->second == 1, "texts: name to index table");
   sy_assert(r.core->blocks.size() == t.core->blocks.size(), "texts: number of blocks");
   for (auto& [ys, b] : t.core->blocks) {
      auto it = r.core->blocks.find(ys);
      if (it == r.core->blocks.end() || it->second.size() != b.size()) { sy_fail("texts: block differs"); continue; }
      for (size_t i = 0; i < b.size(); i++) eq(b[i], it->second[i], "texts: element differs");
   }
   REACH("texts");
}
void harness() {
   int k = sy_fork(sy_int("family", 0, 12));
   if (k < 6) family<double>(k);
   else if (k < 12) family<cplx>(k - 6);
   else texts();
}
