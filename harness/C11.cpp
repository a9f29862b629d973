#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
// Fermionic contraction against the reference, any stored edge order, symbolic charges and arrows.
// The merged components of several paired edges have distinct total charges here (see the known finding of C09).
template<class Y> struct Op { std::vector<Name> names; std::vector<Segs<Y>> segs; std::vector<bool> arrows; };
template<class S, class Y> TAT::Tensor<S, Y, Name> make(const Op<Y>& o, const std::vector<int>& order, const char* v) {
   std::vector<Name> n;
   std::vector<TAT::Edge<Y>> e;
   for (int i : order) { n.push_back(o.names[i]); e.push_back(edge<Y>(o.segs[i], o.arrows[i])); }
   TAT::Tensor<S, Y, Name> t(n, e);
   fill(t, v);
   return t;
}
template<class Y> bool ar(const char* n, int fork) { return any_arrow<Y>(n, fork); }
// one or two paired edges, one free edge each
template<class S, class Y> void reference(const std::vector<Segs<Y>>& common, const Segs<Y>& f1, const Segs<Y>& f2, bool split, const char* tag) {
   Op<Y> a, b;
   std::vector<std::pair<Name, Name>> pairs;
   static const char* c1[] = {"a", "b"};
   static const char* c2[] = {"q", "p"};
   for (size_t i = 0; i < common.size(); i++) {
      bool w = any_arrow<Y>("arrow", split);
      a.names.push_back(Name(c1[i])); a.segs.push_back(common[i]); a.arrows.push_back(w);
      b.names.push_back(Name(c2[i])); b.segs.push_back(conj_segs<Y>(common[i])); b.arrows.push_back(!w);
      pairs.push_back({Name(c1[i]), Name(c2[i])});
   }
   a.names.push_back(Name("A")); a.segs.push_back(f1); a.arrows.push_back(any_arrow<Y>("arrow", split));
   b.names.push_back(Name("X")); b.segs.push_back(f2); b.arrows.push_back(any_arrow<Y>("arrow", split));
   auto t1 = make<S, Y>(a, any_perm(a.names.size(), "order1"), "x");
   auto t2 = make<S, Y>(b, any_perm(b.names.size(), "order2"), "y");
   auto c = t1.contract(t2, as_set(pairs));
   well_formed(c, "contract");
   same(table(c), ref_contract<S, Y>(table(t1), table(t2), pairs), "fermionic contract");
   REACH(tag);
}
// the same two tensors stored in another edge order, and exchanged operands
template<class S, class Y> void orders(const Segs<Y>& cs, const Segs<Y>& f1, const Segs<Y>& f2, const char* tag) {
   bool w = any_arrow<Y>("arrow");
   Op<Y> a{{Name("a"), Name("A"), Name("B")}, {cs, f1, f2}, {w, any_arrow<Y>("arrow"), any_arrow<Y>("arrow")}};
   Op<Y> b{{Name("q"), Name("X")}, {conj_segs<Y>(cs), f1}, {!w, any_arrow<Y>("arrow")}};
   auto t1 = make<S, Y>(a, {0, 1, 2}, "x");
   auto t2 = make<S, Y>(b, {0, 1}, "y");
   auto c = t1.contract(t2, Pairs{{Name("a"), Name("q")}});
   auto p = any_perm(3, "order1");
   std::vector<Name> o1, o2 = {Name("q"), Name("X")};
   for (int i : p) o1.push_back(a.names[i]);
   if (sy_fork(sy_int("order2", 0, 1))) std::swap(o2[0], o2[1]);
   auto u1 = t1.transpose(o1), u2 = t2.transpose(o2);
   auto d = u1.contract(u2, Pairs{{Name("a"), Name("q")}});
   same(table(d.transpose(c.names)), table(c), "contract of transposed operands");
   auto e = u2.contract(u1, Pairs{{Name("q"), Name("a")}});
   same(table(e.transpose(c.names)), table(c), "contract with exchanged operands");
   REACH(tag);
}
// (A B) C = A (B C), one edge between each pair (triangle or chain)
template<class S, class Y> void assoc(const Segs<Y>& ab, const Segs<Y>& bc, const Segs<Y>& ca, bool triangle, bool split, const char* tag, const std::vector<Segs<Y>>& more = {}) {
   bool w1 = any_arrow<Y>("arrow", split), w2 = any_arrow<Y>("arrow", split), w3 = any_arrow<Y>("arrow", split);
   Op<Y> a{{Name("a"), Name("A")}, {ab, ca}, {w1, w3}};
   Op<Y> b{{Name("b"), Name("c")}, {conj_segs<Y>(ab), bc}, {!w1, w2}};
   Op<Y> c{{Name("d"), Name("C")}, {conj_segs<Y>(bc), conj_segs<Y>(ca)}, {!w2, !w3}};
   if (!more.empty()) {
      int k = 0;
      for (auto* o : {&a, &b, &c}) { o->names.push_back(nm(4 + k)); o->segs.push_back(more[k++]); o->arrows.push_back(any_arrow<Y>("arrow")); }
   }
   auto order = [&](const char* n) { // every rotation and its reverse
      int z = a.names.size();
      int r = sy_fork(sy_int(n, 0, sy_tier() || z == 2 ? z - 1 : 1));
      std::vector<int> o;
      for (int i = 0; i < z; i++) o.push_back((i + r) % z);
      return o;
   };
   auto t1 = make<S, Y>(a, order("order1"), "x");
   auto t2 = make<S, Y>(b, order("order2"), "y");
   auto t3 = make<S, Y>(c, order("order3"), "z");
   Pairs pab{{Name("a"), Name("b")}}, pbc{{Name("c"), Name("d")}};
   if (triangle) {
      auto left = t1.contract(t2, pab).contract(t3, Pairs{{Name("c"), Name("d")}, {Name("A"), Name("C")}});
      auto right = t1.contract(t2.contract(t3, pbc), Pairs{{Name("a"), Name("b")}, {Name("A"), Name("C")}});
      same(table(left), table(right), "contraction order");
   } else {
      auto left = t1.contract(t2, pab).contract(t3, pbc);
      auto right = t1.contract(t2.contract(t3, pbc), pab);
      same(table(left.transpose(right.names)), table(right), "contraction order");
   }
   REACH(tag);
}
template<class Y> Segs<Y> s2(int lim) { return any_segs<Y>("e", 2, 2, 1, 1, lim); }
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
void harness() {
   int lim = sy_tier() ? 9 : 2, more = sy_tier() ? 3 : 1;
#if PART == 0
   reference<double, F1>({s2<F1>(lim)}, s2<F1>(lim), sy_tier() ? s2<F1>(lim) : c2<F1>(0, 1), false, "fermi");
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: reference<double, F1>({c2<F1>(0, 1), c2<F1>(0, 3)}, c2<F1>(-1, -3), c2<F1>(1, 4), true, "fermi.two"); break;
      case 1: reference<double, FZ>({c2<FZ>(FZ(0, 1), FZ(1, 0))}, c2<FZ>(FZ(-1, 0), FZ(0, 1)), c2<FZ>(FZ(0, 1), FZ(1, 0)), false, "fermiz2"); break;
      default: reference<cplx, FU>({c2<FU>(FU(0, 1), FU(1, 0))}, c2<FU>(FU(-1, 0), FU(0, -1)), c2<FU>(FU(0, 1), FU(1, 0)), false, "fermiu1");
   }
#elif PART == 2
   orders<double, F1>(c2<F1>(0, 1), c2<F1>(-1, 1), c2<F1>(0, 1), "orders");
#else
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: assoc<double, F1>(s2<F1>(more), s2<F1>(more), sy_tier() ? s2<F1>(more) : c2<F1>(-1, 1), false, false, "chain"); break;
      case 1: assoc<double, F1>(c2<F1>(0, 1), c2<F1>(0, 3), c2<F1>(0, 5), true, false, "triangle", {{{F1(-6), 1}, {F1(-5), 1}, {F1(-1), 1}, {F1(0), 1}}, {{F1(-3), 1}, {F1(-2), 1}, {F1(0), 1}, {F1(1), 1}}, {{F1(0), 1}, {F1(3), 1}, {F1(5), 1}, {F1(8), 1}}}); break;
      default: assoc<double, FZ>(c2<FZ>(FZ(0, 0), FZ(1, 1)), c2<FZ>(FZ(0, 1), FZ(1, 0)), c2<FZ>(FZ(-1, 1), FZ(0, 0)), false, false, "chain.fermiz2");
   }
#endif
}
