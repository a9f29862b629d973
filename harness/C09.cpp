#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// two tensors sharing n edges (names differ on both sides), nf1/nf2 free edges, edges in arbitrary order
template<class S, class Y> void run(int n, int nf1, int nf2, const std::function<Segs<Y>(int)>& seg, const char* tag, bool perms = true) {
   std::vector<Segs<Y>> common, f1, f2;
   for (int i = 0; i < n; i++) common.push_back(seg(i));
   for (int i = 0; i < nf1; i++) f1.push_back(seg(n + i));
   for (int i = 0; i < nf2; i++) f2.push_back(seg(n + nf1 + i));
   std::vector<Name> n1, n2;
   std::vector<TAT::Edge<Y>> e1, e2;
   std::vector<std::pair<Name, Name>> pairs;
   auto p1 = perms ? any_perm(n + nf1, "order1") : std::vector<int>{}, p2 = perms ? any_perm(n + nf2, "order2") : std::vector<int>{};
   if (!perms) { for (int i = 0; i < n + nf1; i++) p1.push_back(n + nf1 - 1 - i); for (int i = 0; i < n + nf2; i++) p2.push_back(i); }
   static const char* c1[] = {"a", "b", "c"};
   static const char* c2[] = {"q", "p", "r"};
   static const char* x1[] = {"A", "B", "C"};
   static const char* x2[] = {"X", "Y", "Z"};
   for (int k : p1) if (k < n) { n1.push_back(Name(c1[k])); e1.push_back(edge<Y>(common[k])); } else { n1.push_back(Name(x1[k - n])); e1.push_back(edge<Y>(f1[k - n])); }
   for (int k : p2) if (k < n) { n2.push_back(Name(c2[k])); e2.push_back(edge<Y>(conj_segs<Y>(common[k]))); } else { n2.push_back(Name(x2[k - n])); e2.push_back(edge<Y>(f2[k - n])); }
   for (int i = 0; i < n; i++) pairs.push_back({Name(c1[i]), Name(c2[i])});
   TAT::Tensor<S, Y, Name> t1(n1, e1), t2(n2, e2);
   fill(t1, "x");
   fill(t2, "y");
   auto a = table(t1), b = table(t2);
   auto given = pairs;
   given.push_back({Name("absent"), Name("X")}); // ignored
   auto c = t1.contract(t2, as_set(given));
   well_formed(c, "contract");
   same(table(c), ref_contract<S, Y>(a, b, pairs), "contract");
   same(table(t1), a, "contract changed its first operand");
   same(table(t2), b, "contract changed its second operand");
   REACH(tag);
}
template<class Y> Segs<Y> one(const Y& a, Size d) { return {{a, d}}; }
void mismatch() { // paired edges of different dimension
   Size d1 = sy_fork(sy_int("d1", 1, 3)), d2 = sy_fork(sy_int("d2", 1, 3));
   if (d1 == d2) sy_skip();
   if (sy_fork(sy_int("symmetric", 0, 1))) {
      TAT::Tensor<double, U1, Name> t({nm(0), nm(1)}, std::vector<TAT::Edge<U1>>{{{U1(1), d1}}, {{U1(-1), 1}}}), u({nm(0), nm(1)}, std::vector<TAT::Edge<U1>>{{{U1(-1), d2}}, {{U1(1), 1}}});
      fill(t, "x"); fill(u, "y");
      sy_assert(rejects([&] { (void)t.contract(u, Pairs{{nm(0), nm(0)}}); }), "paired edges with different dimensions are rejected");
   } else {
      TAT::Tensor<double, No, Name> t({nm(0), nm(1)}, {d1, 2}), u({nm(0), nm(2)}, {d2, 2});
      fill(t, "x"); fill(u, "y");
      sy_assert(rejects([&] { (void)t.contract(u, Pairs{{nm(0), nm(0)}}); }), "paired edges with different dimensions are rejected");
   }
   REACH("mismatch");
}
void duplicate() { // a name used in two pairs
   TAT::Tensor<double, No, Name> t({nm(0), nm(1)}, {2, 2}), u({nm(2), nm(3)}, {2, 2});
   fill(t, "x"); fill(u, "y");
   if (sy_fork(sy_int("side", 0, 1))) sy_assert(rejects([&] { (void)t.contract(u, Pairs{{nm(0), nm(2)}, {nm(0), nm(3)}}); }), "an edge paired twice is rejected");
   else sy_assert(rejects([&] { (void)t.contract(u, Pairs{{nm(0), nm(2)}, {nm(1), nm(2)}}); }), "an edge paired twice is rejected");
   REACH("duplicate");
}
template<class S> void dense(int maxn, int maxf, int mind, int maxd, const char* tag) {
   int n = sy_fork(sy_int("paired", 0, maxn)), a = sy_fork(sy_int("free1", 0, maxf)), b = sy_fork(sy_int("free2", 0, maxf));
   run<S, No>(n, a, b, [&](int) { return one<No>(No(), sy_fork(sy_int("dim", mind, maxd))); }, tag);
}
void mixed() { // real with complex operand
   TAT::Tensor<double, No, Name> t({nm(0), nm(1)}, {2, 1});
   TAT::Tensor<cplx, No, Name> u({nm(2), nm(0)}, {1, 2});
   fill(t, "x"); fill(u, "y");
   auto c = t.contract(u, Pairs{{nm(0), nm(0)}});
   auto d = u.contract(t, Pairs{{nm(0), nm(0)}});
   auto a = table(t.to<cplx>());
   same(table(c), ref_contract<cplx, No>(a, table(u), {{nm(0), nm(0)}}), "contract of real with complex");
   same(table(d), ref_contract<cplx, No>(table(u), a, {{nm(0), nm(0)}}), "contract of complex with real");
   REACH("mixed");
}
void harness() {
   int more = sy_tier();
#if PART == 4 // single precision: kernels of their own
   sy_scale(1e4);
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: { auto s = [&](int i) -> Segs<No> { return {{No(), Size(sy_fork(sy_int("dim", 1, 2)))}}; }; run<float, No>(1, 1, 1, s, "float"); break; }
      case 1: { auto s = [&](int i) -> Segs<No> { return {{No(), Size(1 + i % 2)}}; }; run<cflt, No>(1, 1, 1, s, "complexfloat"); break; }
      default: { auto s = [&](int i) -> Segs<Z2> { return {{Z2(0), Size(1 + (i == 0))}, {Z2(1), 1}}; }; run<float, Z2>(1, 1, 1, s, "z2float"); }
   }
#elif PART == 0
   switch (sy_fork(sy_int("family", 0, 4))) {
      case 0: dense<double>(2, 1, 0, 2, "dense"); break;
      case 1: run<double, No>(1, 2, 1, [&](int i) { return one<No>(No(), 2 + (i == 1)); }, "dense.free2"); break;
      case 2: mismatch(); break;
      case 3: duplicate(); break;
      default: mixed();
   }
#elif PART == 1
   switch (sy_fork(sy_int("family", 0, 1))) {
      // symbolic charges
      case 0: { auto s = [&](int i) { return any_segs<U1>("e", 2, 2, 1, 1, more ? 9 : 3); }; run<double, U1>(1, 1, 1, s, "u1"); break; }
      // several paired edges, every pair of charges with its own total (see the known finding for the other case)
      default: { auto s = [&](int i) -> Segs<U1> { if (i == 0) return {{U1(0), 1}, {U1(1), 2}}; if (i == 1) return {{U1(0), 2}, {U1(2), 1}}; if (i == 2) return {{U1(-2), 1}, {U1(-1), 2}}; return {{U1(1), 1}, {U1(2), 1}}; }; run<double, U1>(2, 1, 1, s, "u1two"); }
   }
#elif PART == 3 // known finding: several paired edges whose merged components are enumerated in opposite orders on the two sides
   { auto s = [&](int i) -> Segs<U1> { if (i == 2) return {{U1(-1), 2}, {U1(0), 1}}; if (i == 3) return {{U1(0), 1}, {U1(1), 1}}; return {{U1(0), 1}, {U1(1), Size(i == 0 ? 2 : 1)}}; }; run<double, U1>(2, 1, 1, s, "u1order", false); }
#elif PART == 2
   switch (sy_fork(sy_int("family", 0, 3))) {
      case 2: { // two paired edges of one segment each, which match, or only in total, or not at all; with and without free edges
         int q[4], fr = sy_fork(sy_int("free", 0, 1));
         for (auto& x : q) x = sy_i32("charge", -1, 1);
         using E = TAT::Edge<U1>;
         std::vector<Name> n1{nm(0), nm(1)}, n2{nm(2), nm(3)};
         std::vector<E> e1{{{U1(q[0]), 1}}, {{U1(q[1]), 2}}}, e2{{{U1(q[2]), 1}}, {{U1(q[3]), 2}}};
         if (fr) { n1.push_back(nm(4)); e1.push_back({{U1(-q[0] - q[1]), 1}}); n2.push_back(nm(5)); e2.push_back({{U1(-q[2] - q[3]), 2}}); }
         TAT::Tensor<double, U1, Name> t(n1, e1), u(n2, e2);
         fill(t, "x"); fill(u, "y");
         auto c = t.contract(u, Pairs{{nm(0), nm(2)}, {nm(1), nm(3)}});
         well_formed(c, "contract");
         same(table(c), ref_contract<double, U1>(table(t), table(u), {{nm(0), nm(2)}, {nm(1), nm(3)}}), "contract with unmatched pairs");
         REACH("unmatched.two");
         break;
      }
      case 0: { auto s = [&](int i) -> Segs<Z2> { return {{Z2(0), Size(1 + (i == 0))}, {Z2(1), Size(1 + (i == 1))}}; }; run<double, Z2>(2, 1, 1, s, "z2two"); break; }
      case 1: { auto s = [&](int i) -> Segs<Z2> { return {{Z2(0), 1}, {Z2(1), 1}}; }; run<cplx, Z2>(1, 1, 1, s, "z2complex"); break; }
      default: { // different segments on the two sides: unmatched ones contribute nothing
         int q1 = sy_i32("q1", -2, 2), q2 = sy_i32("q2", -2, 2), f1 = sy_i32("f1", -2, 2), f2 = sy_i32("f2", -2, 2);
         using E = TAT::Edge<U1>;
         TAT::Tensor<double, U1, Name> t({nm(0), nm(1)}, std::vector<E>{{{U1(q1), 1}, {U1(q1 + 1), 2}}, {{U1(f1), 1}, {U1(f1 + 1), 1}}}), u({nm(0), nm(2)}, std::vector<E>{{{U1(q2), 1}, {U1(q2 + 1), 2}}, {{U1(f2), 1}, {U1(f2 + 1), 1}}});
         for (auto& [y, d] : segs_of<U1>(t.core->edges[0])) for (auto& [z, e] : segs_of<U1>(u.core->edges[0])) if (y.u1 == -z.u1 && d != e) sy_skip();
         fill(t, "x"); fill(u, "y");
         auto c = t.contract(u, Pairs{{nm(0), nm(0)}});
         well_formed(c, "contract");
         same(table(c), ref_contract<double, U1>(table(t), table(u), {{nm(0), nm(0)}}), "contract with unmatched segments");
         REACH("unmatched");
      }
   }
#endif
}
