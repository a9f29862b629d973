#include "contract.hpp"
#ifndef PART
#define PART 0
#endif
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// nshared names present in both tensors, n paired names, nf1/nf2 free; the order of the edges of the result is not part of the claim
template<class S> void run(int ns, int n, int nf1, int nf2, const std::function<Size(int)>& dim, const char* tag, bool perms = true) {
   struct E { Name name; Size d; };
   std::vector<E> all1, all2;
   std::vector<std::pair<Name, Name>> pairs;
   static const char* sh[] = {"s", "r", "t"};
   static const char* c1[] = {"a", "b"};
   static const char* c2[] = {"q", "p"};
   static const char* x1[] = {"A", "B"};
   static const char* x2[] = {"X", "Y"};
   int k = 0;
   for (int i = 0; i < ns; i++, k++) { Size d = dim(k); all1.push_back({Name(sh[i]), d}); all2.push_back({Name(sh[i]), d}); }
   for (int i = 0; i < n; i++, k++) { Size d = dim(k); all1.push_back({Name(c1[i]), d}); all2.push_back({Name(c2[i]), d}); pairs.push_back({Name(c1[i]), Name(c2[i])}); }
   for (int i = 0; i < nf1; i++, k++) all1.push_back({Name(x1[i]), dim(k)});
   for (int i = 0; i < nf2; i++, k++) all2.push_back({Name(x2[i]), dim(k)});
   std::vector<int> p1, p2;
   if (perms) { p1 = any_perm(all1.size(), "order1"); p2 = any_perm(all2.size(), "order2"); }
   else { for (size_t i = 0; i < all1.size(); i++) p1.push_back(all1.size() - 1 - i); for (size_t i = 0; i < all2.size(); i++) p2.push_back(i); }
   std::vector<Name> n1, n2;
   std::vector<TAT::Edge<No>> e1, e2;
   for (int i : p1) { n1.push_back(all1[i].name); e1.push_back(TAT::Edge<No>(all1[i].d)); }
   for (int i : p2) { n2.push_back(all2[i].name); e2.push_back(TAT::Edge<No>(all2[i].d)); }
   TAT::Tensor<S, No, Name> t1(n1, e1), t2(n2, e2);
   fill(t1, "x");
   fill(t2, "y");
   auto c = t1.contract(t2, as_set(pairs));
   well_formed(c, "contract");
   Tab<S, No> a = table(t1), b = table(t2), r = table(c);
   // names and dimensions of the result
   size_t want = ns + nf1 + nf2;
   sy_assert(r.names.size() == want, "contract with shared edges: number of edges");
   auto dim_in = [&](const Name& m) -> Size { for (auto& e : all1) if (e.name == m) return e.d; for (auto& e : all2) if (e.name == m) return e.d; return 0; };
   for (size_t i = 0; i < r.names.size(); i++) {
      bool ok = false;
      for (int j = 0; j < ns; j++) ok = ok || r.names[i] == Name(sh[j]);
      for (int j = 0; j < nf1; j++) ok = ok || r.names[i] == Name(x1[j]);
      for (int j = 0; j < nf2; j++) ok = ok || r.names[i] == Name(x2[j]);
      sy_assert(ok && r.segs[i].size() == 1 && r.segs[i][0].second == dim_in(r.names[i]), "contract with shared edges: names and dimensions of the result");
   }
   // every element
   each<No>(r.segs, [&](const Pos<No>& o) {
      S s = S(0);
      for (auto& [p, v] : a.data) {
         bool here = true;
         for (size_t i = 0; i < a.names.size(); i++) { int j = r.index(a.names[i]); if (j >= 0 && o[j].second != p[i].second) here = false; }
         if (!here) continue;
         for (auto& [q, w] : b.data) {
            bool fit = true;
            for (size_t i = 0; i < b.names.size(); i++) { int j = r.index(b.names[i]); if (j >= 0 && o[j].second != q[i].second) fit = false; }
            for (auto& [x, y] : pairs) if (p[a.index(x)].second != q[b.index(y)].second) fit = false;
            if (fit) s = s + mul(v, w);
         }
      }
      eq(r.get(o), s, "contract with shared edges: element differs");
   });
   same(table(t1), a, "contract changed its first operand");
   same(table(t2), b, "contract changed its second operand");
   REACH(tag);
}
void harness() {
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 5))) {
      // layouts: one or two shared edges, 0..1 paired, 0..1 free each, every order, fixed distinct dimensions
      case 0: {
         int ns = sy_fork(sy_int("shared", 1, 2)), n = sy_fork(sy_int("paired", 0, 1)), a = sy_fork(sy_int("free1", 0, 1)), b = sy_fork(sy_int("free2", 0, 1));
         if (ns + n + a > 3 && !sy_tier() && a && b) sy_skip();
         run<double>(ns, n, a, b, [&](int i) -> Size { return i == 0 ? 2 : i == ns ? 3 : 2; }, "layouts");
         break;
      }
      // dimensions
      case 1: run<double>(1, 1, 1, 1, [&](int i) -> Size { return sy_fork(sy_int("dim", 0, sy_tier() ? 3 : 2)); }, "dims", false); break;
      case 2: run<cplx>(1, 1, 1, 1, [&](int i) -> Size { return i == 0 ? 2 : i == 1 ? 2 : 1; }, "complex"); break;
      // an edge of one operand has the name of a paired edge of the other: that name is not shared
      case 4: {
         bool turned = sy_fork(sy_int("side", 0, 1));
         Size da = sy_fork(sy_int("dim", 1, 2)), db = sy_fork(sy_int("dim", 1, 2));
         std::vector<int> p1 = any_perm(3, "order1"), p2 = any_perm(3, "order2");
         Name A = Name("A"), B = Name("B"), X = Name("X"), s = Name("s");
         // t: A paired, B free; u: B paired, X free; s shared
         std::vector<std::pair<Name, Size>> l1{{A, da}, {B, db}, {s, 2}}, l2{{B, da}, {X, 2}, {s, 2}};
         std::vector<Name> n1, n2;
         std::vector<TAT::Edge<No>> e1, e2;
         for (int i : p1) n1.push_back(l1[i].first), e1.push_back(TAT::Edge<No>(l1[i].second));
         for (int i : p2) n2.push_back(l2[i].first), e2.push_back(TAT::Edge<No>(l2[i].second));
         TAT::Tensor<double, No, Name> t(n1, e1), u(n2, e2);
         fill(t, "x"); fill(u, "y");
         auto c = turned ? u.contract(t, Pairs{{B, A}}) : t.contract(u, Pairs{{A, B}});
         well_formed(c, "contract");
         auto r = table(c), a = table(t), b = table(u);
         sy_assert(r.names.size() == 3 && r.index(B) >= 0 && r.index(X) >= 0 && r.index(s) >= 0, "contract with a repeated name: names");
         if (r.names.size() != 3 || r.index(B) < 0 || r.index(X) < 0 || r.index(s) < 0) return;
         sy_assert(r.segs[r.index(B)][0].second == db && r.segs[r.index(X)][0].second == 2 && r.segs[r.index(s)][0].second == 2, "contract with a repeated name: dimensions");
         for (auto& [o, v] : r.data) {
            double sum = 0;
            for (auto& [p, x] : a.data) for (auto& [q, y] : b.data)
               if (p[a.index(A)].second == q[b.index(B)].second && p[a.index(B)].second == o[r.index(B)].second && q[b.index(X)].second == o[r.index(X)].second && p[a.index(s)].second == o[r.index(s)].second && q[b.index(s)].second == o[r.index(s)].second) sum = sum + x * y;
            eq(v, sum, "contract with a repeated name: element differs");
         }
         REACH("repeated");
         break;
      }
      case 5: {
         TAT::Tensor<double, No, Name> t({Name("A"), Name("B"), Name("s")}, {2, 2, 2}), u({Name("X"), Name("Y"), Name("s")}, {2, 2, 2});
         fill(t, "x"); fill(u, "y");
         if (sy_fork(sy_int("side", 0, 1))) sy_assert(rejects([&] { (void)t.contract(u, Pairs{{Name("A"), Name("X")}, {Name("A"), Name("Y")}}); }), "an edge paired twice is rejected");
         else sy_assert(rejects([&] { (void)t.contract(u, Pairs{{Name("A"), Name("X")}, {Name("B"), Name("X")}}); }), "an edge paired twice is rejected");
         REACH("duplicate");
         break;
      }
      default: {
         Size d1 = sy_fork(sy_int("d1", 0, 3)), d2 = sy_fork(sy_int("d2", 0, 3));
         if (d1 == d2) sy_skip();
         TAT::Tensor<double, No, Name> t({Name("s"), Name("A")}, {d1, 2}), u({Name("s"), Name("X")}, {d2, 2});
         fill(t, "x"); fill(u, "y");
         sy_assert(rejects([&] { (void)t.contract(u, Pairs{}); }), "shared edges of different dimension are rejected");
         REACH("mismatch");
      }
   }
#else
   run<double>(1, 2, 1, 1, [&](int i) -> Size { return i == 1 ? 3 : 2; }, "twopairs");
#endif
}
