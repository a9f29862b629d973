#include "ops.hpp"
#ifndef PART
#define PART 0
#endif
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// quotients written out: a / b for real b
__attribute__((noinline)) double dv(double a, double b) { return a / b; }
__attribute__((noinline)) cplx dv(const cplx& a, double b) { return cplx(a.real() / b, a.imag() / b); }
inline cplx dv(const cplx& a, const cplx& b) { double n = b.real() * b.real() + b.imag() * b.imag(); return cplx((a.real() * b.real() + a.imag() * b.imag()) / n, (a.imag() * b.real() - a.real() * b.imag()) / n); }
inline cplx dv(double a, const cplx& b) { return dv(cplx(a, 0), b); }
inline cplx mul(double a, const cplx& b) { return cplx(a * b.real(), a * b.imag()); }
inline cplx mul(const cplx& a, double b) { return mul(b, a); }
inline cplx ad(const cplx& a, const cplx& b) { return cplx(a.real() + b.real(), a.imag() + b.imag()); }
inline double ad(double a, double b) { return a + b; }
inline cplx sb(const cplx& a, const cplx& b) { return cplx(a.real() - b.real(), a.imag() - b.imag()); }
inline double sb(double a, double b) { return a - b; }
template<class A, class B> auto apply(int op, const A& a, const B& b) -> std::common_type_t<A, B> {
   using C = std::common_type_t<A, B>;
   return op == 0 ? ad(C(a), C(b)) : op == 1 ? sb(C(a), C(b)) : op == 2 ? C(mul(a, b)) : C(dv(a, b));
}
inline void nonzero(double x) { sy_assume(x != 0); }
inline void nonzero(const cplx& x) { sy_assume((x.real() > 0) | (x.real() < 0)); }
template<class A, class B> auto outplace(int op, const A& a, const B& b) {
   switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; }
}
template<class A, class B> void inplace(int op, A& a, const B& b) {
   switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; }
}
template<class S, class Y> void nonzero_all(const TAT::Tensor<S, Y, Name>& t) { for (auto& [y, b] : t.core->blocks) for (auto& x : b) nonzero(x); }
template<class C, class S, class Y> Tab<C, Y> conv(const Tab<S, Y>& t) { Tab<C, Y> r; r.names = t.names; r.segs = t.segs; r.arrows = t.arrows; for (auto& [p, v] : t.data) r.data[p] = C(v); return r; }
// two tensors over the same named edges, the second stored in any order
template<class S1, class S2, class Y> void tensors(const std::vector<Segs<Y>>& segs, const char* tag) {
   using C = std::common_type_t<S1, S2>;
   int n = segs.size(), op = sy_fork(sy_int("op", 0, 3));
   std::vector<Name> n1, n2;
   std::vector<TAT::Edge<Y>> e1, e2;
   for (int i = 0; i < n; i++) { n1.push_back(nm(i)); e1.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow"))); }
   for (int i : any_perm(n, "order")) { n2.push_back(n1[i]); e2.push_back(e1[i]); }
   TAT::Tensor<S1, Y, Name> a(n1, e1);
   TAT::Tensor<S2, Y, Name> b(n2, e2);
   fill(a, "x"); fill(b, "y");
   if (op == 3) nonzero_all(b);
   auto ta = table(a);
   auto tb0 = table(b);
   auto tb = ref_transpose(tb0, n1);
   Tab<C, Y> want = conv<C>(ta);
   for (auto& [p, v] : want.data) v = apply(op, ta.get(p), tb.get(p));
   if (sy_fork(sy_int("inplace", 0, 1))) {
      if constexpr (std::is_same_v<C, S1>) {
         auto other = a;
         inplace(op, a, b);
         same(table(a), want, "in-place operator");
         same(table(other), ta, "in-place operator changed a copy");
      } else sy_skip();
   } else {
      auto c = outplace(op, a, b);
      well_formed(c, "operator");
      same(table(c), want, "operator");
      same(table(a), ta, "operator changed its first operand");
   }
   same(table(b), tb0, "operator changed its second operand");
   REACH(tag);
}
template<class S1, class N, class Y> void numbers(const std::vector<Segs<Y>>& segs, const char* tag) {
   using C = std::common_type_t<S1, N>;
   int n = segs.size(), op = sy_fork(sy_int("op", 0, 3)), mode = sy_fork(sy_int("mode", 0, 2));
   std::vector<Name> n1;
   std::vector<TAT::Edge<Y>> e1;
   for (int i = 0; i < n; i++) { n1.push_back(nm(i)); e1.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow"))); }
   TAT::Tensor<S1, Y, Name> a(n1, e1);
   fill(a, "x");
   N k = sym<N>("k");
   if (op == 3) { nonzero(k); nonzero_all(a); }
   auto ta = table(a);
   Tab<C, Y> want = conv<C>(ta);
   for (auto& [p, v] : want.data) v = mode == 1 ? apply(op, k, ta.get(p)) : apply(op, ta.get(p), k);
   if (mode == 2) {
      if constexpr (std::is_same_v<C, S1>) { inplace(op, a, k); same(table(a), want, "in-place operator with a number"); }
      else sy_skip();
   } else if (mode == 1) { auto c = outplace(op, k, a); well_formed(c, "operator"); same(table(c), want, "number with tensor"); same(table(a), ta, "operator changed its operand"); }
   else { auto c = outplace(op, a, k); well_formed(c, "operator"); same(table(c), want, "tensor with number"); same(table(a), ta, "operator changed its operand"); }
   REACH(tag);
}
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int hi) { return sy_fork(sy_int("dim", 0, hi)); }
void partial() { // symmetric operands that do not have the same segments: missing blocks count as zero out of place
   int op = sy_fork(sy_int("op", 0, 2));
   auto s1 = any_segs<U1>("e1", 1, 2, 1, 1, 2), s2 = any_segs<U1>("e2", 1, 2, 1, 1, 2);
   TAT::Tensor<double, U1, Name> a({nm(0), nm(1)}, {edge<U1>(s1), TAT::Edge<U1>{{{U1(0), 1}, {U1(1), 1}}}}), b({nm(0), nm(1)}, {edge<U1>(s2), TAT::Edge<U1>{{{U1(0), 1}, {U1(-1), 1}}}});
   fill(a, "x"); fill(b, "y");
   auto ta = table(a), tb = table(b);
   auto c = outplace(op, a, b);
   well_formed(c, "operator");
   auto tc = table(c);
   sy_assert(tc.names == ta.names, "operator: names");
   size_t both = ta.data.size();
   for (auto& [p, v] : tb.data) if (!ta.data.count(p)) both++;
   for (auto& [p, v] : tc.data) eq(v, apply(op, ta.get(p), tb.get(p)), "operator on different segments: element differs");
   for (auto& [p, v] : ta.data) sy_assert(tc.data.count(p), "operator on different segments: an element of the first operand is missing");
   for (auto& [p, v] : tb.data) sy_assert(tc.data.count(p), "operator on different segments: an element of the second operand is missing");
   if (!same_segs<U1>(ta.segs[0], tb.segs[0]) || !same_segs<U1>(ta.segs[1], tb.segs[1])) {
      auto before = table(a);
      sy_assert(rejects([&] { inplace(op, a, b); }), "in-place operator on different shapes is rejected");
      same(table(a), before, "a rejected in-place operator changed its operand");
      REACH("partial.inplace");
   }
   REACH("partial");
}
void neither() { // the edges of the operands together allow blocks that neither operand has
   int op = sy_fork(sy_int("op", 0, 2));
   auto e = [](int q) { return TAT::Edge<U1>{{{U1(q), 1}}}; };
   int q = sy_i32("q", 1, 3), r = sy_i32("r", 1, 3);
   TAT::Tensor<double, U1, Name> a({nm(0), nm(1), nm(2), nm(3)}, {e(q), e(-q), e(0), e(0)}), b({nm(0), nm(1), nm(2), nm(3)}, {e(0), e(0), e(r), e(-r)});
   fill(a, "x"); fill(b, "y");
   auto ta = table(a), tb = table(b);
   auto c = outplace(op, a, b);
   well_formed(c, "operator");
   auto tc = table(c);
   for (auto& [p, v] : tc.data) eq(v, apply(op, ta.get(p), tb.get(p)), "operator on different segments: element differs");
   REACH("neither");
}
void rejected() {
   int op = sy_fork(sy_int("op", 0, 3)), in = sy_fork(sy_int("inplace", 0, 1)), kind = sy_fork(sy_int("kind", 0, 5));
   using T = TAT::Tensor<double, No, Name>;
   Size x = sy_fork(sy_int("dim", 1, 3));
   T a({nm(0), nm(1)}, {2, x});
   T b = kind == 0 ? T({nm(0), nm(2)}, {2, x}) : kind == 1 ? T({nm(0)}, {2}) : kind == 2 ? T({nm(0), nm(1)}, {2, x + 1}) : kind == 3 ? T({nm(1), nm(0)}, {x + 1, 2}) : kind == 4 ? T({nm(0), nm(1), nm(2)}, {2, x, 1}) : T({nm(0), nm(1)}, {1, x});
   fill(a, "x"); fill(b, "y");
   auto ta = table(a);
   if (in) sy_assert(rejects([&] { inplace(op, a, b); }), "in-place operator on different edges is rejected");
   else sy_assert(rejects([&] { (void)outplace(op, a, b); }), "operator on different edges is rejected");
   same(table(a), ta, "a rejected operator changed its operand");
   REACH("rejected");
}
void singulars() {
   int op = sy_fork(sy_int("op", 0, 3));
   TAT::Singular<double, U1, Name> s;
   s.value[U1(0)] = TAT::vector<double>(2); s.value[U1(1)] = TAT::vector<double>(1);
   double v[3] = {sym<double>("s"), sym<double>("s"), sym<double>("s")}, k = sym<double>("k");
   if (op == 3) nonzero(k);
   s.value[U1(0)][0] = v[0]; s.value[U1(0)][1] = v[1]; s.value[U1(1)][0] = v[2];
   inplace(op, s, k);
   eq(s.value[U1(0)][0], apply(op, v[0], k), "singular values with number");
   eq(s.value[U1(0)][1], apply(op, v[1], k), "singular values with number");
   eq(s.value[U1(1)][0], apply(op, v[2], k), "singular values with number");
   sy_assert(s.value.size() == 2, "singular values with number: sectors");
   REACH("singular");
}
void self() {
   int op = sy_fork(sy_int("op", 0, 3));
   TAT::Tensor<double, No, Name> a({nm(0), nm(1)}, {2, 2});
   fill(a, "x");
   if (op == 3) nonzero_all(a);
   auto ta = table(a), want = ta;
   for (auto& [p, v] : want.data) v = apply(op, v, v);
   if (sy_fork(sy_int("inplace", 0, 1))) { inplace(op, a, a); same(table(a), want, "operator on a tensor with itself"); }
   else { auto c = outplace(op, a, a); same(table(c), want, "operator on a tensor with itself"); }
   REACH("self");
}
void harness() {
   switch (sy_fork(sy_int("family", 0, 13))) {
      case 0: { int r = sy_fork(sy_int("rank", 0, 3)); std::vector<Segs<No>> s; for (int i = 0; i < r; i++) s.push_back(d(r == 3 ? i + 1 : anyd(2))); tensors<double, double, No>(s, "dense"); break; }
      case 1: tensors<cplx, cplx, No>({d(2), d(1)}, "complex"); break;
      case 2: tensors<double, cplx, No>({d(2), d(1)}, "mixed"); break;
      case 3: tensors<cplx, double, No>({d(1), d(2)}, "mixed"); break;
      case 4: tensors<double, double, U1>({any_segs<U1>("e", 1, 2, 1, 2, 3), c2<U1>(0, 1, 1, 2)}, "u1"); break;
      case 5: tensors<double, double, F1>({c2<F1>(-1, 0), c2<F1>(0, 1), c2<F1>(-1, 1)}, "fermi"); break;
      case 6: { int r = sy_fork(sy_int("rank", 0, 2)); std::vector<Segs<No>> s; for (int i = 0; i < r; i++) s.push_back(d(anyd(2))); numbers<double, double, No>(s, "number"); break; }
      case 7: numbers<cplx, cplx, Z2>({c2<Z2>(0, 1)}, "number.complex"); break;
      case 8: if (sy_fork(sy_int("side", 0, 1))) numbers<double, cplx, No>({d(2)}, "number.mixed"); else numbers<cplx, double, F1>({c2<F1>(0, 1), c2<F1>(-1, 0)}, "number.mixed"); break;
      case 9: partial(); break;
      case 10: rejected(); break;
      case 12: neither(); break;
      case 11: singulars(); break;
      default: self();
   }
}
