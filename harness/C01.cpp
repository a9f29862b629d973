#include "common.hpp"
// independent component-wise view of a charge
template<class Y> std::vector<long long> comp(const Y& y) {
   if constexpr (std::is_same_v<Y, No>) return {};
   else if constexpr (std::is_same_v<Y, Z2>) return {(long long)y.z2};
   else if constexpr (std::is_same_v<Y, U1>) return {(long long)y.u1};
   else if constexpr (std::is_same_v<Y, F1>) return {(long long)y.fermi};
   else if constexpr (std::is_same_v<Y, FZ>) return {(long long)y.fermi, (long long)y.z2};
   else return {(long long)y.fermi, (long long)y.u1};
}
template<class Y> bool eqv(const Y& a, const Y& b) {
   auto x = comp<Y>(a), y = comp<Y>(b);
   bool r = true;
   for (size_t i = 0; i < x.size(); i++) r = r & (x[i] == y[i]);
   return r;
}
template<class Y> Y get(const char* n) {
   const int L = 500000000;
   if constexpr (std::is_same_v<Y, No>) return No();
   else if constexpr (std::is_same_v<Y, Z2>) return Z2(sy_bool(n));
   else if constexpr (std::is_same_v<Y, U1>) return U1(sy_i32(n, -L, L));
   else if constexpr (std::is_same_v<Y, F1>) return F1(sy_i16(n, -10000, 10000));
   else if constexpr (std::is_same_v<Y, FZ>) { short f = sy_i16(n, -10000, 10000); return FZ(f, sy_bool(n)); }
   else { short f = sy_i16(n, -10000, 10000); return FU(f, sy_i32(n, -L, L)); }
}
// a + b by components
template<class Y> bool is_sum(const Y& s, const Y& a, const Y& b) {
   auto x = comp<Y>(s), y = comp<Y>(a), z = comp<Y>(b);
   bool r = true;
   if constexpr (std::is_same_v<Y, Z2>) r = x[0] == (y[0] ^ z[0]);
   else if constexpr (std::is_same_v<Y, FZ>) r = (x[0] == y[0] + z[0]) & (x[1] == (y[1] ^ z[1]));
   else for (size_t i = 0; i < x.size(); i++) r = r & (x[i] == y[i] + z[i]);
   return r;
}
template<class Y> void run(const char* tag) {
   Y a = get<Y>("a"), b = get<Y>("b"), c = get<Y>("c");
   const Y a0 = a, b0 = b;
   sy_assert(eqv<Y>((a + b) + c, a + (b + c)), "addition is associative");
   sy_assert(eqv<Y>(a + b, b + a), "addition is commutative");
   sy_assert(is_sum<Y>(a + b, a, b), "addition adds the components");
   sy_assert(eqv<Y>(a + Y(), a), "the default charge is neutral");
   sy_assert(eqv<Y>(Y() + a, a), "the default charge is neutral");
   sy_assert(eqv<Y>(a + (-a), Y()), "negation is the inverse");
   sy_assert(eqv<Y>(-(-a), a), "negating twice gives the charge back");
   Y d = a;
   Y& e = (d += b);
   sy_assert(&e == &d, "in-place addition returns its left operand");
   sy_assert(eqv<Y>(d, a0 + b0), "in-place addition agrees with addition");
   sy_assert(eqv<Y>(b, b0), "in-place addition keeps its right operand");
   d = a;
   d += d;
   sy_assert(eqv<Y>(d, a0 + a0), "adding a charge to itself in place");
   sy_assert((a == b) == eqv<Y>(a, b), "equal exactly when the components are equal");
   sy_assert((a != b) == !(a == b), "inequality is the negation of equality");
   sy_assert(!(a < a), "the order is irreflexive");
   sy_assert(!((a < b) & (b < a)), "the order is asymmetric");
   sy_assert(((a < b) | (b < a)) == !(a == b), "the order is total");
   sy_assert(!((a < b) & (b < c)) | (a < c), "the order is transitive");
   sy_assert((a > b) == (b < a), "greater agrees with less");
   sy_assert((a <= b) == !(b < a), "less-or-equal agrees with less");
   sy_assert((a >= b) == !(a < b), "greater-or-equal agrees with less");
   REACH(tag);
}
void harness() {
   switch (sy_fork(sy_int("type", 0, 5))) {
      case 0: run<No>("No"); break;
      case 1: run<Z2>("Z2"); break;
      case 2: run<U1>("U1"); break;
      case 3: run<F1>("Fermi"); break;
      case 4: run<FZ>("FermiZ2"); break;
      default: run<FU>("FermiU1");
   }
}
