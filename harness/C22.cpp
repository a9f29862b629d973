// C22: parsing the text of a tensor gives the tensor back.
// Number formatting: see numbers.hpp
#include "numbers.hpp"
using TAT::operator<<;
using TAT::operator>>;

void setup(std::ios& s) {
   if (sy_replaying()) s.precision(17);
   else s.unsetf(std::ios::skipws); // the text has no white space; the table lookup that would skip it splits paths for nothing
}

// all elements but the first get fixed values (the sign of every free element doubles the paths)
template<class S, class Y> TAT::Tensor<S, Y, Name> tame(TAT::Tensor<S, Y, Name> t) {
   int n = 0;
   for (auto& [ys, block] : t.core->blocks) for (auto& x : block) if (n++) { if constexpr (std::is_same_v<S, double>) x = n % 3 - 1.; else x = S(n % 3 - 1, n % 4 - 2); }
   return t;
}
template<class S, class Y> void text(const TAT::Tensor<S, Y, Name>& t, const char* tag) {
   auto want = table<S, Y>(t);
   std::ostringstream out;
   setup(out);
   out << t << '?' << t << "{x}";
   std::istringstream in(out.str());
   setup(in);
   TAT::Tensor<S, Y, Name> a({"Old"}, {edge<Y>({{qn<Y>(0), 2}})}), b;
   char mark = 0;
   in >> a;
   in.get(mark);
   in >> b;
   sy_assert(bool(in), "reading the text fails");
   if (!in) return;
   std::string rest;
   for (int c; (c = in.get()) != EOF;) rest += char(c);
   sy_assert(mark == '?' && rest == "{x}", "reading does not stop right after the tensor");
   well_formed(a, "text");
   same(want, table<S, Y>(a), "text");
   same(want, table<S, Y>(b), "text, second tensor");
   REACH(tag);
}
template<class Y> void singular(const Segs<Y>& segs, const char* tag) {
   TAT::Singular<double, Y, Name> s, r;
   for (auto& [y, d] : segs) { auto& v = s.value[y]; for (Size i = 0; i < d; i++) { double x = sy_real("s"); sy_assume(x >= 0); v.push_back(v.empty() ? x : 2.5); } }
   std::ostringstream out;
   setup(out);
   out << s << '?';
   std::istringstream in(out.str());
   setup(in);
   r.value[qn<Y>(5)] = {1, 2};
   in >> r;
   sy_assert(bool(in) && in.get() == '?', "reading singular values fails or does not stop after them");
   sy_assert(r.value.size() == s.value.size(), "singular values: number of segments");
   for (auto& [y, v] : s.value) {
      auto it = r.value.find(y);
      if (it == r.value.end() || it->second.size() != v.size()) { sy_fail("singular values: segment differs"); continue; }
      for (size_t i = 0; i < v.size(); i++) eq(v[i], it->second[i], "singular values: value differs");
   }
   REACH(tag);
}
void names() {
   std::string n1, n2;
   int k1 = sy_fork(sy_int("length", 1, 2)), k2 = sy_fork(sy_int("length", 1, sy_tier() ? 3 : 2));
   auto ch = [] { char c = sy_u8("char", 33, 126); sy_assume((c != ',') & (c != '[') & (c != ']')); return c; };
   for (int i = 0; i < k1; i++) n1 += ch();
   for (int i = 0; i < k2; i++) n2 += ch();
   sy_assume(n1 != n2);
   TAT::Tensor<double, No, std::string> t({n1, n2}, {1, 2}), r;
   t.zero();
   std::ostringstream out;
   out << t << '?';
   std::istringstream in(out.str());
   setup(in);
   in >> r;
   sy_assert(bool(in) && in.get() == '?', "names: reading fails");
   sy_assert(r.names.size() == 2 && r.names[0] == n1 && r.names[1] == n2, "names: a name differs");
   REACH("names");
}
void longname() {
   int k = sy_fork(sy_int("length", 254, 258));
   Name n(std::string(k, 'x'));
   TAT::Tensor<double, No, Name> t({n}, {2});
   t.zero();
   text<double, No>(t, "longname");
}
void harness() {
   own_numbers();
   int lim = sy_tier() ? 130 : 12;
#if PART == 0
   int k = sy_fork(sy_int("family", 0, 7));
   if (k == 0) {
      int rank = sy_fork(sy_int("rank", 0, 2));
      std::vector<Name> names;
      for (int i = 0; i < rank; i++) names.push_back(nm(i));
      text<double, No>(any_tensor<double, No>("e", names, 1, 1, 0, 2, 0), "dense");
   }
   if (k == 1) text<cplx, No>(any_tensor<cplx, No>("e", {"A"}, 1, 1, 0, 2, 0), "complex");
   if (k == 2) text<double, U1>(tame<double, U1>(shaped<double, U1>({"A", "B"}, {{1, 1}, {2}}, lim)), "u1");
   if (k == 3) {
      auto a = any_segs<Z2>("e", 0, 2, 0, 1, 0), b = any_segs<Z2>("e", 0, 2, 1, 1, 0);
      TAT::Tensor<double, Z2, Name> t({"A", "B"}, {edge<Z2>(a), edge<Z2>(b)});
      fill(t, "x");
      text<double, Z2>(tame<double, Z2>(t), "z2");
   }
   if (k == 4) singular<No>({{No(), (Size)sy_fork(sy_int("dim", 0, 3))}}, "s.dense");
   if (k == 5) { U1 a(sy_i32("charge", -lim, lim)), b(sy_i32("charge", -lim, lim)); sy_assume(before(a, b)); singular<U1>({{a, 1}, {b, 2}}, "s.u1"); }
   if (k == 6) names();
   if (k == 7) longname();
#else
   int k = sy_fork(sy_int("family", 0, 4));
   lim = sy_tier() ? 20 : 11;
   if (k == 0) text<double, F1>(tame<double, F1>(shaped<double, F1>({"A", "B"}, {{1, 1}, {1}}, lim)), "fermi");
   if (k == 1) text<double, FZ>(shaped<double, FZ>({"A"}, {{1, 1}}, lim), "fermiz2");
   if (k == 2) text<cplx, FU>(shaped<cplx, FU>({"A"}, {{1}}, lim), "fermiu1");
   if (k == 3) singular<FU>({{FU(sy_i16("f", -lim, lim), sy_i32("u", -lim, lim)), 1}}, "s.fermiu1");
   if (k == 4) { // everything in one piece, with several blocks
      TAT::Tensor<cplx, FU, Name> t({"A", "B"}, {edge<FU>({{FU(0, 0), 1}, {FU(1, -2), 1}}, true), edge<FU>({{FU(-1, 2), 2}, {FU(0, 0), 1}}, false)});
      fill(t, "x");
      text<cplx, FU>(tame<cplx, FU>(t), "fermiu1.blocks");
   }
#endif
}
