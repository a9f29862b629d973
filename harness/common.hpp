// Shared pieces of the harnesses: symbolic tensors, an independent reference tensor ("element table"), comparisons.
#pragma once
#ifndef TAT_NOTHING_BITS
#define TAT_NOTHING_BITS 0
#endif
#include <TAT/TAT.hpp>
#include <sstream>
#include <functional>
#include <array>
#include <optional>
#include "../engine/sy.h"

using TAT::Rank;
using TAT::Size;
using TAT::Arrow;
using Name = TAT::DefaultName;
using cplx = std::complex<double>;
using cflt = std::complex<float>;
using No = TAT::NoSymmetry;
using Z2 = TAT::Z2Symmetry;
using U1 = TAT::U1Symmetry;
using F1 = TAT::FermiSymmetry;
using FZ = TAT::FermiZ2Symmetry;
using FU = TAT::FermiU1Symmetry;

#define REACH(t) sy_reach(t)

// ---- numbers
template<class S> S sym(const char* n) {
   if constexpr (std::is_floating_point_v<S>) return sy_real(n);
   else { double a = sy_real(n); double b = sy_real(n); return S(a, b); }
}
inline void eq(double a, double b, const char* w) { sy_eq(a, b, w); }
inline void eq(const cplx& a, const cplx& b, const char* w) { sy_eq(a.real(), b.real(), w); sy_eq(a.imag(), b.imag(), w); }
inline void eq(float a, float b, const char* w) { sy_eq(a, b, w); }
inline void eq(const std::complex<float>& a, const std::complex<float>& b, const char* w) { sy_eq(a.real(), b.real(), w); sy_eq(a.imag(), b.imag(), w); }
inline float cj(float a) { return a; }
inline std::complex<float> cj(const std::complex<float>& a) { return {a.real(), -a.imag()}; }
inline float mul(float a, float b) { return a * b; }
inline std::complex<float> mul(const std::complex<float>& a, const std::complex<float>& b) { return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()}; }
inline double cj(double a) { return a; }
inline cplx cj(const cplx& a) { return cplx(a.real(), -a.imag()); }
// products written out, so that the oracle does not depend on the complex multiplication of the library under test
inline double mul(double a, double b) { return a * b; }
inline cplx mul(const cplx& a, const cplx& b) { return cplx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }

// ---- charges
template<class Y> struct Ch;
template<> struct Ch<No> { static No get(const char*, int) { return {}; } static No neg(No) { return {}; } static bool zero(const std::vector<No>&) { return true; } static int par(No) { return 0; } };
template<> struct Ch<Z2> {
   static bool zero(const std::vector<Z2>& v) { bool s = false; for (auto& x : v) s = s != x.z2; return !s; }
   static Z2 neg(Z2 a) { return a; }
   static int par(Z2) { return 0; }
};
template<> struct Ch<U1> {
   static bool zero(const std::vector<U1>& v) { long s = 0; for (auto& x : v) s += x.u1; return s == 0; }
   static U1 neg(U1 a) { return U1(-a.u1); }
   static int par(U1) { return 0; }
};
template<> struct Ch<F1> {
   static bool zero(const std::vector<F1>& v) { long s = 0; for (auto& x : v) s += x.fermi; return s == 0; }
   static F1 neg(F1 a) { return F1(-a.fermi); }
   static int par(F1 a) { return a.fermi & 1; }
};
template<> struct Ch<FZ> {
   static bool zero(const std::vector<FZ>& v) { long s = 0; bool z = false; for (auto& x : v) { s += x.fermi; z = z != x.z2; } return s == 0 && !z; }
   static FZ neg(FZ a) { return FZ(-a.fermi, a.z2); }
   static int par(FZ a) { return a.fermi & 1; }
};
template<> struct Ch<FU> {
   static bool zero(const std::vector<FU>& v) { long s = 0, u = 0; for (auto& x : v) { s += x.fermi; u += x.u1; } return s == 0 && u == 0; }
   static FU neg(FU a) { return FU(-a.fermi, -a.u1); }
   static int par(FU a) { return a.fermi & 1; }
};
template<class Y> constexpr bool fermi = TAT::is_fermi_symmetry_v<Y>;
template<class Y> constexpr bool nosym = std::is_same_v<Y, No>;

// ---- edges
template<class Y> using Segs = std::vector<std::pair<Y, Size>>;
template<class Y> TAT::Edge<Y> edge(const Segs<Y>& s, bool arrow = false) {
   if constexpr (nosym<Y>) return TAT::Edge<Y>(s[0].second);
   else {
      std::map<Y, Size> m;
      for (auto& [y, d] : s) m[y] = d;
      if constexpr (fermi<Y>) return TAT::Edge<Y>(arrow, m);
      else return TAT::Edge<Y>(m);
   }
}
template<class Y> bool arrow_of(const TAT::Edge<Y>& e) { if constexpr (fermi<Y>) return e.arrow; else return false; }
template<class Y> Segs<Y> segs_of(const TAT::Edge<Y>& e) { Segs<Y> r; for (auto& [y, d] : e.map) r.push_back({y, d}); return r; }

// ---- element table: the meaning of a tensor, position (charge, index) per edge -> value
template<class Y> using Pos = std::vector<std::pair<Y, Size>>;
template<class S, class Y> struct Tab {
   std::vector<Name> names;
   std::vector<Segs<Y>> segs;
   std::vector<char> arrows;
   std::map<Pos<Y>, S> data;
   int index(const Name& n) const { for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return i; return -1; }
   S get(const Pos<Y>& p) const { auto it = data.find(p); return it == data.end() ? S(0) : it->second; }
};
template<class Y, class F> void each(const std::vector<Segs<Y>>& segs, F&& f) { // every position, charges summing to zero or not
   Pos<Y> p(segs.size());
   std::function<void(size_t)> rec = [&](size_t k) {
      if (k == segs.size()) { f(p); return; }
      for (auto& [y, d] : segs[k]) for (Size i = 0; i < d; i++) { p[k] = {y, i}; rec(k + 1); }
   };
   rec(0);
}
// read a tensor through its storage layout (row major inside a block, blocks keyed by charge)
template<class S, class Y> Tab<S, Y> table(const TAT::Tensor<S, Y, Name>& t) {
   Tab<S, Y> r;
   r.names.assign(t.names.begin(), t.names.end());
   for (auto& e : t.core->edges) { r.segs.push_back(segs_of<Y>(e)); r.arrows.push_back(arrow_of<Y>(e)); }
   for (auto& [ys, block] : t.core->blocks) {
      std::vector<Size> dims;
      Size total = 1;
      for (size_t i = 0; i < ys.size(); i++) { Size d = 0; for (auto& [y, k] : r.segs[i]) if (y == ys[i]) d = k; dims.push_back(d); total *= d; }
      if (block.size() != total) { sy_fail("a block does not have the size its edges say"); sy_skip(); }
      for (Size o = 0; o < total; o++) {
         Pos<Y> p(ys.size());
         Size x = o;
         for (size_t i = ys.size(); i-- > 0;) { p[i] = {ys[i], x % dims[i]}; x /= dims[i]; }
         r.data[p] = block[o];
      }
   }
   return r;
}
template<class S, class Y> void fill(TAT::Tensor<S, Y, Name>& t, const char* n) {
   for (auto& [ys, block] : t.core->blocks) for (auto& x : block) x = sym<S>(n);
}
// names consistent with name_to_index, edges and blocks exactly those the charge rule allows
template<class S, class Y> void well_formed(const TAT::Tensor<S, Y, Name>& t, const char* w) {
   std::string m = w;
   sy_assert(t.names.size() == t.core->edges.size() && t.name_to_index.size() == t.names.size(), (m + ": number of names").c_str());
   for (size_t i = 0; i < t.names.size(); i++) {
      auto it = t.name_to_index.find(t.names[i]);
      sy_assert(it != t.name_to_index.end() && it->second == i, (m + ": name to index table").c_str());
   }
   std::vector<Segs<Y>> segs;
   for (auto& e : t.core->edges) segs.push_back(segs_of<Y>(e));
   size_t expected = 0;
   std::vector<Y> ys(segs.size());
   std::function<void(size_t, Size)> rec = [&](size_t k, Size total) {
      if (k == segs.size()) {
         auto it = t.core->blocks.find(ys);
         if (Ch<Y>::zero(ys)) {
            expected++;
            sy_assert(it != t.core->blocks.end() && it->second.size() == total, (m + ": a block the charge rule allows is missing or has a wrong size").c_str());
         } else if constexpr (!nosym<Y>) sy_assert(it == t.core->blocks.end(), (m + ": a block violates charge conservation").c_str());
         return;
      }
      for (auto& [y, d] : segs[k]) { ys[k] = y; rec(k + 1, total * d); }
   };
   rec(0, 1);
   sy_assert(t.core->blocks.size() == expected, (m + ": number of blocks").c_str());
}

// ---- symbolic charges, edges, tensors
template<class Y> Y charge(const char* n, int lim) {
   if constexpr (std::is_same_v<Y, No>) return No();
   else if constexpr (std::is_same_v<Y, Z2>) return Z2(sy_bool(n));
   else if constexpr (std::is_same_v<Y, U1>) return U1(sy_i32(n, -lim, lim));
   else if constexpr (std::is_same_v<Y, F1>) return F1(sy_i16(n, -lim, lim));
   else if constexpr (std::is_same_v<Y, FZ>) { short f = sy_i16(n, -lim, lim); bool z = sy_bool(n); return FZ(f, z); }
   else { short f = sy_i16(n, -lim, lim); int u = sy_i32(n, -lim, lim); return FU(f, u); }
}
// charges of one edge in strictly increasing order (independent of the library's comparison operators)
inline bool before(No, No) { return false; }
inline bool before(Z2 a, Z2 b) { return !a.z2 && b.z2; }
inline bool before(U1 a, U1 b) { return a.u1 < b.u1; }
inline bool before(F1 a, F1 b) { return a.fermi < b.fermi; }
inline bool before(FZ a, FZ b) { return (a.fermi < b.fermi) | ((a.fermi == b.fermi) & (!a.z2 & b.z2)); }
inline bool before(FU a, FU b) { return (a.fermi < b.fermi) | ((a.fermi == b.fermi) & (a.u1 < b.u1)); }

template<class Y> Segs<Y> any_segs(const char* n, int minseg, int maxseg, int mindim, int maxdim, int lim) {
   Segs<Y> r;
   int k = nosym<Y> ? 1 : (int)sy_fork(sy_int((std::string(n) + ".segments").c_str(), minseg, maxseg));
   for (int i = 0; i < k; i++) {
      Y y = charge<Y>((std::string(n) + ".charge").c_str(), lim);
      Size d = sy_fork(sy_int((std::string(n) + ".dim").c_str(), mindim, maxdim));
      if (i) sy_assume(before(r.back().first, y));
      r.push_back({y, d});
   }
   return r;
}
// concrete charges
template<class Y> Y qn(int f, int u = 0) {
   if constexpr (std::is_same_v<Y, No>) return No();
   else if constexpr (std::is_same_v<Y, Z2>) return Z2(f & 1);
   else if constexpr (std::is_same_v<Y, U1>) return U1(f);
   else if constexpr (std::is_same_v<Y, F1>) return F1(f);
   else if constexpr (std::is_same_v<Y, FZ>) return FZ(f, u & 1);
   else return FU(f, u);
}
inline std::vector<int> any_perm(int n, const char* name = "perm") {
   std::vector<int> left, r;
   for (int i = 0; i < n; i++) left.push_back(i);
   for (int i = 0; i < n; i++) { int k = sy_fork(sy_int(name, 0, n - 1 - i)); r.push_back(left[k]); left.erase(left.begin() + k); }
   return r;
}
template<class Y> bool any_arrow(const char* n, bool split = false) {
   if constexpr (fermi<Y>) { if (split) return sy_fork(sy_int(n, 0, 1)); return sy_bool(n); }
   else return false;
}
inline Name nm(int i) { static const char* t[] = {"A", "B", "C", "D", "E", "F", "G", "H"}; return Name(t[i]); }
template<class Y> bool same_segs(const Segs<Y>& a, const Segs<Y>& b) {
   if (a.size() != b.size()) return false;
   for (size_t i = 0; i < a.size(); i++) if (!(a[i].second == b[i].second) || before(a[i].first, b[i].first) || before(b[i].first, a[i].first)) return false;
   return true;
}
template<class Y> int odd(const Y& y) { return Ch<Y>::par(y); }
// sign of bringing edges with the given charges into the order `order` (order[i]: old position of the new i-th edge)
template<class Y> int perm_sign(const std::vector<Y>& ys, const std::vector<int>& order) {
   int s = 0;
   for (size_t i = 0; i < order.size(); i++) for (size_t j = i + 1; j < order.size(); j++) if (order[i] > order[j]) s ^= odd(ys[order[i]]) & odd(ys[order[j]]);
   return s ? -1 : 1;
}
template<class Y> std::vector<Y> charges(const Pos<Y>& p) { std::vector<Y> r; for (auto& [y, i] : p) r.push_back(y); return r; }
// exactly the same names, edges and elements
template<class S, class Y> void same(const Tab<S, Y>& a, const Tab<S, Y>& b, const char* w) {
   std::string m = w;
   sy_assert(a.names == b.names, (m + ": names differ").c_str());
   if (a.names != b.names) return;
   for (size_t i = 0; i < a.names.size(); i++) {
      sy_assert(a.arrows[i] == b.arrows[i], (m + ": arrow differs").c_str());
      sy_assert(same_segs<Y>(a.segs[i], b.segs[i]), (m + ": edge differs").c_str());
   }
   sy_assert(a.data.size() == b.data.size(), (m + ": number of elements differs").c_str());
   for (auto& [p, v] : a.data) {
      auto it = b.data.find(p);
      if (it == b.data.end()) sy_fail((m + ": an element is missing").c_str());
      else eq(v, it->second, (m + ": element differs").c_str());
   }
}
template<class S, class Y> TAT::Tensor<S, Y, Name> any_tensor(const char* n, const std::vector<Name>& names, int minseg, int maxseg, int mindim, int maxdim, int lim) {
   std::vector<TAT::Edge<Y>> edges;
   for (size_t i = 0; i < names.size(); i++) { auto s = any_segs<Y>(n, minseg, maxseg, mindim, maxdim, lim); edges.push_back(edge<Y>(s, any_arrow<Y>("arrow"))); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   return t;
}
// as any_tensor, with the dimensions given: dims[i][j] is the dimension of segment j of edge i
template<class S, class Y> TAT::Tensor<S, Y, Name> shaped(const std::vector<Name>& names, const std::vector<std::vector<int>>& dims, int lim, bool split = false) {
   std::vector<TAT::Edge<Y>> edges;
   for (size_t i = 0; i < names.size(); i++) {
      Segs<Y> s;
      for (int d : dims[i]) {
         Y y = charge<Y>("charge", lim);
         if (!s.empty()) sy_assume(before(s.back().first, y));
         s.push_back({y, Size(d)});
      }
      edges.push_back(edge<Y>(s, any_arrow<Y>("arrow", split)));
   }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   return t;
}
