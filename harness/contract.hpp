// Reference contraction on element tables.
#pragma once
#include "ops.hpp"
// sum over paired edges (charge y on the first, -y on the second), edges of the first then of the second;
// fermionic sign: move the paired edges next to each other, one more sign per odd paired edge whose arrow on the first tensor is unset
template<class S, class Y> Tab<S, Y> ref_contract(const Tab<S, Y>& a, const Tab<S, Y>& b, const std::vector<std::pair<Name, Name>>& pairs) {
   Tab<S, Y> r;
   std::vector<int> ca, cb, fa, fb;
   for (auto& [x, y] : pairs) if (a.index(x) >= 0 && b.index(y) >= 0) { ca.push_back(a.index(x)); cb.push_back(b.index(y)); }
   for (int i = 0; i < (int)a.names.size(); i++) if (std::find(ca.begin(), ca.end(), i) == ca.end()) { fa.push_back(i); r.names.push_back(a.names[i]); r.segs.push_back(a.segs[i]); r.arrows.push_back(a.arrows[i]); }
   for (int i = 0; i < (int)b.names.size(); i++) if (std::find(cb.begin(), cb.end(), i) == cb.end()) { fb.push_back(i); r.names.push_back(b.names[i]); r.segs.push_back(b.segs[i]); r.arrows.push_back(b.arrows[i]); }
   std::vector<int> pa = fa, pb = cb;
   pa.insert(pa.end(), ca.rbegin(), ca.rend());
   pb.insert(pb.end(), fb.begin(), fb.end());
   for (auto& [p, v] : a.data) for (auto& [q, w] : b.data) {
      bool meet = true;
      for (size_t i = 0; i < ca.size(); i++) meet = meet && p[ca[i]].second == q[cb[i]].second && eqc<Y>(p[ca[i]].first, Ch<Y>::neg(q[cb[i]].first));
      if (!meet) continue;
      int par = 0;
      if (fermi<Y>) {
         par = (perm_sign<Y>(charges<Y>(p), pa) < 0) ^ (perm_sign<Y>(charges<Y>(q), pb) < 0);
         for (size_t i = 0; i < ca.size(); i++) if (!a.arrows[ca[i]]) par ^= odd(p[ca[i]].first);
      }
      Pos<Y> o;
      for (int i : fa) o.push_back(p[i]);
      for (int i : fb) o.push_back(q[i]);
      S x = signed_<S>(par, mul(v, w));
      auto it = r.data.find(o);
      if (it == r.data.end()) r.data[o] = x; else it->second = it->second + x;
   }
   return normal(r);
}
using Pairs = std::set<std::tuple<Name, Name>>;
inline Pairs as_set(const std::vector<std::pair<Name, Name>>& p) { Pairs r; for (auto& [a, b] : p) r.insert({a, b}); return r; }
// the edge an edge can be contracted with
template<class Y> Segs<Y> conj_segs(const Segs<Y>& s) {
   Segs<Y> r;
   for (auto& [y, d] : s) r.push_back({Ch<Y>::neg(y), d});
   for (size_t i = 1; i < r.size(); i++) for (size_t j = i; j > 0 && before(r[j].first, r[j - 1].first); j--) std::swap(r[j], r[j - 1]);
   return r;
}
