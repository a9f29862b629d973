// Reference semantics of the edge operations on element tables.
#pragma once
#include "common.hpp"
template<class Y> Y sum(const std::vector<Y>& v) {
   if constexpr (std::is_same_v<Y, No>) return No();
   else if constexpr (std::is_same_v<Y, Z2>) { bool z = false; for (auto& x : v) z = z != x.z2; return Z2(z); }
   else if constexpr (std::is_same_v<Y, U1>) { int u = 0; for (auto& x : v) u += x.u1; return U1(u); }
   else if constexpr (std::is_same_v<Y, F1>) { int f = 0; for (auto& x : v) f += x.fermi; return F1(f); }
   else if constexpr (std::is_same_v<Y, FZ>) { int f = 0; bool z = false; for (auto& x : v) { f += x.fermi; z = z != x.z2; } return FZ(f, z); }
   else { int f = 0, u = 0; for (auto& x : v) { f += x.fermi; u += x.u1; } return FU(f, u); }
}
template<class Y> bool eqc(const Y& a, const Y& b) { return !before(a, b) && !before(b, a); }
template<class Y> Size dim_of(const Segs<Y>& s, const Y& y) { for (auto& [z, d] : s) if (eqc<Y>(z, y)) return d; return 0; }
template<class Y> bool valid_arrow(const Segs<Y>& s) {
   if constexpr (fermi<Y>) { for (auto& [y, d] : s) if (y.fermi != 0) return true; return false; }
   else return false;
}
// all combinations of one segment per edge, last edge fastest, each with its summed charge and its offset inside the merged segment
template<class Y> struct Combo { std::vector<Y> ys; std::vector<Size> dims; Y total; Size offset; };
template<class Y> std::vector<Combo<Y>> combos(const std::vector<Segs<Y>>& segs, Segs<Y>& merged) {
   std::vector<Combo<Y>> r;
   Combo<Y> c;
   std::function<void(size_t)> rec = [&](size_t k) {
      if (k == segs.size()) {
         c.total = sum<Y>(c.ys);
         Size n = 1;
         for (auto d : c.dims) n *= d;
         size_t j = 0;
         while (j < merged.size() && !eqc<Y>(merged[j].first, c.total)) j++;
         if (j == merged.size()) merged.push_back({c.total, 0});
         c.offset = merged[j].second;
         merged[j].second += n;
         r.push_back(c);
         return;
      }
      for (auto& [y, d] : segs[k]) { c.ys.push_back(y); c.dims.push_back(d); rec(k + 1); c.ys.pop_back(); c.dims.pop_back(); }
   };
   rec(0);
   for (size_t i = 1; i < merged.size(); i++) for (size_t j = i; j > 0 && before(merged[j].first, merged[j - 1].first); j--) std::swap(merged[j], merged[j - 1]);
   return r;
}
// remove segments that occur in no charge-conserving combination; put zeros at positions no element was moved to
template<class S, class Y> Tab<S, Y> normal(Tab<S, Y> t) {
   std::vector<Segs<Y>> keep(t.segs.size());
   std::vector<std::vector<char>> used;
   for (auto& s : t.segs) used.push_back(std::vector<char>(s.size(), 0));
   std::vector<size_t> pick(t.segs.size());
   std::vector<Y> ys(t.segs.size());
   std::map<Pos<Y>, S> data;
   std::function<void(size_t)> rec = [&](size_t k) {
      if (k == t.segs.size()) {
         if (!Ch<Y>::zero(ys)) return;
         for (size_t i = 0; i < pick.size(); i++) used[i][pick[i]] = 1;
         Pos<Y> p(ys.size());
         std::function<void(size_t)> in = [&](size_t i) {
            if (i == ys.size()) { data[p] = t.get(p); return; }
            for (Size x = 0; x < t.segs[i][pick[i]].second; x++) { p[i] = {ys[i], x}; in(i + 1); }
         };
         in(0);
         return;
      }
      for (size_t j = 0; j < t.segs[k].size(); j++) { pick[k] = j; ys[k] = t.segs[k][j].first; rec(k + 1); }
   };
   rec(0);
   for (size_t i = 0; i < keep.size(); i++) for (size_t j = 0; j < used[i].size(); j++) if (used[i][j]) keep[i].push_back(t.segs[i][j]);
   t.segs = keep;
   t.data = data;
   return t;
}
template<class S> S signed_(bool minus, const S& v) { return minus ? S(-v) : v; }
template<class S, class Y> Tab<S, Y> ref_rename(Tab<S, Y> t, const std::map<Name, Name>& m) {
   for (auto& n : t.names) { auto it = m.find(n); if (it != m.end()) n = it->second; }
   return t;
}
template<class S, class Y> Tab<S, Y> ref_transpose(const Tab<S, Y>& t, const std::vector<Name>& to) {
   Tab<S, Y> r;
   std::vector<int> plan;
   for (auto& n : to) plan.push_back(t.index(n));
   r.names = to;
   for (int k : plan) { r.segs.push_back(t.segs[k]); r.arrows.push_back(t.arrows[k]); }
   for (auto& [p, v] : t.data) {
      Pos<Y> q;
      for (int k : plan) q.push_back(p[k]);
      r.data[q] = signed_<S>(fermi<Y> && perm_sign<Y>(charges<Y>(p), plan) < 0, v);
   }
   return r;
}
template<class S, class Y> Tab<S, Y> ref_reverse(Tab<S, Y> t, const std::set<Name>& names, const std::function<bool(Name)>& apply) {
   if (!fermi<Y>) return t;
   for (size_t i = 0; i < t.names.size(); i++) if (names.count(t.names[i])) {
      t.arrows[i] = !t.arrows[i];
      if (apply(t.names[i])) for (auto& [p, v] : t.data) v = signed_<S>(odd(p[i].first), v);
   }
   return t;
}
// edges of a group must be adjacent and in group order
template<class S, class Y> Tab<S, Y> ref_merge_adjacent(const Tab<S, Y>& t, const Name& into, const std::vector<Name>& group, size_t at, bool apply_merge, const std::function<bool(Name)>& apply_reverse) {
   Tab<S, Y> s = t, r;
   size_t n = group.size();
   std::vector<Segs<Y>> segs(s.segs.begin() + at, s.segs.begin() + at + n);
   bool arrow = n ? bool(s.arrows[at]) : false, fixed = false;
   std::set<Name> flip;
   for (size_t i = 0; i < n; i++) if (valid_arrow<Y>(segs[i])) {
      if (!fixed) { fixed = true; arrow = s.arrows[at + i]; }
      else if (bool(s.arrows[at + i]) != arrow) flip.insert(group[i]);
   }
   s = ref_reverse(s, flip, apply_reverse);
   Segs<Y> merged;
   auto cs = combos<Y>(segs, merged);
   for (size_t i = 0; i < at; i++) { r.names.push_back(s.names[i]); r.segs.push_back(s.segs[i]); r.arrows.push_back(s.arrows[i]); }
   r.names.push_back(into); r.segs.push_back(merged); r.arrows.push_back(arrow);
   for (size_t i = at + n; i < s.names.size(); i++) { r.names.push_back(s.names[i]); r.segs.push_back(s.segs[i]); r.arrows.push_back(s.arrows[i]); }
   for (auto& [p, v] : s.data) {
      for (auto& c : cs) {
         bool here = true;
         for (size_t i = 0; i < n; i++) here = here && eqc<Y>(c.ys[i], p[at + i].first);
         if (!here) continue;
         Size x = 0;
         int par = 0;
         for (size_t i = 0; i < n; i++) { x = x * c.dims[i] + p[at + i].second; for (size_t j = i + 1; j < n; j++) par ^= odd(c.ys[i]) & odd(c.ys[j]); }
         Pos<Y> q(p.begin(), p.begin() + at);
         q.push_back({c.total, c.offset + x});
         q.insert(q.end(), p.begin() + at + n, p.end());
         r.data[q] = signed_<S>(fermi<Y> && apply_merge && par, v);
      }
   }
   return r;
}
template<class S, class Y> Tab<S, Y> ref_split(const Tab<S, Y>& t, const Name& from, const std::vector<std::pair<Name, Segs<Y>>>& to, bool apply) {
   Tab<S, Y> r;
   int at = t.index(from);
   if (at < 0) return t;
   std::vector<Segs<Y>> segs;
   for (auto& [n, s] : to) segs.push_back(s);
   Segs<Y> merged;
   auto cs = combos<Y>(segs, merged);
   for (int i = 0; i < at; i++) { r.names.push_back(t.names[i]); r.segs.push_back(t.segs[i]); r.arrows.push_back(t.arrows[i]); }
   for (auto& [n, s] : to) { r.names.push_back(n); r.segs.push_back(s); r.arrows.push_back(t.arrows[at]); }
   for (size_t i = at + 1; i < t.names.size(); i++) { r.names.push_back(t.names[i]); r.segs.push_back(t.segs[i]); r.arrows.push_back(t.arrows[i]); }
   for (auto& [p, v] : t.data) {
      for (auto& c : cs) {
         if (!eqc<Y>(c.total, p[at].first)) continue;
         Size n = 1;
         for (auto d : c.dims) n *= d;
         if (p[at].second < c.offset || p[at].second >= c.offset + n) continue;
         Size x = p[at].second - c.offset;
         Pos<Y> mid(c.ys.size());
         for (size_t i = c.ys.size(); i-- > 0;) { mid[i] = {c.ys[i], x % c.dims[i]}; x /= c.dims[i]; }
         int par = 0;
         for (size_t i = 0; i < c.ys.size(); i++) for (size_t j = i + 1; j < c.ys.size(); j++) par ^= odd(c.ys[i]) & odd(c.ys[j]);
         Pos<Y> q(p.begin(), p.begin() + at);
         q.insert(q.end(), mid.begin(), mid.end());
         q.insert(q.end(), p.begin() + at + 1, p.end());
         r.data[q] = signed_<S>(fermi<Y> && apply && par, v);
      }
   }
   return r;
}
// merge_edge: the merged edge takes the place of the last edge of its group; an empty group gives a new first edge
template<class S, class Y> Tab<S, Y> ref_merge(const Tab<S, Y>& t, const Name& into, const std::vector<Name>& group, bool apply_merge, const std::function<bool(Name)>& apply_reverse) {
   std::vector<Name> order;
   size_t at = 0;
   for (auto& n : t.names) {
      bool in = std::find(group.begin(), group.end(), n) != group.end();
      if (!in) order.push_back(n);
      else if (n == group.back()) { at = order.size(); order.insert(order.end(), group.begin(), group.end()); }
   }
   return ref_merge_adjacent(ref_transpose(t, order), into, group, at, apply_merge, apply_reverse);
}
