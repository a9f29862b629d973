#include "contract.hpp"
template<class F> bool rejects(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template<class Y> Segs<Y> c2(Y a, Y b, Size m = 1, Size n = 1) { return {{a, m}, {b, n}}; }
Segs<No> d(Size n) { return {{No(), n}}; }
Size anyd(int lo, int hi) { return sy_fork(sy_int("dim", lo, hi)); }
template<class Y> auto point(const Y& y, Size i) { if constexpr (nosym<Y>) return i; else return std::tuple<Y, Size>{y, i}; }
template<class Y> auto einfo(bool w, const Y& y, Size i, Size n) { if constexpr (nosym<Y>) return std::tuple<Size, Size>{i, n}; else if constexpr (fermi<Y>) return std::tuple<Arrow, Y, Size, Size>{w, y, i, n}; else return std::tuple<Y, Size, Size>{y, i, n}; }
// the tensor with a single one, from the definition
template<class S, class Y> Tab<S, Y> pin(const std::vector<Name>& names, const std::vector<Segs<Y>>& segs, const std::vector<char>& arrows, const Pos<Y>& at) {
   Tab<S, Y> h;
   h.names = names; h.segs = segs; h.arrows = arrows;
   h.data[at] = S(1);
   return normal(h);
}
// shrink k edges of a tensor at chosen positions; without symmetry: plain selection; with: selection with the sign of contracting
template<class S, class Y> void shrink(const std::vector<Segs<Y>>& segs, int k, const char* tag) {
   int n = segs.size();
   auto order = any_perm(n, "order");
   std::vector<Name> names;
   std::vector<TAT::Edge<Y>> edges;
   for (int i : order) { names.push_back(nm(i)); edges.push_back(edge<Y>(segs[i], any_arrow<Y>("arrow"))); }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   auto tab = table(t);
   std::map<Name, std::decay_t<decltype(point<Y>(Y(), 0))>> conf;
   std::map<Name, std::pair<Y, Size>> where;
   std::vector<Y> ys;
   for (int i = 0; i < k; i++) {
      int pos = tab.index(nm(i));
      if (tab.segs[pos].empty()) sy_skip();
      auto& [y, dim] = tab.segs[pos][sy_fork(sy_int("segment", 0, tab.segs[pos].size() - 1))];
      if (dim == 0) sy_skip();
      Size x = sy_fork(sy_int("index", 0, dim - 1));
      conf[nm(i)] = point<Y>(y, x);
      where[nm(i)] = {y, x};
      ys.push_back(y);
   }
   Y total = sum<Y>(ys);
   bool named = sy_fork(sy_int("named", 0, 1)), arrow = any_arrow<Y>("arrow");
   bool need = !nosym<Y> && !Ch<Y>::zero(ys);
   if (!named && need) {
      sy_assert(rejects([&] { (void)t.shrink(conf); }), "shrink to a charge without a name for it is rejected");
      REACH("unnamed");
      return;
   }
   auto r = named ? t.shrink(conf, Name("new"), arrow) : t.shrink(conf);
   well_formed(r, "shrink");
   auto got = table(r);
   same(table(t), tab, "shrink changed its operand");
   if constexpr (!fermi<Y>) {
      Tab<S, Y> want;
      if (named) { want.names.push_back(Name("new")); want.segs.push_back({{total, 1}}); want.arrows.push_back(0); }
      std::vector<int> keep;
      for (int i = 0; i < n; i++) if (!where.count(tab.names[i])) { keep.push_back(i); want.names.push_back(tab.names[i]); want.segs.push_back(tab.segs[i]); want.arrows.push_back(0); }
      for (auto& [p, v] : tab.data) {
         bool here = true;
         for (int i = 0; i < n; i++) { auto it = where.find(tab.names[i]); if (it != where.end()) here = here && eqc<Y>(it->second.first, p[i].first) && it->second.second == p[i].second; }
         if (!here) continue;
         Pos<Y> o;
         if (named) o.push_back({total, 0});
         for (int i : keep) o.push_back(p[i]);
         want.data[o] = v;
      }
      // order of the edges is not part of the claim
      sy_assert(got.names.size() == want.names.size(), "shrink: number of edges");
      for (auto& m : got.names) if (want.index(m) < 0) { sy_fail("shrink: names"); return; }
      same(got, ref_transpose(normal(want), got.names), "shrink");
   } else {
      std::vector<Name> hn;
      std::vector<Segs<Y>> hs;
      std::vector<char> ha;
      Pos<Y> at;
      std::vector<std::pair<Name, Name>> pairs;
      for (int i = 0; i < n; i++) if (where.count(tab.names[i])) { auto [y, x] = where[tab.names[i]]; hn.push_back(tab.names[i]); hs.push_back({{Ch<Y>::neg(y), dim_of<Y>(tab.segs[i], y)}}); ha.push_back(!tab.arrows[i]); at.push_back({Ch<Y>::neg(y), x}); pairs.push_back({tab.names[i], tab.names[i]}); }
      if (named) { hn.push_back(Name("new")); hs.push_back({{total, 1}}); ha.push_back(arrow); at.push_back({total, 0}); }
      same(got, ref_contract<S, Y>(pin<S, Y>(hn, hs, ha, at), tab, pairs), "shrink");
   }
   REACH(tag);
}
// expand k new edges, with or without an old edge of dimension one; then shrink back
template<class S, class Y> void expand(const Segs<Y>& other, int k, const std::function<Y(int)>& charge_of, bool old, const char* tag) {
   std::vector<Y> ys;
   std::vector<Size> dims, at;
   std::vector<bool> arrows;
   std::map<Name, std::decay_t<decltype(einfo<Y>(false, Y(), 0, 0))>> conf;
   std::map<Name, std::decay_t<decltype(point<Y>(Y(), 0))>> back;
   Y total;
   for (int i = 0; i < k; i++) {
      Y y = charge_of(i);
      Size dim = sy_fork(sy_int("newdim", 1, fermi<Y> && i == 0 && !sy_tier() ? 1 : 2)), x = sy_fork(sy_int("index", 0, dim - 1));
      bool w = any_arrow<Y>("arrow");
      ys.push_back(y); dims.push_back(dim); at.push_back(x); arrows.push_back(w);
      conf[nm(4 + i)] = einfo<Y>(w, y, x, dim);
      back[nm(4 + i)] = point<Y>(y, x);
   }
   total = sum<Y>(ys);
   bool neutral = Ch<Y>::zero(ys);
   bool right = !old || nosym<Y> || sy_fork(sy_int("compatible", 0, 1));
   std::vector<Name> names{nm(0), nm(1)};
   std::vector<TAT::Edge<Y>> edges{edge<Y>(other, sy_tier() ? any_arrow<Y>("arrow") : false), edge<Y>(conj_segs<Y>(other), sy_tier() ? any_arrow<Y>("arrow") : fermi<Y>)};
   if (old) {
      Y o = total;
      if constexpr (!nosym<Y>) if (!right) o = sum<Y>({total, qn<Y>(1, 1)});
      int p = sy_fork(sy_int("place", 0, 2));
      names.insert(names.begin() + p, Name("old"));
      edges.insert(edges.begin() + p, edge<Y>(Segs<Y>{{o, 1}}, any_arrow<Y>("arrow")));
   }
   TAT::Tensor<S, Y, Name> t(names, edges);
   fill(t, "x");
   auto tab = table(t);
   if (old && tab.segs[tab.index(Name("old"))].empty()) sy_skip();
   if (!right || (!old && !neutral)) {
      sy_assert(rejects([&] { (void)(old ? t.expand(conf, Name("old")) : t.expand(conf)); }), "expand to edges of another total charge is rejected");
      REACH("rejected");
      return;
   }
   auto r = old ? t.expand(conf, Name("old")) : t.expand(conf);
   well_formed(r, "expand");
   auto got = table(r);
   same(table(t), tab, "expand changed its operand");
   Tab<S, Y> want;
   std::vector<int> keep;
   std::vector<char> wa;
   if constexpr (!fermi<Y>) {
      for (int i = 0; i < k; i++) { want.names.push_back(nm(4 + i)); want.segs.push_back({{ys[i], dims[i]}}); want.arrows.push_back(arrows[i]); }
      for (int i = 0; i < (int)tab.names.size(); i++) if (tab.names[i] != Name("old")) { keep.push_back(i); want.names.push_back(tab.names[i]); want.segs.push_back(tab.segs[i]); want.arrows.push_back(tab.arrows[i]); }
      for (auto& [p, v] : tab.data) {
         Pos<Y> o;
         for (int i = 0; i < k; i++) o.push_back({ys[i], at[i]});
         for (int i : keep) o.push_back(p[i]);
         want.data[o] = v;
      }
      sy_assert(got.names.size() == want.names.size(), "expand: number of edges");
      for (auto& m : got.names) if (want.index(m) < 0) { sy_fail("expand: names"); return; }
      same(got, ref_transpose(normal(want), got.names), "expand");
   } else {
      std::vector<Name> hn;
      std::vector<Segs<Y>> hs;
      std::vector<char> ha;
      Pos<Y> hp;
      for (int i = 0; i < k; i++) { hn.push_back(nm(4 + i)); hs.push_back({{ys[i], dims[i]}}); ha.push_back(arrows[i]); hp.push_back({ys[i], at[i]}); }
      std::vector<std::pair<Name, Name>> pairs;
      if (old) { hn.push_back(Name("old")); hs.push_back({{Ch<Y>::neg(total), 1}}); ha.push_back(!tab.arrows[tab.index(Name("old"))]); hp.push_back({Ch<Y>::neg(total), 0}); pairs.push_back({Name("old"), Name("old")}); }
      same(got, ref_contract<S, Y>(pin<S, Y>(hn, hs, ha, hp), tab, pairs), "expand");
   }
   // back again
   if constexpr (!fermi<Y>) {
      auto s = old ? r.shrink(back, Name("old")) : r.shrink(back);
      same(table(s.transpose(t.names)), tab, "shrinking what was expanded");
   } else {
      auto s = old ? r.shrink(back, Name("old"), tab.arrows[tab.index(Name("old"))]) : r.shrink(back);
      auto b = table(s.transpose(t.names));
      sy_assert(b.arrows == tab.arrows && b.data.size() == tab.data.size(), "shrinking what was expanded: shape");
      for (auto& [p, v] : tab.data) eq(mul(b.get(p), b.get(p)), mul(v, v), "shrinking what was expanded: element differs by more than a sign");
   }
   REACH(tag);
}
void harness() {
   int lim = sy_tier() ? 9 : 3;
   switch (sy_fork(sy_int("family", 0, 9))) {
      case 0: shrink<double, No>({d(anyd(0, 2)), d(anyd(0, 2))}, 1, "shrink.dense"); break;
      case 1: shrink<double, No>({d(2), d(3), d(2)}, 2, "shrink.dense2"); break;
      case 2: shrink<double, U1>({any_segs<U1>("e", 2, 2, 1, 2, lim), c2<U1>(0, 1, 2, 1)}, 1, "shrink.u1"); break;
      case 3: shrink<double, U1>({c2<U1>(-1, 0, 1, 2), c2<U1>(0, 1, 2, 1), c2<U1>(-1, 1)}, 2, "shrink.u1two"); break;
      case 4: shrink<double, F1>({c2<F1>(-1, 0), c2<F1>(0, 1, 1 + sy_tier(), 1), c2<F1>(-1, 1)}, sy_fork(sy_int("count", 1, 2)), "shrink.fermi"); break;
      case 5: expand<double, No>(d(anyd(0, 2)), 1, [&](int) { return No(); }, sy_fork(sy_int("old", 0, 1)), "expand.dense"); break;
      case 6: expand<double, No>(d(2), 2, [&](int) { return No(); }, sy_fork(sy_int("old", 0, 1)), "expand.dense2"); break;
      case 7: expand<double, U1>(c2<U1>(0, 1, 1, 2), 2, [&](int) { return U1(sy_i32("newcharge", -2, 2)); }, false, "expand.u1"); break;
      case 8: { int q = sy_fork(sy_int("total", -1, 1)); int first = sy_i32("newcharge", -2, 2); expand<double, U1>(c2<U1>(0, 1, 1, 1), 2, [&](int i) { return U1(i ? q - first : first); }, true, "expand.u1old"); break; }
      default: { int q = sy_fork(sy_int("total", -1, 1)); short first = sy_i16("newcharge", 0, 1); expand<double, F1>(c2<F1>(0, 1, 1, 1), 2, [&](int i) { return F1(i ? q - first : first); }, true, "expand.fermi"); }
   }
}
