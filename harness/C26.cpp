// C26: amplitudes on the square lattice do not depend on what was set and evaluated before.
#include "lattice.hpp"

typedef std::vector<std::vector<int>> Conf;
void query(const Lat& l, const SGL& g, const Conf& c, int q, const char* w0) {
   auto& s = g.spin;
   std::string w = w0;
   if (q == 0) { sy_eq(s(), l.amplitude(c), (w + ": amplitude of the configuration").c_str()); return; }
   q--;
   int sites = l.M * l.N;
   if (q < 2 * sites) { // one site flipped
      int i = q / 2 / l.N, j = q / 2 % l.N;
      auto f = c;
      f[i][j] = 1 - f[i][j];
      sy_eq(s({{At{i, j}, f[i][j]}}, 1e9, q % 2 ? 'v' : 'h'), l.amplitude(f), (w + ": amplitude with one site replaced").c_str());
      return;
   }
   q -= 2 * sites;
   if (q < 2 * sites) { // hole
      int i = q / 2 / l.N, j = q / 2 % l.N;
      T0 t = s(std::vector<At>{{i, j}}, q % 2 ? 'v' : ' ');
      for (int a = 0; a < l.up(i, j); a++) for (int b = 0; b < l.left(i, j); b++) for (int d = 0; d < l.down(i, j); d++) for (int e = 0; e < l.right(i, j); e++) {
         std::map<Name, Size> at;
         if (i) at["U0"] = a;
         if (j) at["L0"] = b;
         if (i < l.M - 1) at["D0"] = d;
         if (j < l.N - 1) at["R0"] = e;
         sy_eq(t.at(at), l.amplitude(c, i, j, {a, b, d, e}), (w + ": environment of a site").c_str());
      }
      return;
   }
   q -= 2 * sites;
   int n = 0;
   for (int i = 0; i < l.M; i++) for (int j = 0; j < l.N; j++) for (int k = 0; k < 2; k++) {
      int x = i + k, y = j + 1 - k;
      if (x >= l.M || y >= l.N) continue;
      if (n++ != q) continue;
      auto f = c;
      f[i][j] = 1 - f[i][j];
      f[x][y] = 1 - f[x][y];
      sy_eq(s({{At{i, j}, f[i][j]}, {At{x, y}, f[x][y]}}, 1e9), l.amplitude(f), (w + ": amplitude with two sites replaced").c_str());
   }
}
int queries(const Lat& l) { return 1 + 4 * l.M * l.N + l.M * (l.N - 1) + (l.M - 1) * l.N; }
// any query, any site flipped, then every query
void history(const Lat& l, int turn, const char* w) {
   SGL g(l.M, l.N, 1, 16, l.d);
   l.put(g, turn);
   Conf c(l.M, std::vector<int>(l.N, 0));
   g.initialize_spin(c);
   int first = sy_fork(sy_int("first query", 0, queries(l) - 1));
   query(l, g, c, first, w);
   int flip = sy_fork(sy_int("site changed", 0, l.M * l.N - 1));
   c[flip / l.N][flip % l.N] = 1;
   g.spin.set({flip / l.N, flip % l.N}, 1);
   int last = sy_fork(sy_int("next query", 0, queries(l) - 1));
   query(l, g, c, last, w);
   REACH(w);
}
// a query, a site changed, another query on lattices with three sites in a line (two queries out of those of the middle and the border)
void longer(int M, int N, const char* w) {
   int i0 = sy_fork(sy_int("free site", 0, M * N - 1));
   bool dir = sy_fork(sy_int("wide bonds", 0, 1));
   bool turn = sy_tier() ? sy_fork(sy_int("edge order", 0, 1)) : dir;
   Lat l(M, N, 2, dir ? 2 : 1, dir ? 1 : 2, [&](int i, int j, int) { return i * N + j == i0; });
   SGL g(M, N, 1, 64, 2);
   l.put(g, turn);
   Conf c(M, std::vector<int>(N, 0));
   for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) c[i][j] = (i + j) % 2;
   g.initialize_spin([&](int i, int j) { return c[i][j]; });
   for (int q = 0; q < queries(l); q++) query(l, g, c, q, w);
   int flip = sy_fork(sy_int("site changed", 0, M * N - 1));
   c[flip / N][flip % N] ^= 1;
   g.spin.set({flip / N, flip % N}, c[flip / N][flip % N]);
   for (int q = queries(l); q-- > 0;) query(l, g, c, q, w);
   REACH(w);
}
// what happens to the cached environments when the lattice is copied, moved, assigned, gets another cut or is configured again
void copies() {
   Lat l(2, 2, 2, 2, 1, [](int i, int j, int) { return i == j; });
   Lat k(2, 2, 2, 1, 2, [](int i, int j, int) { return i != j; });
   SGL g(2, 2, 1, 16, 2);
   l.put(g);
   Conf c{{0, 1}, {1, 1}};
   g.initialize_spin(c);
   int warm = sy_fork(sy_int("evaluated before", 0, 1));
   if (warm) for (int q = 0; q < queries(l); q++) query(l, g, c, q, "copies");
   auto all = [&](const Lat& l, const SGL& g, const Conf& c) { for (int q = 0; q < queries(l); q++) query(l, g, c, q, "copies"); };
   auto flip = [](SGL& g, Conf& c, int i, int j) { c[i][j] ^= 1; g.spin.set({i, j}, c[i][j]); };
   int kind = sy_fork(sy_int("kind", 0, 8));
   Conf e = c;
   if (kind == 0) { SGL b(g); flip(b, e, 0, 0); all(l, b, e); all(l, g, c); flip(g, c, 1, 0); all(l, g, c); all(l, b, e); }
   if (kind == 1) { SGL b(std::move(g)); flip(b, e, 1, 1); all(l, b, e); }
   if (kind == 2) { SGL b(1, 3, 2, 8, 2); b = g; flip(b, e, 0, 1); all(l, b, e); all(l, g, c); }
   if (kind == 3) { SGL b(1, 3, 2, 8, 2); b = std::move(g); flip(b, e, 1, 0); all(l, b, e); }
   if (kind == 4) { g.set_dimension_cut(32); all(l, g, c); flip(g, c, 0, 0); all(l, g, c); }
   if (kind == 5) { k.put(g); g.initialize_spin([](int, int) { return -1; }); g.initialize_spin(c); all(k, g, c); flip(g, c, 1, 1); all(k, g, c); }
   if (kind == 6) { flip(g, c, 0, 0); flip(g, c, 0, 0); all(l, g, c); flip(g, c, 0, 1); flip(g, c, 1, 0); all(l, g, c); g.initialize_spin(e); all(l, g, e); }
   if (kind == 7) { SGL b(g); k.put(g); flip(b, e, 0, 0); all(l, b, e); flip(g, c, 0, 0); flip(g, c, 0, 1); flip(g, c, 1, 0); flip(g, c, 1, 1); all(k, g, c); all(l, b, e); }
   if (kind == 8) { SGL b(1, 3, 2, 8, 2); b = g; k.put(g); flip(b, e, 1, 0); all(l, b, e); }
   REACH("copies");
}
// replacements that change nothing give back the amplitude passed in; only neighbours can be replaced together
void special() {
   Lat l(2, 3, 2, 1, 1, [](int i, int j, int) { return i == j; });
   SGL g(2, 3, 1, 16, 2);
   l.put(g);
   Conf c{{0, 1, 0}, {1, 1, 0}};
   g.initialize_spin(c);
   double ws = sy_real("ws");
   sy_eq(g.spin(std::map<At, int>{{At{0, 1}, 1}, {At{1, 2}, 0}}, ws), ws, "special: replacing spins by themselves");
   sy_eq(g.spin(std::map<At, int>{}, ws), ws, "special: replacing nothing");
   auto f = c;
   f[0][0] = 1;
   sy_eq(g.spin(std::map<At, int>{{At{0, 0}, 1}, {At{1, 2}, 0}}, ws), l.amplitude(f), "special: one of two spins changes");
   int a = sy_fork(sy_int("a", 0, 5)), b = sy_fork(sy_int("b", 0, 5));
   if (a < b) {
      int x = a / 3, y = a % 3, u = b / 3, v = b % 3;
      bool near = std::abs(x - u) + std::abs(y - v) == 1, thrown = false;
      f = c;
      f[x][y] ^= 1;
      f[u][v] ^= 1;
      double r = 0;
      try { r = g.spin(std::map<At, int>{{At{x, y}, f[x][y]}, {At{u, v}, f[u][v]}}, ws, ' '); } catch (const square::NotImplementedError&) { thrown = true; }
      if (near) { sy_assert(!thrown, "special: replacing neighbours is refused"); sy_eq(r, l.amplitude(f), "special: replacing neighbours"); }
      else if (!thrown) sy_eq(r, l.amplitude(f), "special: replacing sites that are no neighbours");
      REACH(near ? "near" : "far");
   }
}
void harness() {
   quiet();
   sy_factor(1);
   auto all = [](int, int, int) { return true; };
#if PART == 0
   switch (sy_fork(sy_int("family", 0, 2))) {
      case 0: history(Lat(2, 2, 2, 2, 2, all), 0, "square"); break;
      case 1: copies(); break;
      case 2: special(); break;
   }
#else
   switch (sy_fork(sy_int("family", 0, sy_tier() ? 4 : 3))) {
      case 0: longer(1, 3, "row"); break;
      case 1: longer(3, 1, "column"); break;
      case 2: longer(2, 3, "wide"); break;
      case 3: longer(3, 2, "tall"); break;
      case 4: longer(3, 3, "nine"); break;
   }
#endif
}
