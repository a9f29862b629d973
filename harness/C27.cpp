// C27: sampling of lattice configurations. The random numbers are inputs: the distributions draw symbolic values.
#include "numbers.hpp"
#include <random>
struct Draw { bool recorded = false; std::vector<int> index; std::vector<int> range; std::vector<double> unit; size_t i = 0, u = 0; };
inline Draw draw;
template<> template<> int std::uniform_int_distribution<int>::operator()(std::default_random_engine&, const param_type& p) {
   int n = p.b() - p.a() + 1;
   if (draw.recorded) return p.a() + (draw.i < draw.index.size() && draw.index[draw.i] < n ? draw.index[draw.i++] : (sy_skip(), 0));
   int k = sy_fork(sy_int("random index", 0, n - 1));
   draw.index.push_back(k);
   draw.range.push_back(n);
   return p.a() + k;
}
template<> template<> double std::uniform_real_distribution<double>::operator()(std::default_random_engine&, const param_type& p) {
   if (draw.recorded) return draw.u < draw.unit.size() ? draw.unit[draw.u++] : (sy_skip(), 0.);
   double x = sy_real("random number");
   sy_assume(x >= 0 && x < 1);
   draw.unit.push_back(x);
   return p.a() + (p.b() - p.a()) * x;
}
#include "lattice.hpp"
typedef std::vector<std::vector<int>> Conf;
typedef std::vector<At> Where;
typedef std::shared_ptr<const T0> Op;
const double big = 16; // bound of the free numbers where results are compared with a tolerance

// an operator on n sites: el[in][out] with the spins of the sites as digits, first site most significant
struct Oper {
   int n, d;
   std::vector<std::vector<double>> el;
   Op tensor() const {
      std::vector<Name> names;
      for (int k = 0; k < n; k++) names.push_back("O" + std::string(1, '0' + k));
      for (int k = 0; k < n; k++) names.push_back("I" + std::string(1, '0' + k));
      T0 t(names, std::vector<TAT::Edge<No>>(2 * n, Size(d)));
      int D = el.size();
      for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) {
         std::map<Name, Size> at;
         int x = a, y = b;
         for (int k = n; k-- > 0;) { at["I" + std::string(1, '0' + k)] = x % d; at["O" + std::string(1, '0' + k)] = y % d; x /= d; y /= d; }
         t.at(at) = el[a][b];
      }
      return std::make_shared<const T0>(std::move(t));
   }
};
int code(const Conf& c, const Where& p, int d) { int x = 0; for (auto& [i, j] : p) x = x * d + c[i][j]; return x; }
Conf with(Conf c, const Where& p, int d, int x) { for (size_t k = p.size(); k-- > 0;) { c[std::get<0>(p[k])][std::get<1>(p[k])] = x % d; x /= d; } return c; }
// sum over s' of <s|O|s'> w(s') with the operator applied as the library defines it (I: the spins of the configuration, O: those it is replaced by)
double applied(const Lat& l, const Conf& c, const Where& p, const Oper& o) {
   double s = 0;
   int a = code(c, p, l.d);
   for (size_t b = 0; b < o.el.size(); b++) s += o.el[a][b] * l.amplitude(with(c, p, l.d, b));
   return s;
}
std::vector<Conf> everything(const Lat& l) {
   std::vector<Conf> r;
   int n = 1;
   for (int k = 0; k < l.M * l.N; k++) n *= l.d;
   for (int x = 0; x < n; x++) { Conf c(l.M, std::vector<int>(l.N)); int y = x; for (auto& row : c) for (auto& s : row) { s = y % l.d; y /= l.d; } r.push_back(c); }
   return r;
}
void close(double a, double b, const char* w) { // b: exact up to rounding
   sy_assert(a - b < 1e-6 && b - a < 1e-6, w);
}
double bounded(const char* n) { double x = sy_real(n); sy_assume(x >= -big && x <= big); return x; }

// exhaustive sampling: amplitudes are fixed numbers, the operators are free
void ergodic(const char* w, int M, int N, int d, bool energy) {
   Lat l(M, N, d, 2, 1, [](int, int, int) { return false; });
   for (auto& c : everything(l)) if (l.amplitude(c) == 0) { l.el.begin()->second += 0.5; }
   for (auto& c : everything(l)) sy_assume(l.amplitude(c) != 0);
   SGL g(M, N, 1, 16, d);
   l.put(g);
   g.initialize_spin([](int, int) { return 0; });
   Oper one{1, d, {}}, two{2, d, {}};
   one.el.assign(d, std::vector<double>(d, 0));
   two.el.assign(d * d, std::vector<double>(d * d, 0));
   one.el[0][0] = bounded("one");
   one.el[0][1] = bounded("one");
   two.el[1][1] = bounded("two");
   two.el[1][2] = bounded("two");
   two.el[2][1] = -2;
   two.el[3][0] = 3;
   std::map<Where, Op> terms;
   std::map<Where, const Oper*> ref;
   auto o1 = one.tensor(), o2 = two.tensor();
   terms[{At{0, 0}}] = o1; ref[{At{0, 0}}] = &one;
   terms[{At{M - 1, N - 1}}] = o1; ref[{At{M - 1, N - 1}}] = &one;
   Where p = N > 1 ? Where{At{0, 0}, At{0, 1}} : Where{At{0, 0}, At{1, 0}}, q = M > 1 ? Where{At{1, N - 1}, At{0, N - 1}} : Where{At{0, N - 1}, At{0, N - 2}};
   terms[p] = o2; ref[p] = &two;
   if (q != p) { terms[q] = o2; ref[q] = &two; }
   std::map<std::string, std::map<Where, double>> r;
   if (energy) { g.hamiltonians = terms; r = g.ergodic({{"half", {{{At{0, 0}}, o1}}}}, true); }
   else r = g.ergodic({{"all", terms}});
   double norm = 0;
   for (auto& c : everything(l)) { double a = l.amplitude(c); norm += a * a; }
   auto& got = r.at(energy ? "Energy" : "all");
   sy_assert(got.size() == terms.size(), "ergodic: number of terms");
   for (auto& [pos, o] : ref) {
      double s = 0;
      for (auto& c : everything(l)) s += l.amplitude(c) * applied(l, c, pos, *o);
      close(got.at(pos), s / norm, "ergodic: expectation value of a term");
   }
   if (energy) sy_assert(r.size() == 2 && r.at("half").size() == 1 && r.at("half").begin()->second == got.at({At{0, 0}}), "ergodic: observables next to the energy");
   REACH(w);
}
// the same operator at a new address, and another one at an old address
void renewed() {
   Lat l(1, 2, 2, 1, 1, [](int, int, int) { return false; });
   SGL g(1, 2, 1, 16, 2);
   l.put(g);
   g.initialize_spin([](int, int) { return 0; });
   alignas(T0) static char room[sizeof(T0)];
   for (int round = 0; round < 3; round++) {
      Oper one{1, 2, {{bounded("one"), 0}, {1, 0}}};
      auto t = one.tensor();
      auto here = new (room) T0(*t);
      t.reset();
      auto r = g.ergodic({{"x", {{{At{0, 1}}, Op(here, [](const T0* p) { p->~T0(); })}}}});
      double norm = 0, s = 0;
      for (auto& c : everything(l)) { double a = l.amplitude(c); norm += a * a; s += a * applied(l, c, {At{0, 1}}, one); }
      close(r.at("x").at({At{0, 1}}), s / norm, "renewed: expectation value of an operator made where another one was");
   }
   REACH("renewed");
}
// one proposal for one term
void step(const char* w, int M, int N, int d, bool reversed) {
   int free = sy_fork(sy_int("free site", 0, M * N - 1));
   Lat l(M, N, d, 1, 1, [&](int i, int j, int) { return i * N + j == free; });
   for (auto& [k, x] : l.el) sy_assume(x != 0);
   SGL g(M, N, 1, 16, d);
   l.put(g);
   bool vertical = M > 1 && sy_fork(sy_int("vertical", 0, 1));
   Where p = vertical ? Where{At{0, N - 1}, At{1, N - 1}} : Where{At{M - 1, 0}, At{M - 1, 1}};
   int kind = sy_fork(sy_int("operator", 0, 3));
   if (kind == 0) p.pop_back();
   else if (reversed) std::swap(p[0], p[1]);
   Oper o{int(p.size()), d, {}};
   int D = kind ? d * d : d;
   o.el.assign(D, std::vector<double>(D, 0));
   for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) o.el[a][b] = kind == 1 ? (a == b || a + b == D - 1 ? 1 + a : 0) : (a * b) % 3 != 1 ? 0.5 * a - b : 0; // kind 2: not symmetric
   if (kind == 3) for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) o.el[a][b] = a == b ? a : a + b == 3 && a && b ? 1 : 0; // some configurations are not connected with any other
   // connections go both ways; the configurations have different numbers of them
   if (kind == 2) for (int a = 0; a < D; a++) for (int b = 0; b < a; b++) { if (a == 3 && b) o.el[b][a] = 0; o.el[a][b] = o.el[b][a]; }
   auto t = o.tensor();
   g.hamiltonians[p] = t;
   auto all = everything(l);
   Conf c = all[sy_fork(sy_int("configuration", 0, all.size() - 1))];
   g.initialize_spin(c);
   auto count = [&](const Conf& c) { int a = code(c, p, d), n = 0; for (int b = 0; b < D; b++) n += b != a && o.el[a][b] != 0; return n; };
   double ws = l.amplitude(c);
   draw = {};
   double got = g._markov_single_term(ws, p, t, vertical ? 'v' : 'h');
   Conf r = g.spin.configuration;
   int n = count(c);
   sy_eq(got, l.amplitude(r), "step: the amplitude returned is not that of the configuration");
   sy_eq(g.spin(), l.amplitude(r), "step: the cached amplitude is not that of the configuration");
   if (n == 0) { sy_assert(r == c, "step: a move without a connected configuration"); REACH("stuck"); return; }
   sy_assert(draw.range.size() == 1 && draw.range[0] == n && draw.unit.size() == 1, "step: proposals are not drawn evenly among the connected configurations");
   double u = draw.unit[0];
   // which configuration each index proposes: the one reached when the random number is zero
   std::set<int> seen;
   Conf prop;
   for (int k = 0; k < n; k++) {
      SGL h(M, N, 1, 16, d);
      l.put(h);
      h.initialize_spin(c);
      auto save = draw;
      draw.recorded = true;
      draw.index = {k};
      draw.unit = {0};
      draw.i = draw.u = 0;
      h._markov_single_term(ws, p, t, vertical ? 'v' : 'h');
      draw = save;
      auto& e = h.spin.configuration;
      int b = code(e, p, d);
      sy_assert(e == with(c, p, d, b) && e != c && o.el[code(c, p, d)][b] != 0, "step: a configuration is proposed that the term does not connect");
      sy_assert(seen.insert(b).second, "step: a configuration is proposed twice");
      if (k == draw.index[0]) prop = e;
   }
   double w1 = l.amplitude(prop);
   bool accept = u * (ws * ws) * count(prop) < w1 * w1 * n;
   sy_assert(accept == (r == prop), "step: acceptance");
   sy_assert(r == prop || r == c, "step: neither moved nor stayed");
   if (r == prop) REACH("accepted"); else REACH("rejected");
   REACH(w);
}
// a run of several steps is as many runs of one step; averages and gradient are those of the configurations visited
void chain(const char* w, int M, int N) {
   Lat l(M, N, 2, 1, 1, [](int, int, int) { return false; });
   double k = 1; // powers of two: quotients are exact
   for (auto& [at, x] : l.el) { x = k; k = k == 4 ? 0.5 : 2 * k; if (at[2] && at[0] == at[1]) x = -x; }
   Oper hop{2, 2, {{0.25, 0, 0, 0}, {0, -0.25, 0.5, 0}, {0, 0.5, -0.25, 0}, {0, 0, 0, 0.25}}}, field{1, 2, {{0.5, 0.25}, {0.25, -1}}};
   Oper seen{1, 2, {{0, 0}, {0, 0}}};
   for (auto& r : seen.el) for (auto& x : r) { x = bounded("observable"); sy_assume(x != 0); }
   auto t = hop.tensor(), f = field.tensor(), o = seen.tensor();
   SGL g(M, N, 1, 16, 2);
   l.put(g);
   std::map<Where, const Oper*> terms;
   auto add = [&](Where p, Op x, const Oper* y) { g.hamiltonians[p] = x; terms[p] = y; };
   if (N > 1) { if (sy_fork(sy_int("order", 0, 1))) add({At{0, 1}, At{0, 0}}, t, &hop); else add({At{0, 0}, At{0, 1}}, t, &hop); }
   if (M > 1) add({At{0, 0}, At{1, 0}}, t, &hop);
   bool with_field = sy_fork(sy_int("field", 0, 1));
   if (with_field) add({At{0, 0}}, f, &field);
   Conf c0(M, std::vector<int>(N, 0));
   c0[M - 1][N - 1] = 1;
   g.initialize_spin(c0);
   SGL h(g), q(g);
   Where at{At{M - 1, N - 1}};
   draw = {};
   int steps = N > 1 && !with_field ? sy_fork(sy_int("steps", 2, 3)) : 2;
   auto [val, var, grad] = g.markov(steps, {{"see", {{at, o}}}}, true, true);
   auto last = g.spin.configuration;
   sy_assert(draw.range.size() == draw.unit.size(), "chain: random numbers drawn");
   // again in two runs
   draw.recorded = true;
   draw.i = draw.u = 0;
   std::vector<Conf> visited;
   std::vector<double> e, v;
   for (int s = 0; s < steps; s++) {
      h.equilibrate(1);
      auto c = h.spin.configuration;
      visited.push_back(c);
      double ws = l.amplitude(c), E = 0;
      for (auto& [p, op] : terms) E += applied(l, c, p, *op) / ws;
      e.push_back(E);
      v.push_back(applied(l, c, at, seen) / ws);
   }
   sy_assert(visited.back() == last, "chain: two steps are not one step twice");
   draw.i = draw.u = 0;
   q.equilibrate(steps);
   sy_assert(q.spin.configuration == last, "chain: equilibrating in several steps");
   double mean = 0, square = 0, energy = 0;
   for (double x : v) { mean += x / steps; square += x * x / steps; }
   for (double x : e) energy += x / steps;
   close(val.at("see").at(at), mean, "chain: average of an observable");
   close(var.at("see").at(at), (square - mean * mean) / (steps - 1), "chain: variance of an average");
   for (auto& [p, op] : terms) {
      double x = 0;
      for (auto& c : visited) x += applied(l, c, p, *op) / l.amplitude(c);
      close(val.at("Energy").at(p), x / steps, "chain: average of a term");
   }
   for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) for (int s = 0; s < 2; s++) {
      double x = 0, y = 0;
      for (int k = 0; k < steps; k++) {
         auto& c = visited[k];
         double o = c[i][j] == s ? l.amplitude(c, i, j, {0, 0, 0, 0}) / l.amplitude(c) : 0;
         x += o * e[k] / steps;
         y += o / steps;
      }
      std::map<Name, Size> pos{{"P", s}};
      if (i) pos["U"] = 0;
      if (j) pos["L"] = 0;
      if (i < M - 1) pos["D"] = 0;
      if (j < N - 1) pos["R"] = 0;
      close(grad[i][j].at(pos), 2 * x - 2 * y * energy, "chain: gradient");
   }
   if (visited[0] != visited[1]) REACH("moved");
   REACH(w);
}
// a sweep tries every term
void sweep() {
   Lat l(2, 2, 2, 1, 1, [](int, int, int) { return false; });
   for (auto& [at, x] : l.el) x = 1; // every proposal is accepted
   SGL g(2, 2, 1, 16, 2);
   l.put(g);
   Oper flip{1, 2, {{0, 1}, {1, 0}}}, both{2, 2, {{0, 0, 0, 1}, {0, 0, 1, 0}, {0, 1, 0, 0}, {1, 0, 0, 0}}};
   auto f = flip.tensor(), b = both.tensor();
   int mask = sy_fork(sy_int("terms", 1, 31)), n = 0;
   std::vector<Where> places{{At{1, 0}}, {At{0, 0}, At{0, 1}}, {At{1, 1}, At{1, 0}}, {At{0, 1}, At{1, 1}}, {At{1, 0}, At{0, 0}}};
   for (int k = 0; k < 5; k++) if (mask >> k & 1) { g.hamiltonians[places[k]] = k ? b : f; n++; }
   g.initialize_spin([](int i, int j) { return i ^ j; });
   Conf c = g.spin.configuration;
   draw = {};
   draw.recorded = true;
   draw.index.assign(64, 0);
   draw.unit.assign(64, 0.5);
   g.equilibrate(1);
   sy_assert(int(draw.i) == 2 * n, "sweep: every term is tried once forwards and once backwards");
   sy_assert(g.spin.configuration == c, "sweep: flips do not cancel"); // each term twice
   bool thrown = false;
   g.hamiltonians[{At{0, 0}, At{1, 1}}] = b;
   try { g.equilibrate(1); } catch (const square::NotImplementedError&) { thrown = true; }
   sy_assert(thrown, "sweep: a term between sites that are no neighbours is accepted");
   REACH("sweep");
}
void harness() {
   quiet();
   sy_factor(1);
   switch (sy_fork(sy_int("family", 0, 9))) {
      case 0: ergodic("row", 1, 2, 2, true); break;
      case 1: ergodic("column", 2, 1, 2, false); break;
      case 2: ergodic("square", 2, 2, 2, false); break;
      case 3: ergodic("three", 1, 2, 3, false); break;
      case 4: renewed(); break;
      case 5: step("step", 2, 2, 2, false); break;
      case 6: step("step.reversed", 1, 2, 2, true); break;
      case 7: chain("chain.row", 1, 2); break;
      case 8: chain("chain.column", 2, 1); break;
      case 9: sweep(); break;
   }
}
