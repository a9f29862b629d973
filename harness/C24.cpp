// C24: collective communication over simulated ranks: every value arrives where it should, exactly once, and nobody waits for ever.
#include "numbers.hpp"
using TAT::mpi_t;

struct Setup { int size; bool sync, backwards; };
Setup any_setup(int most) {
   Setup s;
   s.size = sy_fork(sy_int("size", 1, most));
   s.sync = sy_fork(sy_int("synchronous", 0, 1));
   s.backwards = sy_fork(sy_int("order", 0, 1));
   sim::reset(s.size, s.sync);
   return s;
}
mpi_t here(int rank) { mpi_t m; m.size = sim::size; m.rank = rank; return m; }
template<class F> bool go(const Setup& s, F&& f, const char* w) {
   bool ok = sim::run(f, s.backwards);
   sy_assert(ok, (std::string(w) + ": a rank waits for ever").c_str());
   if (ok) sy_assert(sim::all_taken(), (std::string(w) + ": a message is never received").c_str());
   return ok;
}
void broadcast() {
   auto s = any_setup(sy_tier() ? 12 : 8);
   int root = sy_fork(sy_int("root", 0, s.size - 1));
   std::vector<double> v, got(s.size, 0.);
   for (int i = 0; i < s.size; i++) v.push_back(sy_real("v"));
   if (go(s, [&](int r) { got[r] = here(r).broadcast(v[r], root); }, "broadcast")) for (int i = 0; i < s.size; i++) sy_eq(got[i], v[root], "broadcast: a rank gets another value");
   REACH("broadcast");
}
void reduce() {
   auto s = any_setup(sy_tier() ? 12 : 8);
   int root = sy_fork(sy_int("root", 0, s.size - 1));
   std::vector<double> v, got(s.size, 0.);
   double sum = 0;
   for (int i = 0; i < s.size; i++) { v.push_back(sy_real("v")); sum += v[i]; }
   if (go(s, [&](int r) { got[r] = here(r).reduce(v[r], root, [](double a, double b) { return a + b; }); }, "reduce")) sy_eq(got[root], sum, "reduce: the root does not get the combination of all values");
   REACH("reduce");
}
void transfer() {
   auto s = any_setup(sy_tier() ? 4 : 3);
   int from = sy_fork(sy_int("source", 0, s.size - 1)), to = sy_fork(sy_int("destination", 0, s.size - 1));
   if (from == to && s.sync) return; // a message to oneself needs a buffer
   std::vector<double> v, got(s.size, 0.);
   for (int i = 0; i < s.size; i++) v.push_back(sy_real("v"));
   if (go(s, [&](int r) { got[r] = here(r).send_receive(v[r], from, to); }, "send_receive")) sy_eq(got[to], v[from], "send_receive: another value arrives");
   REACH("transfer");
}
template<class Y> TAT::Tensor<double, Y, Name> small(int i) {
   TAT::Tensor<double, Y, Name> t;
   if constexpr (nosym<Y>) t = {{"A", "B"}, {2, Size(1 + i % 2)}};
   else t = {{"A", "B"}, {edge<Y>({{qn<Y>(0), 1}, {qn<Y>(1), 2}}, true), edge<Y>({{qn<Y>(-1), 1}, {qn<Y>(0), 1}})}};
   fill(t, "x");
   return t;
}
template<class Y> void tensors(const char* tag) { // the members of Tensor, several collectives one after another
   auto s = any_setup(sy_tier() ? 6 : 4);
   int root = sy_fork(sy_int("root", 0, s.size - 1)), second = (root + 1) % s.size;
   using T = TAT::Tensor<double, Y, Name>;
   std::vector<T> v, w, got(s.size), sum(s.size), moved(s.size), last(s.size);
   for (int i = 0; i < s.size; i++) { v.push_back(small<Y>(i)); w.push_back(small<Y>(0)); }
   bool ok = go(s, [&](int r) {
      TAT::mpi.size = s.size;
      TAT::mpi.rank = r;
      got[r] = v[r].broadcast(root);
      sum[r] = w[r].reduce(second, [](const T& a, const T& b) { return a + b; });
      T::barrier();
      if (s.size > 1) moved[r] = w[r].send_receive(root, second);
      last[r] = sum[r].broadcast(second);
   }, tag);
   if (ok) {
      auto want = table<double, Y>(v[root]);
      auto total = table<double, Y>(w[0]);
      for (int i = 1; i < s.size; i++) for (auto& [p, x] : table<double, Y>(w[i]).data) total.data[p] += x;
      for (int i = 0; i < s.size; i++) same(want, table<double, Y>(got[i]), "tensor broadcast");
      same(total, table<double, Y>(sum[second]), "tensor reduce");
      if (s.size > 1) same(table<double, Y>(w[root]), table<double, Y>(moved[second]), "tensor send_receive");
      for (int i = 0; i < s.size; i++) same(total, table<double, Y>(last[i]), "tensor broadcast of a reduction");
   }
   TAT::mpi.size = 1;
   TAT::mpi.rank = 0;
   REACH(tag);
}
void rejected() {
   auto s = any_setup(4);
   if (s.size == 1) return;
   int root = sy_fork(sy_int("root", -2, s.size + 1));
   bool bad = root < 0 || root >= s.size;
   if (!bad) return;
   int thrown = 0;
   sim::run([&](int r) {
      try { here(r).broadcast(1., root); } catch (const std::exception&) { thrown++; }
      try { here(r).reduce(1., root, [](double a, double b) { return a + b; }); } catch (const std::exception&) { thrown++; }
   }, false);
   sy_assert(thrown == 2 * s.size, "a root that does not exist is accepted");
   REACH("rejected");
}
void streams() {
   int size = sy_fork(sy_int("size", 1, 3)), which = sy_fork(sy_int("which", 0, size - 1));
   for (int r = 0; r < size; r++) {
      std::ostringstream one, rank;
      {
         TAT::mpi_one_output_stream o(one, r == which);
         o << "a" << 'b';
         o << "c";
         TAT::mpi_one_output_stream(one, r == which) << "d";
         TAT::mpi_rank_output_stream q(rank, size == 1 ? -1 : r);
         q << "a" << 'b';
         q << "c";
      }
      sy_assert(one.str() == (r == which ? "dabc" : ""), "the stream of one rank prints elsewhere or not");
      sy_assert(rank.str() == (size == 1 ? "abc" : std::string("[rank ") + char('0' + r) + "] abc"), "the stream of every rank prints wrongly");
   }
   REACH("streams");
}
void harness() {
   own_numbers();
   switch (sy_fork(sy_int("family", 0, 6))) {
      case 0: broadcast(); break;
      case 1: reduce(); break;
      case 2: transfer(); break;
      case 3: tensors<No>("tensors"); break;
      case 4: tensors<F1>("tensors.fermi"); break;
      case 5: rejected(); break;
      case 6: streams(); break;
   }
}
