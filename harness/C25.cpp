// C25: a lazy node never shows a stale value and is not evaluated again without need, over histories of operations.
#include <lazy.hpp>
#include <optional>
#include <vector>
#include <map>
#include <string>
#include "../engine/sy.h"

// reference: what every node should show, and whether it may be evaluated
enum { A, B, N1, P, N2, N3, N4, N5, COUNT };
struct State { double root[2]; bool fresh[COUNT]; };
static int evals[COUNT];

struct World {
   std::shared_ptr<lazy::root<double>> a, b;
   std::shared_ptr<lazy::node<double>> n1, n2, n3, n4, n5;
   std::shared_ptr<lazy::path<double>> p;
   State now{};
   bool late = false; // n4 exists
   bool dropped = false; // n5 is gone
   struct Saved { lazy::Snapshot snap; State state; bool late; };
   std::optional<Saved> saved;

   void build() {
      a = lazy::Root<double>();
      b = lazy::Root<double>(0.);
      n1 = lazy::Node([](double x) { evals[N1]++; return 2 * x; }, a);
      p = lazy::Path([](double x) { return x + 3; }, b);
      n5 = lazy::Node([](double x) { evals[N5]++; return x + 7; }, n1); // may be destroyed later
      n2 = lazy::Node([](double x, double y) { evals[N2]++; return x - 5 * y; }, n1, p);
      n3 = lazy::Node([](double x, double y, double z) { evals[N3]++; return x + 3 * y - z; }, n1, n2, b);
   }
   double value(int k) const {
      switch (k) {
         case A: return now.root[0];
         case B: return now.root[1];
         case N1: return 2 * value(A);
         case P: return value(B) + 3;
         case N2: return value(N1) - 5 * value(P);
         case N3: return value(N1) + 3 * value(N2) - value(B);
         case N4: return value(N2) - 2 * value(A);
         default: return value(N1) + 7;
      }
   }
   static bool depends(int k, int on) {
      if (k == on) return true;
      switch (k) {
         case N1: return depends(A, on);
         case P: return depends(B, on);
         case N2: return depends(N1, on) || depends(P, on);
         case N3: return depends(N1, on) || depends(N2, on) || depends(B, on);
         case N4: return depends(N2, on) || depends(A, on);
         case N5: return depends(N1, on);
         default: return false;
      }
   }
   void touched(int root) { for (int k = 0; k < COUNT; k++) if (depends(k, root)) now.fresh[k] = false; }
   void read(int k, const char* w) {
      int before[COUNT];
      for (int i = 0; i < COUNT; i++) before[i] = evals[i];
      double v = k == N1 ? n1->get() : k == P ? p->get() : k == N2 ? n2->get() : k == N3 ? n3->get() : k == N4 ? n4->get() : k == N5 ? n5->get() : k == A ? a->get() : b->get();
      sy_eq(v, value(k), (std::string(w) + ": stale value").c_str());
      for (int i = N1; i < COUNT; i++) {
         if (i == P) continue;
         bool needed = k >= N1 && depends(k, i) && !now.fresh[i];
         sy_assert(evals[i] - before[i] <= (needed ? 1 : 0), (std::string(w) + ": evaluated again on unchanged inputs").c_str());
      }
      if (k != P || true) for (int i = N1; i < COUNT; i++) if (i != P && depends(k, i)) now.fresh[i] = true;
   }
   void set(int k) {
      double v = sy_real("value");
      now.root[k] = v;
      touched(k);
      if (k == A) a->set(v); else { const double c = v; b->set(c); }
   }
   void save() { saved = Saved{lazy::current_graph().dump(), now, late}; }
   void restore() {
      lazy::current_graph().load(saved->snap);
      bool n4fresh = false;
      now = saved->state;
      if (!saved->late) now.fresh[N4] = n4fresh;
   }
   void add() {
      n4 = lazy::Node([](double x, double y) { evals[N4]++; return x - 2 * y; }, n2, a);
      late = true;
      now.fresh[N4] = false;
   }
   void step() {
      int op = sy_fork(sy_int("op", 0, 9));
      switch (op) {
         case 0: set(A); break;
         case 1: set(B); break;
         case 2: read(N1, "read"); break;
         case 3: read(N2, "read"); break;
         case 4: read(N3, "read"); break;
         case 5: if (late) read(N4, "read"); else add(); break;
         case 6: save(); break;
         case 7: if (!saved) sy_skip(); restore(); break;
         case 8: if (dropped) sy_skip(); n5.reset(); dropped = true; break;
         case 9: a->unset(); touched(A); set(A); break;
      }
   }
   void all(const char* w) {
      read(P, w);
      if (late) read(N4, w);
      read(N3, w);
      read(N1, w);
      if (!dropped) read(N5, w);
      read(N2, w);
      read(A, w);
      read(B, w);
   }
};
void harness() {
   World w;
   for (auto& x : evals) x = 0;
   lazy::Graph other;
   bool own = sy_fork(sy_int("graph", 0, 1));
   if (own) lazy::use_graph(other);
   w.build();
   w.set(A);
   int prologue = sy_fork(sy_int("prologue", 0, 4));
   if (prologue == 1) w.all("first read");
   if (prologue == 2) { w.save(); w.all("first read"); }
   if (prologue == 3) { w.all("first read"); w.save(); w.set(A); w.all("first read"); }
   if (prologue == 4) { w.save(); w.add(); w.all("first read"); w.set(B); w.all("first read"); }
   int n = sy_tier() ? 4 : 3;
   if (own) n--;
   for (int i = 0; i < n; i++) w.step();
   w.all("last read");
   w.all("read again");
   if (own) lazy::use_graph();
   sy_reach(own ? "own" : "default");
   if (w.saved) sy_reach("snapshot");
   if (w.late) sy_reach("late node");
   if (w.dropped) sy_reach("destroyed node");
}
