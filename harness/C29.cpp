// C29: scratch allocations are aligned, disjoint and inside memory owned by the pool; scopes nest.
#include "common.hpp"
namespace pmr = TAT::pmr;
typedef unsigned long ulong_;

struct Block { char* p; size_t n; };
struct Upstream : pmr::memory_resource { // records what it hands out
   alignas(64) char arena[1 << 15];
   size_t used = 0;
   std::vector<Block> live;
   int handed = 0, returned = 0;
   void* do_allocate(size_t n, size_t a) override {
      size_t k = sy_fork(n);
      sy_assert(a <= 16, "upstream asked for more alignment than it has");
      if (used + k + 64 > sizeof arena) sy_skip();
      char* p = arena + used;
      used += (k + 15) / 16 * 16;
      used += 16; // blocks are not adjacent
      live.push_back({p, k});
      handed++;
      return p;
   }
   void do_deallocate(void* p, size_t n, size_t) override {
      for (size_t i = 0; i < live.size(); i++) if (live[i].p == p) {
         sy_assert(live[i].n == n, "memory is given back with another size");
         live.erase(live.begin() + i);
         returned++;
         return;
      }
      sy_fail("memory is given back that was not handed out");
   }
   bool do_is_equal(const pmr::memory_resource& o) const noexcept override { return this == &o; }
};
struct Piece { ulong_ p, n; };
void within(const Piece& x, const char* buffer, size_t size, const std::vector<Block>& live, const char* w) {
   bool in = (x.p >= ulong_(buffer)) & (x.p + x.n <= ulong_(buffer) + size);
   for (auto& b : live) in |= (x.p >= ulong_(b.p)) & (x.p + x.n <= ulong_(b.p) + b.n);
   sy_assert(in, w);
}
void apart(const std::vector<Piece>& v) {
   auto& x = v.back();
   for (size_t i = 0; i + 1 < v.size(); i++) sy_assert((x.n == 0) | (v[i].n == 0) | (x.p + x.n <= v[i].p) | (v[i].p + v[i].n <= x.p), "two scratch allocations overlap");
}
void pool() {
   alignas(16) static char memory[128];
   static Upstream up;
   int shift = sy_int("offset", 0, 15);
   size_t size = sy_fork(sy_int("size", 0, 2)) * 20;
   std::vector<Piece> pieces;
   {
      pmr::monotonic_buffer_resource r(memory + shift, size, &up);
      int n = sy_tier() ? 4 : 3;
      for (int i = 0; i < n; i++) {
         size_t align = 1ul << sy_int("align", 0, 4);
         size_t bytes = sy_int("bytes", 0, i + 1 == n ? 600 : 30);
         ulong_ p = ulong_(r.allocate(bytes, align));
         sy_assert((p & (align - 1)) == 0, "scratch memory is not aligned as requested");
         pieces.push_back({p, bytes});
         within(pieces.back(), memory + shift, size, up.live, "scratch memory lies outside the pool");
         apart(pieces);
         if (i == 0) r.deallocate((void*)p, bytes, align);
      }
      if (sy_fork(sy_int("release", 0, 1))) {
         r.release();
         sy_assert(up.live.empty(), "release keeps memory");
         ulong_ p = ulong_(r.allocate(8, 8));
         sy_assert((p & 7) == 0, "scratch memory is not aligned as requested");
         within({p, 8}, memory + shift, size, up.live, "scratch memory lies outside the pool after release");
         REACH("release");
      }
   }
   sy_assert(up.live.empty() && up.handed == up.returned, "leaving the scope keeps memory");
   if (up.handed) REACH("overflow"); else REACH("fits");
}
void scopes() {
   auto* before = pmr::get_default_resource();
   static Upstream up;
   pmr::set_default_resource(&up);
   {
      TAT::scope_resource<64> outer;
      sy_assert(pmr::get_default_resource() == &outer.resource, "the scope is not in effect");
      std::vector<Piece> pieces;
      auto take = [&](char* b, size_t n, const std::vector<Block>& more, const char* w) {
         size_t bytes = sy_int("bytes", 0, 90);
         ulong_ p = ulong_(pmr::get_default_resource()->allocate(bytes, 8));
         sy_assert((p & 7) == 0, "scratch memory is not aligned as requested");
         pieces.push_back({p, bytes});
         within(pieces.back(), b, n, more, w);
         apart(pieces);
      };
      take((char*)outer.buffer, sizeof outer.buffer, up.live, "scratch memory lies outside the outer pool");
      {
         TAT::scope_resource<32> inner;
         // what does not fit the inner buffer comes from the outer pool
         std::vector<Block> more = up.live;
         more.push_back({(char*)outer.buffer, sizeof outer.buffer});
         size_t bytes = sy_int("bytes", 0, 300);
         ulong_ p = ulong_(pmr::get_default_resource()->allocate(bytes, 8));
         more = up.live;
         more.push_back({(char*)outer.buffer, sizeof outer.buffer});
         pieces.push_back({p, bytes});
         within(pieces.back(), (char*)inner.buffer, sizeof inner.buffer, more, "scratch memory lies outside both pools");
         apart(pieces);
         pieces.pop_back();
         sy_assert(pmr::get_default_resource() == &inner.resource, "the inner scope is not in effect");
      }
      sy_assert(pmr::get_default_resource() == &outer.resource, "leaving a scope does not restore the outer one");
      take((char*)outer.buffer, sizeof outer.buffer, up.live, "scratch memory lies outside the outer pool");
      // containers made in the scope use it, and hold what was put in
      pmr::vector<double> v;
      int n = sy_fork(sy_int("n", 0, 2)) * 4;
      std::vector<double> w;
      for (int i = 0; i < n; i++) { double x = sy_real("x"); v.push_back(x); w.push_back(x); }
      for (int i = 0; i < n; i++) sy_eq(v[i], w[i], "scratch vector: element differs");
      auto u = v;
      sy_assert(u.get_allocator().resource() == pmr::get_default_resource(), "scratch vector: copy uses another pool");
      for (int i = 0; i < n; i++) sy_eq(u[i], w[i], "scratch vector: element of a copy differs");
   }
   sy_assert(pmr::get_default_resource() == &up, "leaving the scope does not restore the previous pool");
   sy_assert(up.live.empty(), "leaving the scopes keeps memory");
   pmr::set_default_resource(before);
   REACH("scopes");
}
void harness() {
   if (sy_fork(sy_int("family", 0, 1)) == 0) pool();
   else scopes();
}
