// A stand-in for MPI: the ranks of one communicator run inside one process, one at a time. A rank that would block is abandoned
// (by an exception) and run again from the start later; operations it had completed are answered from its log, so that the
// run continues where it stopped. The program of a rank is a function of what it receives, which makes this exact.
#pragma once
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include "../../engine/sy.h"
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE = 0, MPI_TAG = 0, MPI_ERROR = 0, bytes = 0; };
#define MPI_COMM_WORLD 0
#define MPI_BYTE 1
#define MPI_CHAR 1
#define MPI_UNSIGNED_CHAR 1
#define MPI_INT 4
#define MPI_UNSIGNED 4
#define MPI_LONG 8
#define MPI_UNSIGNED_LONG 8
#define MPI_UINT64_T 8
#define MPI_DOUBLE 8
#define MPI_FLOAT 4
#define MPI_UINT32_T 4
#define MPI_C_FLOAT_COMPLEX 8
#define MPI_C_DOUBLE_COMPLEX 16
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE -1
#define MPI_ANY_TAG -1
#define MPI_PROC_NULL -2
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_REQUEST_NULL 0
namespace sim {
   struct Blocked {};
   struct Message { std::string data; int tag; bool taken = false; };
   struct Log { std::string data; int source = 0, tag = 0; };
   struct Rank { std::vector<Log> done; size_t at = 0; std::vector<size_t> posted; };
   inline int size = 1, rank = 0;
   inline bool synchronous = false, progress = false;
   inline std::vector<Rank> ranks;
   inline std::map<std::pair<int, int>, std::vector<Message>> channels; // (from, to), in the order sent
   inline std::map<int, int> barriers;                                  // arrivals per barrier
   inline std::map<int, int> arrived;                                   // barriers a rank has arrived at
   inline std::map<std::pair<int, size_t>, size_t> sent;                // (rank, operation) -> index in its channel
   inline void reset(int n, bool sync) {
      size = n;
      synchronous = sync;
      ranks.assign(n, {});
      channels.clear();
      barriers.clear();
      arrived.clear();
      sent.clear();
   }
   inline Rank& me() { return ranks[rank]; }
   inline bool replay(Log& l) { auto& m = me(); if (m.at < m.done.size()) { l = m.done[m.at++]; return true; } return false; }
   inline void finish(const Log& l) { auto& m = me(); m.done.push_back(l); m.at++; progress = true; }
   inline void send(const void* data, long bytes, int to, int tag, bool block) {
      Log l;
      if (to == MPI_PROC_NULL) return;
      if (replay(l)) return;
      if (to < 0 || to >= size) { sy_fail("a message is sent to a rank that does not exist"); throw Blocked(); }
      auto key = std::make_pair(rank, me().at);
      auto& c = channels[{rank, to}];
      if (!sent.count(key)) {
         c.push_back({std::string((const char*)data, bytes), tag});
         sent[key] = c.size() - 1;
         progress = true;
      }
      if (block && synchronous && !c[sent[key]].taken) throw Blocked();
      finish(l);
   }
   // first message that matches, or nothing
   inline Message* match(int& from, int tag) {
      for (int s = 0; s < size; s++) if (from == MPI_ANY_SOURCE || from == s) {
         for (auto& m : channels[{s, rank}]) if (!m.taken && (tag == MPI_ANY_TAG || tag == m.tag)) {
            if (from == MPI_ANY_SOURCE && sy_fork(sy_int("other sender first", 0, 1))) break; // another sender may be first
            from = s;
            return &m;
         }
      }
      return nullptr;
   }
   inline Log probe(int from, int tag) {
      Log l;
      if (replay(l)) return l;
      if (from != MPI_ANY_SOURCE && (from < 0 || from >= size)) { sy_fail("a message is expected from a rank that does not exist"); throw Blocked(); }
      Message* m = match(from, tag);
      if (!m) throw Blocked();
      l.data = m->data; l.source = from; l.tag = m->tag;
      finish(l);
      return l;
   }
   inline Log receive(int from, int tag) {
      Log l;
      if (replay(l)) return l;
      if (from != MPI_ANY_SOURCE && (from < 0 || from >= size)) { sy_fail("a message is expected from a rank that does not exist"); throw Blocked(); }
      Message* m = match(from, tag);
      if (!m) throw Blocked();
      m->taken = true;
      l.data = m->data; l.source = from; l.tag = m->tag;
      finish(l);
      return l;
   }
   inline void barrier() {
      Log l;
      if (replay(l)) return;
      int k = 0;
      for (size_t i = 0; i < me().at; i++) k += me().done[i].tag == -7;
      if (arrived[rank] <= k) { arrived[rank] = k + 1; barriers[k]++; progress = true; }
      if (barriers[k] < size) throw Blocked();
      l.tag = -7;
      finish(l);
   }
   // run every rank to its end; false: no rank can go on
   template<class F> bool run(F&& program, bool backwards) {
      std::vector<char> over(size, 0);
      for (int left = size; left;) {
         progress = false;
         for (int i = 0; i < size; i++) {
            rank = backwards ? size - 1 - i : i;
            if (over[rank]) continue;
            me().at = 0;
            try {
               program(rank);
               over[rank] = 1;
               left--;
               progress = true;
            } catch (Blocked&) {}
         }
         if (!progress) return false;
      }
      return true;
   }
   inline bool all_taken() { for (auto& [k, c] : channels) for (auto& m : c) if (!m.taken) return false; return true; }
}
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Init_thread(int*, char***, int, int* p) { *p = 3; return 0; }
inline int MPI_Initialized(int* f) { *f = 1; return 0; }
inline int MPI_Finalized(int* f) { *f = 1; return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Comm_size(MPI_Comm, int* s) { *s = sim::size; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = sim::rank; return 0; }
inline int MPI_Barrier(MPI_Comm) { sim::barrier(); return 0; }
inline int MPI_Send(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { sim::send(p, long(n) * t, to, tag, true); return 0; }
inline int MPI_Ssend(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) { return MPI_Send(p, n, t, to, tag, c); }
inline int MPI_Bsend(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { sim::send(p, long(n) * t, to, tag, false); return 0; }
inline int MPI_Isend(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request* r) { sim::send(p, long(n) * t, to, tag, false); *r = 1; return 0; }
inline int MPI_Wait(MPI_Request* r, MPI_Status*) { *r = 0; return 0; }
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) { for (int i = 0; i < n; i++) r[i] = 0; return 0; }
inline void sim_status(const sim::Log& l, MPI_Status* s) { if (s) { s->MPI_SOURCE = l.source; s->MPI_TAG = l.tag; s->MPI_ERROR = 0; s->bytes = l.data.size(); } }
inline int MPI_Probe(int from, int tag, MPI_Comm, MPI_Status* s) { sim_status(sim::probe(from, tag), s); return 0; }
inline int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->bytes / t; return 0; }
inline int MPI_Recv(void* p, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status* s) {
   auto l = sim::receive(from, tag);
   if (long(l.data.size()) > long(n) * t) { sy_fail("a message is longer than the receive buffer"); throw sim::Blocked(); }
   memcpy(p, l.data.data(), l.data.size());
   sim_status(l, s);
   return 0;
}
inline int MPI_Sendrecv(const void* p, int n, MPI_Datatype t, int to, int tag, void* q, int m, MPI_Datatype u, int from, int tag2, MPI_Comm c, MPI_Status* s) {
   sim::send(p, long(n) * t, to, tag, false);
   return MPI_Recv(q, m, u, from, tag2, c, s);
}
inline int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c) {
   if (sim::rank == root) { for (int i = 0; i < sim::size; i++) if (i != root) sim::send(p, long(n) * t, i, -9, false); return 0; }
   return MPI_Recv(p, n, t, root, -9, c, nullptr);
}
inline double MPI_Wtime() { return 0; }
