// Shared pieces of the harnesses for the square lattice: lattices with given bond dimensions and a reference contraction.
#pragma once
#include "numbers.hpp"
#include <square/square.hpp>
using SGL = square::SamplingGradientLattice<double>;
using At = std::tuple<int, int>;
using T0 = TAT::Tensor<double>;

struct Lat {
   int M, N, d;
   std::vector<std::vector<int>> h, v; // bond to the right, bond downwards
   std::map<std::array<int, 7>, double> el; // i, j, spin, u, l, down, r
   int up(int i, int j) const { return i ? v[i - 1][j] : 1; }
   int left(int i, int j) const { return j ? h[i][j - 1] : 1; }
   int down(int i, int j) const { return i < M - 1 ? v[i][j] : 1; }
   int right(int i, int j) const { return j < N - 1 ? h[i][j] : 1; }
   // symbolic(i, j, s): are the elements of this site for spin s free? the others get small numbers
   template<class F> Lat(int M, int N, int d, int hd, int vd, F&& free) : M(M), N(N), d(d) {
      for (int i = 0; i < M; i++) { h.emplace_back(); v.emplace_back(); for (int j = 0; j < N; j++) { h[i].push_back(hd); v[i].push_back(vd); } }
      fill(free);
   }
   template<class F> void fill(F&& free) {
      int n = 0;
      for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) for (int s = 0; s < d; s++)
         for (int a = 0; a < up(i, j); a++) for (int b = 0; b < left(i, j); b++) for (int c = 0; c < down(i, j); c++) for (int e = 0; e < right(i, j); e++) {
            n = (n * 5 + 3) % 11;
            el[{i, j, s, a, b, c, e}] = free(i, j, s) ? sy_real("site") : double(n < 6 ? n + 1 : 5 - n);
         }
   }
   // the edges of every site in the order of the library, or shuffled
   T0 site(int i, int j, int turn = 0) const {
      std::vector<Name> names{"P"};
      std::vector<Size> dims{Size(d)};
      auto add = [&](const char* n, int k) { names.push_back(n); dims.push_back(k); };
      if (i) add("U", up(i, j));
      if (j) add("L", left(i, j));
      if (i < M - 1) add("D", down(i, j));
      if (j < N - 1) add("R", right(i, j));
      std::rotate(names.begin(), names.begin() + turn % names.size(), names.end());
      std::rotate(dims.begin(), dims.begin() + turn % dims.size(), dims.end());
      T0 t(names, std::vector<TAT::Edge<No>>(dims.begin(), dims.end()));
      for (int s = 0; s < d; s++) for (int a = 0; a < up(i, j); a++) for (int b = 0; b < left(i, j); b++) for (int c = 0; c < down(i, j); c++) for (int e = 0; e < right(i, j); e++) {
         std::map<Name, Size> at{{"P", s}};
         if (i) at["U"] = a;
         if (j) at["L"] = b;
         if (i < M - 1) at["D"] = c;
         if (j < N - 1) at["R"] = e;
         t.at(at) = el.at({i, j, s, a, b, c, e});
      }
      return t;
   }
   // sum over all values of all bonds; with a hole: the elements whose hole site has the given outer indices are summed without that site
   double amplitude(const std::vector<std::vector<int>>& conf, int hi = -1, int hj = -1, std::array<int, 4> out = {}) const {
      std::vector<std::vector<int>> x(M, std::vector<int>(N, 0)), y = x; // values of the bonds
      double sum = 0;
      while (true) {
         double p = 1;
         bool skip = false;
         for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
            int a = i ? y[i - 1][j] : 0, b = j ? x[i][j - 1] : 0, c = y[i][j], e = x[i][j];
            if (i == hi && j == hj) skip = skip || a != out[0] || b != out[1] || c != out[2] || e != out[3];
         }
         if (!skip) {
            for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) if (i != hi || j != hj) p *= el.at({i, j, conf[i][j], i ? y[i - 1][j] : 0, j ? x[i][j - 1] : 0, y[i][j], x[i][j]});
            sum += p;
         }
         bool more = false;
         for (int i = 0; i < M && !more; i++) for (int j = 0; j < N && !more; j++) {
            if (j < N - 1) { if (++x[i][j] < h[i][j]) more = true; else x[i][j] = 0; }
            if (!more && i < M - 1) { if (++y[i][j] < v[i][j]) more = true; else y[i][j] = 0; }
         }
         if (!more) return sum;
      }
   }
   void put(SGL& l, int turn = 0) const {
      for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) l.lattice[i][j] = site(i, j, turn ? turn + i + 2 * j : 0);
   }
};
inline void quiet() { own_numbers(); std::cout.setstate(std::ios::badbit); std::clog.setstate(std::ios::badbit); }
