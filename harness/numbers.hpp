// The conversion of numbers to characters and back is the standard library's; in the symbolic run it is replaced by the facets
// below, which state its contract: integers in decimal, reals as an optional minus sign and a spelling that reads back exactly.
#pragma once
#include "streams.hpp"
#include "common.hpp"
struct Put : std::num_put<char> {
   static std::vector<double>& spelled() { static std::vector<double> v; return v; }
   iter_type digits(iter_type o, unsigned long v) const {
      if (v < 1000) { // the same without divisions
         unsigned short w = v;
         int h = 0, t = 0;
         for (int i = 100; i < 1000; i += 100) h += w >= i;
         w -= h * 100;
         for (int i = 10; i < 100; i += 10) t += w >= i;
         w -= t * 10;
         if (v >= 100) *o++ = '0' + char(h);
         if (v >= 10) *o++ = '0' + char(t);
         *o++ = '0' + char(w);
         return o;
      }
      char b[24];
      int n = 0;
      do { b[n++] = '0' + char(v % 10); v /= 10; } while (v);
      while (n--) *o++ = b[n];
      return o;
   }
   iter_type do_put(iter_type o, std::ios_base&, char, bool v) const override { *o++ = v ? '1' : '0'; return o; }
   iter_type do_put(iter_type o, std::ios_base&, char, long v) const override {
      if (v < 0) { *o++ = '-'; return digits(o, -(unsigned long)v); }
      return digits(o, v);
   }
   iter_type do_put(iter_type o, std::ios_base&, char, unsigned long v) const override { return digits(o, v); }
   iter_type do_put(iter_type o, std::ios_base&, char, long long v) const override { return do_put(o, *(std::ios_base*)nullptr, ' ', long(v)); }
   iter_type do_put(iter_type o, std::ios_base&, char, unsigned long long v) const override { return digits(o, v); }
   iter_type do_put(iter_type o, std::ios_base&, char, double v) const override {
      if (v == 0) { *o++ = '0'; return o; }
      if (v < 0) { *o++ = '-'; v = -v; }
      auto& s = spelled();
      s.push_back(v);
      unsigned long i = s.size() - 1;
      // digits, point, digits and sometimes an exponent, as the real formatter does
      o = digits(o, i);
      *o++ = '.';
      *o++ = '5';
      if (i % 2) { *o++ = 'e'; *o++ = i % 4 == 1 ? '+' : '-'; *o++ = '2'; *o++ = '0'; }
      return o;
   }
};
struct Get : std::num_get<char> {
   bool digits(iter_type& i, iter_type e, unsigned long& v) const {
      bool any = false;
      v = 0;
      while (i != e && *i >= '0' && *i <= '9') { v = v * 10 + (*i - '0'); ++i; any = true; }
      return any;
   }
   iter_type signed_(iter_type i, iter_type e, std::ios_base::iostate& err, long& v) const {
      bool minus = false;
      if (i != e && (*i == '-' || *i == '+')) { minus = *i == '-'; ++i; }
      unsigned long u;
      bool ok = digits(i, e, u);
      if (!ok) { err |= std::ios_base::failbit; u = 0; }
      if (i == e) err |= std::ios_base::eofbit;
      v = minus ? -(long)u : u;
      return i;
   }
   iter_type do_get(iter_type i, iter_type e, std::ios_base&, std::ios_base::iostate& err, bool& v) const override {
      long x;
      i = signed_(i, e, err, x);
      if (x != 0 && x != 1) err |= std::ios_base::failbit;
      v = x != 0;
      return i;
   }
   iter_type do_get(iter_type i, iter_type e, std::ios_base&, std::ios_base::iostate& err, long& v) const override { return signed_(i, e, err, v); }
   iter_type do_get(iter_type i, iter_type e, std::ios_base&, std::ios_base::iostate& err, unsigned long& v) const override { long x; i = signed_(i, e, err, x); v = x; return i; }
   iter_type do_get(iter_type i, iter_type e, std::ios_base&, std::ios_base::iostate& err, double& v) const override {
      bool minus = false;
      if (i != e && (*i == '-' || *i == '+')) { minus = *i == '-'; ++i; }
      unsigned long u = 0, w;
      bool ok = digits(i, e, u), point = false;
      if (i != e && *i == '.') {
         ++i;
         point = true;
         digits(i, e, w);
         if (i != e && *i == 'e') {
            ++i;
            if (i != e && (*i == '-' || *i == '+')) ++i;
            digits(i, e, w);
         }
      }
      if (!ok || (point && u >= Put::spelled().size())) { err |= std::ios_base::failbit; v = 0; }
      else { v = point ? Put::spelled()[u] : double(u); if (minus) v = -v; }
      if (i == e) err |= std::ios_base::eofbit;
      return i;
   }
};
inline void own_numbers() {
   if (!sy_replaying()) std::locale::global(std::locale(std::locale(std::locale::classic(), new Put), new Get));
   Put::spelled().clear();
}
