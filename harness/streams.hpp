// Include before anything else: have the compiler instantiate the string and stream templates of the standard library in this
// translation unit (they are code on the way from the library under test to its output), instead of linking the precompiled ones.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
// the one stream operation the library under test uses that is not a template (its definition is compiled into libstdc++)
template<> inline std::istream& std::istream::ignore(std::streamsize n, int delim) {
   _M_gcount = 0;
   sentry ok(*this, true);
   if (ok && n > 0) {
      int c = rdbuf()->sgetc();
      while (true) {
         if (c == EOF) { setstate(ios_base::eofbit); break; }
         _M_gcount++;
         rdbuf()->sbumpc();
         if (c == delim || --n == 0) break;
         c = rdbuf()->sgetc();
      }
   }
   return *this;
}
