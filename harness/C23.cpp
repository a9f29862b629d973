// C23: names are interned one to one, whatever was created before.
#include "streams.hpp"
#include "common.hpp"
using TAT::FastName;

std::string any_text(int maxlen) {
   int k = sy_fork(sy_int("length", 0, maxlen));
   std::string s;
   for (int i = 0; i < k; i++) s += char(sy_u8("char", 1, 255));
   return s;
}
void check(const std::vector<std::string>& texts, const std::vector<FastName>& names) {
   for (size_t i = 0; i < texts.size(); i++) {
      const std::string& back = names[i];
      sy_assert(back == texts[i], "a name does not give its text back");
      for (size_t j = 0; j < texts.size(); j++) {
         bool same = texts[i] == texts[j];
         const FastName &a = names[i], &b = names[j];
         sy_assert((a == b) == same && (a != b) == !same, "names are equal although their texts differ, or the other way round");
         sy_assert((a < b) == (b > a) && (a <= b) == !(b < a) && (a >= b) == !(a < b), "comparison operators disagree");
         sy_assert(int(a < b) + int(b < a) + int(same) == 1, "order is not total or not consistent with equality");
         for (auto& c : names) if (a < b && b < c) sy_assert(a < c, "order is not transitive");
      }
   }
   auto& d = TAT::fast_name_dataset;
   sy_assert(d.id_to_name.size() == d.name_to_id.size() && size_t(d.names_total_index) == d.id_to_name.size(), "name table is inconsistent");
   for (auto& [n, i] : d.name_to_id) sy_assert(i >= 0 && size_t(i) < d.id_to_name.size() && d.id_to_name[i] == n, "name table does not map back");
}
void harness() {
   sy_assert(FastName() == FastName("") && std::string(FastName()) == "", "the default name is not the empty one");
   const std::string internal = sy_tier() ? "No_Old_Name" : "SVD_U";
   int total = sy_tier() ? 4 : 3;
   std::vector<std::string> texts;
   std::vector<FastName> names;
   int family = sy_fork(sy_int("family", 0, 2));
   auto create = [&](const std::string& t) {
      texts.push_back(t);
      if (texts.size() % 2) names.push_back(FastName(t));
      else names.push_back(FastName(t.c_str()));
   };
   if (family == 0) {
      for (int i = 0; i < total; i++) create(any_text(i == 0 ? 2 : 1));
      // using the names in a tensor changes nothing
      check(texts, names);
      REACH("history");
   } else if (family == 1) { // after saving, more names, and loading
      create(any_text(1));
      create(any_text(1));
      std::string saved = TAT::dump_fast_name_dataset();
      std::string other = any_text(1);
      FastName lost(other);
      TAT::load_fast_name_dataset(saved);
      create(any_text(1));
      check(texts, names);
      REACH("restored");
   } else { // texts longer than the small string buffer, one character apart
      std::string a(20, 'x'), b(20, 'x');
      a[sy_fork(sy_int("where", 0, 1)) * 19] = char(sy_u8("char", 1, 255));
      b[sy_fork(sy_int("where", 0, 1)) * 19] = char(sy_u8("char", 1, 255));
      create(a);
      create(b);
      texts.push_back("," + internal);
      names.push_back(sy_tier() ? TAT::InternalName<FastName>::No_Old_Name : TAT::InternalName<FastName>::SVD_U);
      create("," + internal);
      check(texts, names);
      REACH("long");
   }
}
