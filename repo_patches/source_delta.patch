From b34884a71e6323790cd6a08a0dcf6b4bbf742197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:04 +0000
Subject: [PATCH 01/67] fix: non-strict check of a set manifest parameter

A non-strict check asks whether the component fits into the given amount.
The set variant accepted amounts smaller than every listed value and
rejected amounts larger than all of them.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e38052d..46fd18a 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -461,7 +461,7 @@ namespace nil {
                 if (strict) {
                     return set.find(value) != set.end();
                 } else {
-                    return set.lower_bound(value) != set.end();
+                    return !set.empty() && *set.begin() <= value;
                 }
             }
 
-- 
2.43.0


From 9fc6999e6a13f8441910f081fd01fc245e78f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:04 +0000
Subject: [PATCH 02/67] fix: include the maximum itself in
 set_max_witness_amount

The constructor of compiler_manifest offers amounts up to and including
the maximum, while the setter offered one column less.
---
 include/nil/blueprint/manifest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 46fd18a..e17e18c 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -970,7 +970,7 @@ namespace nil {
 
             void set_max_witness_amount(std::uint32_t max) {
                 max_witness_columns = max;
-                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max));
+                witness_amount = std::shared_ptr<manifest_param>(new manifest_range_param(0, max + 1));
             }
 
             std::uint32_t get_max_witness_amount() const {
-- 
2.43.0


From fb926226d4b11dd9b4b06e1e29a4da0d65b701e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:04 +0000
Subject: [PATCH 03/67] fix: satisfiability, maximum and subtraction of ranges
 not starting at a multiple of the step

A range contains start, start + step, ... below finish. A range such as
(5, 6, 7) was reported as unsatisfiable, the maximum was computed as if
the range consisted of multiples of step, and removing values from the
end of a range dropped a value that had to stay. Iterating over an empty
range with finish below start yielded start.
---
 include/nil/blueprint/manifest.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index e17e18c..90ebd8b 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -401,7 +401,7 @@ namespace nil {
                 : start(start), finish(finish_), step(step) {}
 
             bool is_satisfiable() override {
-                return start < finish && std::abs(start - finish) >= int(start % step);
+                return start < finish;
             }
 
             bool check_manifest_param(std::uint32_t value, bool strict = true) override {
@@ -423,7 +423,7 @@ namespace nil {
             }
 
             manifest_param_iterator begin() const override {
-                return manifest_param_iterator(this, start);
+                return manifest_param_iterator(this, std::min(start, finish));
             }
 
             manifest_param_iterator end() const override {
@@ -436,7 +436,7 @@ namespace nil {
             }
 
             std::uint32_t max_value_if_sat() const override {
-                return finish - ((finish % step) ? (finish % step) : step);
+                return start + (finish - 1 - start) / step * step;
             }
 
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
@@ -804,7 +804,7 @@ namespace nil {
 
                 bool end_contigious = false;
                 count = 0;
-                curr_value = finish - finish % step;
+                curr_value = max_value_if_sat();
                 for (auto it = filtered_set.rbegin(); it != filtered_set.rend(); it++) {
                     if (*it != std::uint32_t(curr_value)) {
                         break;
@@ -816,7 +816,7 @@ namespace nil {
                 end_contigious = count == filtered_set.size();
                 if (end_contigious) {
                     if (curr_value > start) {
-                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value, step));
+                        return std::shared_ptr<manifest_param>(new manifest_range_param(start, curr_value + 1, step));
                     } else if (curr_value == start) {
                         return std::shared_ptr<manifest_param>(new manifest_single_value_param(start));
                     } else {
-- 
2.43.0


From 4b8a3ea9285cfb5cf523e005a066c98a3a933cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:04 +0000
Subject: [PATCH 04/67] fix: intersection of manifest ranges

Ranges with the same step but different remainders have no common value,
yet they were intersected as if aligned. The products in the computation
of the common start overflowed for ranges with larger bounds.
---
 include/nil/blueprint/manifest.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 90ebd8b..aa33c71 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -728,6 +728,9 @@ namespace nil {
                 std::uint32_t other_step = other_range->step;
                 std::int32_t new_start, new_finish, new_step;
                 if (step == other_step) {
+                    if (start % step != other_start % step) {
+                        return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                    }
                     new_start = std::max(start, other_start);
                     new_finish = std::min(finish, other_finish);
                     new_step = step;
@@ -737,13 +740,22 @@ namespace nil {
                     if (start % step_gcd != other_start % step_gcd) {
                         return std::shared_ptr<manifest_param>(new manifest_unsat_param());
                     }
-                    new_step = step * (other_step / step_gcd);
-                    std::int32_t modulo_new_step =
-                        (new_step + (other_start * int(step) * m + start * int(other_step) * n) /
-                                    step_gcd % new_step) % new_step;
-                    new_start = std::max(start, other_start);
-                    new_start = new_start + (new_step + int(modulo_new_step - new_start) % new_step) % new_step;
+                    const std::int64_t wide_step = std::int64_t(step) * (other_step / step_gcd);
+                    const std::int64_t other_coeff = std::int64_t(step / step_gcd) * m % wide_step;
+                    const std::int64_t coeff = std::int64_t(other_step / step_gcd) * n % wide_step;
+                    const std::int64_t modulo_new_step =
+                        (wide_step + (other_coeff * other_start % wide_step + coeff * start % wide_step) % wide_step) %
+                        wide_step;
+                    const std::int64_t max_start = std::max(start, other_start);
+                    const std::int64_t wide_start =
+                        max_start + (wide_step + (modulo_new_step - max_start) % wide_step) % wide_step;
                     new_finish = std::min(finish, other_finish);
+                    if (wide_start >= new_finish) {
+                        return std::shared_ptr<manifest_param>(new manifest_unsat_param());
+                    }
+                    new_start = wide_start;
+                    // A step which does not fit leaves the first value only
+                    new_step = std::min<std::int64_t>(wide_step, std::numeric_limits<std::int32_t>::max());
                 }
                 if (new_start >= new_finish) {
                     return std::shared_ptr<manifest_param>(new manifest_unsat_param());
-- 
2.43.0


From cc7608d2b5ecdf480e8d2d4373242dd0fa4baf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:04 +0000
Subject: [PATCH 05/67] fix: merging of manifest parameters with ranges

Merging assumed that ranges consist of multiples of their step, so the
result could list values neither side accepts. A range merged with a set
lying entirely below it dereferenced the end iterator of the set, and
merging with an empty range or set was treated as satisfiable.
---
 include/nil/blueprint/manifest.hpp | 38 ++++++++++++++++--------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index aa33c71..41ae1f7 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -439,6 +439,14 @@ namespace nil {
                 return start + (finish - 1 - start) / step * step;
             }
 
+            // The smallest value not less than the argument which the range would contain if it were unbounded
+            std::uint32_t first_aligned_value(std::uint32_t value) const {
+                if (value <= std::uint32_t(start)) {
+                    return start;
+                }
+                return start + (value - start + step - 1) / step * step;
+            }
+
             // Isn't strict equality: some ranges are isomorphic, and we don't check that.
             bool operator==(const manifest_range_param& other) const {
                 return start == other.start && finish == other.finish && step == other.step;
@@ -541,7 +549,7 @@ namespace nil {
                                 std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -563,9 +571,7 @@ namespace nil {
                 return std::shared_ptr<manifest_param>(new manifest_set_param(new_set));
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    this->value + (range->step - (this->value % range->step)) % range->step,
-                    range->start);
+                std::uint32_t new_start = range->first_aligned_value(this->value);
                 if (new_start < std::uint32_t(range->finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, range->finish, range->step));
@@ -579,7 +585,7 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_set_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 auto other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
@@ -613,15 +619,14 @@ namespace nil {
                 }
             } if (other_type == type::RANGE) {
                 auto range = dynamic_cast<manifest_range_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *set.lower_bound(range->start),
-                    range->start);
+                auto first = set.lower_bound(range->start);
+                std::uint32_t new_start = first != set.end() ? *first : range->start;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = set.lower_bound(new_start); it != set.end(); it++) {
                     new_set.insert(*it);
                 }
                 std::uint32_t step = range->step;
-                for (auto it = new_start + (step - new_start % step) % step; std::int32_t(it) < range->finish; it += step) {
+                for (auto it = range->first_aligned_value(new_start); it < std::uint32_t(range->finish); it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -636,13 +641,11 @@ namespace nil {
         inline std::shared_ptr<manifest_param> manifest_range_param::merge_with(std::shared_ptr<manifest_param> other) {
             using type = manifest_param::type;
             type other_type = get_manifest_param_type(other);
-            if (other_type == type::UNSAT) {
+            if (!is_satisfiable() || !other->is_satisfiable()) {
                 return std::shared_ptr<manifest_param>(new manifest_unsat_param());
             } else if (other_type == type::SINGLE_VALUE) {
                 std::uint32_t other_value = dynamic_cast<manifest_single_value_param*>(other.get())->value;
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    other_value + (step - (other_value % step)) % step,
-                    start);
+                std::uint32_t new_start = first_aligned_value(other_value);
                 if (new_start < std::uint32_t(finish)) {
                     return std::shared_ptr<manifest_param>(
                             new manifest_range_param(new_start, finish, step));
@@ -651,14 +654,13 @@ namespace nil {
                 }
             } else if (other_type == type::SET) {
                 auto other_set = dynamic_cast<manifest_set_param*>(other.get());
-                std::uint32_t new_start = std::max<std::int32_t>(
-                    *other_set->set.lower_bound(start),
-                    start);
+                auto first = other_set->set.lower_bound(start);
+                std::uint32_t new_start = first != other_set->set.end() ? *first : start;
                 std::set<std::uint32_t> new_set = {new_start};
                 for (auto it = other_set->set.lower_bound(new_start); it !=  other_set->set.end(); it++) {
                     new_set.insert(*it);
                 }
-                for (auto it = new_start + (step - new_start % step) % step; it < std::uint32_t(finish); it += step) {
+                for (auto it = first_aligned_value(new_start); it < std::uint32_t(finish); it += step) {
                     new_set.insert(it);
                 }
                 if (new_set.empty()) {
@@ -673,7 +675,7 @@ namespace nil {
                     other_range->start);
                 // technically, there are some other cases there this might be resolved as range
                 // this might be good enough though
-                if (step == other_range->step) {
+                if (step == other_range->step && start % step == other_range->start % step) {
                     std::int32_t new_finish = std::max(finish, other_range->finish);
                     if (new_start < new_finish) {
                         return std::shared_ptr<manifest_param>(
-- 
2.43.0


From da459af7a8fa84d4cbb714d9c8c413d3c8da8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:26 +0000
Subject: [PATCH 06/67] fix: place tasks of size zero in huang_lu

When all the tasks are empty the search interval was empty too, and none
of the tasks got an agent.
---
 include/nil/blueprint/detail/huang_lu.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/huang_lu.hpp b/include/nil/blueprint/detail/huang_lu.hpp
index bf17350..224a679 100644
--- a/include/nil/blueprint/detail/huang_lu.hpp
+++ b/include/nil/blueprint/detail/huang_lu.hpp
@@ -49,7 +49,8 @@ namespace nil {
                     }
                     std::size_t left = std::max((sum + agent_amount - 1) / agent_amount,
                                                 max_item);
-                    std::size_t right = 2 * left;
+                    // At least one threshold has to be tried, even if all the tasks are empty
+                    std::size_t right = std::max<std::size_t>(2 * left, 1);
                     std::unordered_map<std::size_t, std::size_t> best_assignment;
                     std::unordered_map<std::size_t, std::size_t> assignment;
                     std::list<std::pair<std::size_t, std::size_t>> tasks_remaning;
-- 
2.43.0


From ffe8120fb708b01aee412618ed2720611df7de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:36 +0000
Subject: [PATCH 07/67] fix: read lookup table values of the whole field width

The parser bounded a value by one hexadecimal digit per 16 bits of the modulus,
so a longer value was silently split and its tail read as the next column.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 8e80698..c347272 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -54,8 +54,9 @@ namespace nil {
                         using boost::spirit::qi::repeat;
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
+                        // a hexadecimal digit holds 4 bits
                         auto number = uint_parser<integral_type, 16, 1,
-                                                  (BlueprintFieldType::modulus_bits + 16 - 1) / 16>();
+                                                  (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
                         start = repeat(size)[number];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
-- 
2.43.0


From e52dc2e90bcfa30d96203ec8cadf67156f9d4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:36 +0000
Subject: [PATCH 08/67] fix: refuse a lookup table file that ends before its
 announced size

When the last line had no newline, the failed read left it in place and it was
repeated for every missing row.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index c347272..3c8ecfa 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -84,7 +84,9 @@ namespace nil {
                         column.resize(table_size);
                     }
                     for (std::size_t i = 0; i < table_size; i++) {
-                        std::getline(ist, line);
+                        if (!std::getline(ist, line)) {
+                            return false;
+                        }
                         std::vector<value_type> row;
                         value_vector_parser<decltype(line.begin()), BlueprintFieldType> parser(line_size);
                         boost::spirit::qi::ascii::space_type space;
-- 
2.43.0


From 16c168b5505ccfeff47cf82368fb09591b6e7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:36 +0000
Subject: [PATCH 09/67] fix: refuse a lookup table line with more than its
 columns

Text after the expected amount of values was dropped silently.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 3c8ecfa..0b5555e 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -90,9 +90,11 @@ namespace nil {
                         std::vector<value_type> row;
                         value_vector_parser<decltype(line.begin()), BlueprintFieldType> parser(line_size);
                         boost::spirit::qi::ascii::space_type space;
+                        auto position = line.begin();
                         bool parsing_result =
-                            boost::spirit::qi::phrase_parse(line.begin(), line.end(), parser, space, row);
-                        if (!parsing_result) {
+                            boost::spirit::qi::phrase_parse(position, line.end(), parser, space, row);
+                        // the line has to hold the row and nothing else
+                        if (!parsing_result || position != line.end()) {
                             return false;
                         }
                         for (std::size_t j = 0; j < line_size; j++) {
-- 
2.43.0


From 19bdd9e7060558f6808cf6c87f2406748a2604cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:37 +0000
Subject: [PATCH 10/67] fix: try the next lookup table file when the size line
 is unusable

A missing or unparsable size threw out of the loader, and a size beyond the file
was allocated before any row was read, so later candidate paths were never tried.
---
 .../nil/blueprint/detail/lookup_table_loaders.hpp    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 0b5555e..f12d46d 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -78,11 +78,13 @@ namespace nil {
                     std::string line;
                     // Get the table size
                     std::getline(ist, line);
-                    std::size_t table_size = std::stoull(line);
-                    result.resize(line_size);
-                    for (auto &column : result) {
-                        column.resize(table_size);
+                    std::size_t table_size;
+                    try {
+                        table_size = std::stoull(line);
+                    } catch (const std::logic_error &) {
+                        return false;
                     }
+                    result.assign(line_size, {});
                     for (std::size_t i = 0; i < table_size; i++) {
                         if (!std::getline(ist, line)) {
                             return false;
@@ -98,7 +100,7 @@ namespace nil {
                             return false;
                         }
                         for (std::size_t j = 0; j < line_size; j++) {
-                            result[j][i] = row[j];
+                            result[j].push_back(row[j]);
                         }
                     }
                     return true;
-- 
2.43.0


From 3705adf2c60deb9f69cacc18202397397581ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:55 +0000
Subject: [PATCH 11/67] fix: refuse an oversized lookup table value instead of
 splitting it

With a limit on the digits, the rest of a longer value was read as the next column.
---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index f12d46d..988e183 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -54,9 +54,8 @@ namespace nil {
                         using boost::spirit::qi::repeat;
                         using boost::phoenix::construct;
                         using boost::phoenix::val;
-                        // a hexadecimal digit holds 4 bits
-                        auto number = uint_parser<integral_type, 16, 1,
-                                                  (BlueprintFieldType::modulus_bits + 4 - 1) / 4>();
+                        // no limit on the digits: a value that is too large fails instead of being split in two
+                        auto number = uint_parser<integral_type, 16, 1, -1>();
                         start = repeat(size)[number];
 
                         boost::spirit::qi::on_error<boost::spirit::qi::fail>(
-- 
2.43.0


From ee047dd1d70b0dcb67d414a78b6a84b637815c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:55 +0000
Subject: [PATCH 12/67] fix: announce the actual size of the zkevm opcode table

It holds 3 columns and one row per opcode plus the row for unselected lines.
---
 include/nil/blueprint/lookup_library.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 755b340..48acbb0 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -134,8 +134,8 @@ namespace nil {
                     this->_table[1].push_back(0);
                     this->_table[2].push_back(0);
                 }
-                virtual std::size_t get_columns_number(){ return 1; }
-                virtual std::size_t get_rows_number(){ return 256; }
+                virtual std::size_t get_columns_number(){ return 3; }
+                virtual std::size_t get_rows_number(){ return opcodes_num + 1; }
             };
 
             class binary_xor_table_type : public lookup_table_definition{
-- 
2.43.0


From a5f5ed155952c8ef9b0ff1bb6761f4768734f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:52 +0000
Subject: [PATCH 13/67] fix: define a reserved dynamic table instead of
 replacing it

Defining a dynamic table after the reserved tables were read left the
reserved entry undefined, because a new entry took its place. The same
replacement hid a second definition of a table from the check meant to
refuse it.
---
 include/nil/blueprint/lookup_library.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/lookup_library.hpp b/include/nil/blueprint/lookup_library.hpp
index 48acbb0..e4f57b5 100644
--- a/include/nil/blueprint/lookup_library.hpp
+++ b/include/nil/blueprint/lookup_library.hpp
@@ -381,7 +381,9 @@ namespace nil {
             }
 
             void define_dynamic_table(std::string table_name, const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &lookup_table){
-                register_dynamic_table(table_name);
+                if (dynamic_tables.find(table_name) == dynamic_tables.end()) {
+                    register_dynamic_table(table_name);
+                }
                 auto table = dynamic_tables[table_name];
                 BOOST_ASSERT(!table->is_defined());
                 table->define(lookup_table);
-- 
2.43.0


From e4d1a6642f0c13148a957c82f16491601924fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 14/67] fix: give a gate of one constraint the same id however
 it is added

A constraint added on its own was not weighted like a one-element list,
so the same gate got two selectors when it was added both ways.
---
 include/nil/blueprint/gate_id.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index 763862f..e7a85f5 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -230,8 +230,8 @@ namespace nil {
 
             gate_id(const constraint_type constraint) : selector_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             gate_id(const std::initializer_list<constraint_type> &&constraints) : selector_index(0) {
@@ -337,8 +337,8 @@ namespace nil {
 
             lookup_gate_id(const constraint_type &constraint) : tag_index(0) {
                 auto value_pair = eval_constraint(constraint);
-                value_1 = value_pair.first;
-                value_2 = value_pair.second;
+                value_1 = values.get_power(0) * value_pair.first;
+                value_2 = values.get_power(0) * value_pair.second;
             }
 
             lookup_gate_id(const std::initializer_list<constraint_type> &&constraints) : tag_index(0) {
-- 
2.43.0


From bf6f2213c29f33c51ed2ecec5c7283ae23379a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 15/67] fix: keep lookups of zero in different tables apart

The identifier of a lookup constraint was the table's weight times the
weighted inputs, so it was zero for every table once all inputs are the
constant zero, and such gates were taken for each other.
---
 include/nil/blueprint/gate_id.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/gate_id.hpp b/include/nil/blueprint/gate_id.hpp
index e7a85f5..f7b034f 100644
--- a/include/nil/blueprint/gate_id.hpp
+++ b/include/nil/blueprint/gate_id.hpp
@@ -304,7 +304,9 @@ namespace nil {
                     value_2 += values.get_lookup_power(i) * evaluator_2.evaluate();
                 }
                 auto table_power = values.get_table_power(constraint.table_id);
-                return {table_power * value_1, table_power * value_2};
+                // The inputs might evaluate to zero, the table still has to matter.
+                return {table_power * (value_1 + BlueprintFieldType::value_type::one()),
+                        table_power * (value_2 + BlueprintFieldType::value_type::one())};
             }
 
             // Note that constraits have to be sorted in order to enforce equality between differently ordered gates.
-- 
2.43.0


From 767b65590b8bf38d76a71824dee1bf219682144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:48 +0000
Subject: [PATCH 16/67] fix: look values up in the rows of the subtable only

The satisfiability check searched the whole table, so it accepted values
that are outside the part of the table the lookup names.
---
 include/nil/blueprint/utils/satisfiability_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/utils/satisfiability_check.hpp b/include/nil/blueprint/utils/satisfiability_check.hpp
index 2f8799e..db61a24 100644
--- a/include/nil/blueprint/utils/satisfiability_check.hpp
+++ b/include/nil/blueprint/utils/satisfiability_check.hpp
@@ -197,7 +197,7 @@ namespace nil {
                                 // We can cache it with sorting, or use KMP, but I need a simple solution first
                                 bool found = false;
                                 BOOST_ASSERT(columns_number == input_values.size());
-                                for (std::size_t k = 0; k < table[0].size(); k++) {
+                                for (std::size_t k = subtable.begin; k <= subtable.end && k < table[0].size(); k++) {
                                     bool match = true;
                                     for (std::size_t l = 0; l < columns_number; l++) {
                                         if (table[subtable.column_indices[l]][k] != input_values[l]) {
-- 
2.43.0


From 9df6c97bf5408bbd3e525ba19c5d31b4ce515820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:10 +0000
Subject: [PATCH 17/67] fix: check the gates of a proxy on the table it stands
 for

The satisfiability check reads the columns of the table it is given, and
a proxy's own columns are empty, so no gate or lookup gate of a proxy was
ever checked.
---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 0f26a65..939c32f 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -455,7 +455,9 @@ namespace nil {
 
             const auto& selector_rows = assignments.get_used_selector_rows();
 
-            return is_satisfied(bp, assignments, used_gates, used_lookup_gates, used_copy_constraints, selector_rows);
+            // The proxies do not hold any columns, gates have to be checked on the table itself.
+            return is_satisfied(bp.get(), assignments.get(), used_gates, used_lookup_gates, {}, selector_rows) &&
+                   is_satisfied(bp, assignments, {}, {}, used_copy_constraints, {});
         }
     }    // namespace blueprint
 }    // namespace nil
-- 
2.43.0


From 233d0841bd955274dbf33c2600eb9d3bd9ffb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:10 +0000
Subject: [PATCH 18/67] fix: export the last selector and all shared rows of a
 proxy

The last selector column was left out, and with no selectors at all the
loop ran over columns that do not exist. Rows that only the shared column
has were left out as well.
---
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index 939c32f..e12b3f6 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -340,6 +340,7 @@ namespace nil {
                 }
 
                 max_size = std::max({max_witnesses_size,
+                                     max_shared_size,
                                      max_public_inputs_size,
                                      max_constants_size,
                                      max_selectors_size});
@@ -408,7 +409,7 @@ namespace nil {
                     }
                     os << "| ";
                     // Selectors only need a single bit, so we do not renew the size here
-                    for (std::uint32_t j = 0; j < selectors_size - 1; j++) {
+                    for (std::uint32_t j = 0; j < selectors_size; j++) {
                         os << (i < assignment_ptr->selector_column_size(j) ?
                                assignment_ptr->selector(j, i) : 0).data << " ";
                     }
-- 
2.43.0


From 61f61633eec71f38bb359a4298dd324c24bc1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:10 +0000
Subject: [PATCH 19/67] fix: do not claim a copy constraint the circuit left
 out

A constraint between a variable and itself or over private storage is not
added. The proxy then marked the last constraint of another proxy as its
own.
---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 5373578..0b1f1c7 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -202,8 +202,9 @@ namespace nil {
             }
 
             void add_copy_constraint(const crypto3::zk::snark::plonk_copy_constraint<BlueprintFieldType> &copy_constraint) override {
+                const std::size_t old_size = circuit_ptr->copy_constraints().size();
                 circuit_ptr->add_copy_constraint(copy_constraint);
-                if (circuit_ptr->copy_constraints().size() > 0) {
+                if (circuit_ptr->copy_constraints().size() > old_size) {
                     used_copy_constraints.insert(circuit_ptr->copy_constraints().size() - 1);
                 }
             }
-- 
2.43.0


From 9e81f901a61c69058a581e15f761a47440713391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:10 +0000
Subject: [PATCH 20/67] fix: export a proxy's circuit to the given stream only

Headings and separators of the lookup part went to the standard output.
---
 include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index 0b1f1c7..a72c1ac 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -241,7 +241,7 @@ namespace nil {
                        << copy_constraints[i].second << "\n";
                 }
 
-                std::cout << "\nlookup gates:\n";
+                os << "\nlookup gates:\n";
                 for (const auto& i : used_lookup_gates) {
                     os << i << ": selector: " << lookup_gates[i].tag_index
                        << " lookup constraints size: " << lookup_gates[i].constraints.size() << "\n";
@@ -251,12 +251,12 @@ namespace nil {
                         for (std::size_t k = 0; k < lookup_gates[i].constraints[j].lookup_input.size(); k++) {
                             os << lookup_gates[i].constraints[j].lookup_input[k] << "\n";
                         }
-                        std::cout << "\n";
+                        os << "\n";
                     }
-                    std::cout << "\n";
+                    os << "\n";
                 }
 
-                std::cout << "\nlookup tables:\n";
+                os << "\nlookup tables:\n";
                 for (const auto& i : used_lookup_tables) {
                     bool found = false;
                     for (const auto& it : lookup_table_indexes) {
-- 
2.43.0


From 03e8f2f06c3462b95db7a0339f4c9d6eb6f32f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:10 +0000
Subject: [PATCH 21/67] fix: pass selector and dynamic table calls of a proxy
 to its circuit

Gates added to a given selector, dynamic table selectors and dynamic
tables ended in the proxy's own empty state. They were lost for the
circuit, and selectors were handed out twice.
---
 .../nil/blueprint/blueprint/plonk/circuit.hpp |  2 +-
 .../blueprint/plonk/circuit_proxy.hpp         | 39 +++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 999bf92..21cbbb9 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -201,7 +201,7 @@ namespace nil {
                 _lookup_library.reserve_dynamic_table(name);
             }
 
-            std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
+            virtual std::shared_ptr<crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>> get_dynamic_table_definition(std::string name){
                 return _lookup_library.get_dynamic_table_definition(name);
             }
 
diff --git a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
index a72c1ac..b49c421 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit_proxy.hpp
@@ -46,6 +46,7 @@ namespace nil {
             using constraint_type = crypto3::zk::snark::plonk_constraint<BlueprintFieldType>;
             using lookup_constraint_type = crypto3::zk::snark::plonk_lookup_constraint<BlueprintFieldType>;
             using lookup_table_definition = typename nil::crypto3::zk::snark::lookup_table_definition<BlueprintFieldType>;
+            using dynamic_table_definition = typename nil::crypto3::zk::snark::dynamic_table_definition<BlueprintFieldType>;
 
             std::shared_ptr<circuit<ArithmetizationType>> circuit_ptr;
             std::uint32_t id;
@@ -169,6 +170,22 @@ namespace nil {
                 return selector_index;
             }
 
+            std::size_t add_gate(std::size_t selector_id, const std::vector<constraint_type> &args) override {
+                circuit_ptr->add_gate(selector_id, args);
+                used_gates.insert(circuit_ptr->gates().size() - 1);
+                return selector_id;
+            }
+
+            std::size_t add_lookup_gate(std::size_t selector_id, const std::vector<lookup_constraint_type> &args) override {
+                circuit_ptr->add_lookup_gate(selector_id, args);
+                used_lookup_gates.insert(circuit_ptr->lookup_gates().size() - 1);
+                return selector_id;
+            }
+
+            std::size_t get_dynamic_lookup_table_selector() override {
+                return circuit_ptr->get_dynamic_lookup_table_selector();
+            }
+
             const typename ArithmetizationType::lookup_table_type &lookup_table(std::size_t table_id) const override {
                 return circuit_ptr->lookup_table(table_id);
             }
@@ -187,6 +204,28 @@ namespace nil {
                 used_lookup_tables.insert(idx);
             }
 
+            void register_dynamic_table(std::string name) override {
+                circuit_ptr->register_dynamic_table(name);
+            }
+
+            void reserve_dynamic_table(std::string name) override {
+                circuit_ptr->reserve_dynamic_table(name);
+                const auto idx = circuit_ptr->get_reserved_indices().at(name) - 1;
+                used_lookup_tables.insert(idx);
+            }
+
+            void define_dynamic_table(std::string name, const crypto3::zk::snark::plonk_lookup_table<BlueprintFieldType> &table) override {
+                circuit_ptr->define_dynamic_table(name, table);
+            }
+
+            std::shared_ptr<dynamic_table_definition> get_dynamic_table_definition(std::string name) override {
+                return circuit_ptr->get_dynamic_table_definition(name);
+            }
+
+            const std::map<std::string, std::shared_ptr<dynamic_table_definition>> &get_reserved_dynamic_tables() const override {
+                return circuit_ptr->get_reserved_dynamic_tables();
+            }
+
             const typename lookup_library<BlueprintFieldType>::left_reserved_type
                     &get_reserved_indices() const override {
                 return circuit_ptr->get_reserved_indices();
-- 
2.43.0


From 4c07e2d675bd6c8e968b78c6c098763e08727cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:26 +0000
Subject: [PATCH 22/67] fix: keep constants used by gates when constants are
 batched

The rows of constants used by gates were computed from relative rotations
compared with an absolute row, so constants at rotation 0 were taken for
free cells and overwritten, and other rotations wrote outside the list.
---
 .../blueprint/blueprint/plonk/assignment.hpp  | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index df9e40e..a73d5d2 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -239,15 +239,20 @@ namespace nil {
                 if (this->constant_column_size(const_column) > start_row_index) {
                     used_constants.resize(this->constant_column_size(const_column) - start_row_index, false);
                     const auto &immutable_copy_constraints = bp.copy_constraints();
-                    auto var_check = [const_column, start_row_index](const var &variable) -> bool {
+                    auto var_check = [const_column](const var &variable) -> bool {
                         return variable.type == var::column_type::constant &&
-                                variable.index == const_column &&
-                                variable.rotation >= start_row_index;
+                                variable.index == const_column;
+                    };
+                    auto mark_used = [&used_constants, start_row_index](std::int64_t row) {
+                        const std::int64_t offset = row - std::int64_t(start_row_index);
+                        if (offset >= 0 && offset < std::int64_t(used_constants.size())) {
+                            used_constants[offset] = true;
+                        }
                     };
                     for (const auto &constraint : immutable_copy_constraints) {
                         for (const auto variable : {&(constraint.first), &(constraint.second)}) {
                             if (var_check(*variable)) {
-                                used_constants[variable->rotation - start_row_index] = true;
+                                mark_used(variable->rotation);
                             }
                         }
                     }
@@ -265,10 +270,10 @@ namespace nil {
                             visitor.visit(constraint);
                         }
                         for (const auto &variable : variable_set) {
-                            for (std::size_t row = start_row_index - 1;
+                            for (std::size_t row = 0;
                                  row < this->selector_column_size(gate.selector_index); row++) {
                                 if (this->selector(gate.selector_index, row) == value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(std::int64_t(row) + variable.rotation);
                                 }
                             }
                         }
@@ -289,10 +294,10 @@ namespace nil {
                             }
                         }
                         for (const auto &variable : variable_set) {
-                            for (std::size_t row = start_row_index - 1;
+                            for (std::size_t row = 0;
                                  row < this->selector_column_size(gate.tag_index); row++) {
                                 if (this->selector(gate.tag_index, row) == BlueprintFieldType::value_type::one()) {
-                                    used_constants[row + variable.rotation - start_row_index] = true;
+                                    mark_used(std::int64_t(row) + variable.rotation);
                                 }
                             }
                         }
-- 
2.43.0


From 1cfc263790aa8b3e4ee4e83d44755d406c98545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:21 +0000
Subject: [PATCH 23/67] fix: give the lookup logic operations an include guard
 of their own

---
 .../algebra/fields/plonk/non_native/lookup_logic_ops.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
index 0fb8aac..b8796d0 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/lookup_logic_ops.hpp
@@ -22,8 +22,8 @@
 // SOFTWARE.
 //---------------------------------------------------------------------------//
 
-#ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
-#define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
+#ifndef CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
+#define CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
 
 #include <nil/marshalling/algorithms/pack.hpp>
 
@@ -200,4 +200,4 @@ namespace nil {
     }        // namespace blueprint
 }    // namespace nil
 
-#endif    // CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_logic_OPS_HPP
+#endif    // CRYPTO3_BLUEPRINT_COMPONENTS_PLONK_NON_NATIVE_FIELDS_LOOKUP_LOGIC_OPS_HPP
-- 
2.43.0


From 834af34a1db744af774a8590050d463f49ee9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:21 +0000
Subject: [PATCH 24/67] fix: keep exponentiation to the columns it was given

---
 .../components/algebra/fields/plonk/exponentiation.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
index 35584b4..d4c2f84 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
@@ -230,7 +230,7 @@ namespace nil {
 
                         // we use first empty row to unify first row gate with others
                         assignment.witness(component.W(1), start_row_index) = 0u;
-                        assignment.witness(component.intermediate_start + component.intermediate_results_per_row - 1, start_row_index) = 1u;
+                        assignment.witness(component.W(component.intermediate_start + component.intermediate_results_per_row - 1), start_row_index) = 1u;
                         std::size_t start_row_padded = start_row_index + 1;
 
                         std::size_t current_bit = 0;
@@ -325,8 +325,8 @@ namespace nil {
 
                        	using var = typename plonk_exponentiation<BlueprintFieldType, ExponentSize>::var;
 
-                        var zero(component.W(0), start_row_index, false, var::column_type::constant);
-                        var one(component.W(0), start_row_index + 1, false, var::column_type::constant);
+                        var zero(component.C(0), start_row_index, false, var::column_type::constant);
+                        var one(component.C(0), start_row_index + 1, false, var::column_type::constant);
 
                         for (std::size_t row = start_row_index + 1; row < start_row_index + component.rows_amount; row++) {
                             bp.add_copy_constraint({{component.W(0), static_cast<int>(row), false}, instance_input.base});
-- 
2.43.0


From 8771c064986b06e533d9c75d9f169170620b042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:21 +0000
Subject: [PATCH 25/67] fix: do not write outside the bits of a too large
 exponent

---
 .../components/algebra/fields/plonk/exponentiation.hpp      | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
index d4c2f84..e8b6d72 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp
@@ -217,10 +217,8 @@ namespace nil {
                                 bbb.push_back((data - (data >> 1u << 1u)) != 0u);
                                 data = data >> 1u;
                             }
-                            for (std::uint32_t i = 1; i < component.padded_exponent_size - bbb.size(); ++i) {
-                                bits[i] = false;
-                            }
-                            for (std::uint32_t i = 0; i < bbb.size(); ++i) {
+                            // bits that do not fit are left out, so that a too large exponent is not satisfied
+                            for (std::uint32_t i = 0; i < bbb.size() && i < component.padded_exponent_size; ++i) {
                                 bits[component.padded_exponent_size - 1 - i] = bbb[i];
                             }
                         }
-- 
2.43.0


From 146840e0019ca50c3e839c2ebe566fdcd75b0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:24 +0000
Subject: [PATCH 26/67] fix: take the square root from the component's own
 column

---
 include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
index e0e2faa..f74a820 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/sqrt.hpp
@@ -318,7 +318,7 @@ namespace nil {
                 }
 
                 auto mul_instance = mul_component({component.W(0), component.W(1), component.W(2)}, {}, {});
-                var x(0, row, false);
+                var x(component.W(0), row, false);
                 var x_squared = generate_assignments(mul_instance, assignment, {x, x}, row).output;
                 row += mul_instance.rows_amount;
 
-- 
2.43.0


From 9caa5a8370567a1548f5949f2edcf886a9445fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:58 +0000
Subject: [PATCH 27/67] fix: refuse remainders outside [0, divisor) and
 division by zero

---
 .../plonk/non_native/division_remainder.hpp   | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
index c940d3d..37da329 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
@@ -62,7 +62,7 @@ namespace nil {
                 using value_type = typename BlueprintFieldType::value_type;
 
                 static std::size_t range_check_amount_internal(bool check_inputs) {
-                    return 2 + 2 * check_inputs;
+                    return 3 + 2 * check_inputs;
                 }
 
                 static bool needs_bonus_row_internal(std::size_t witness_amount) {
@@ -97,7 +97,7 @@ namespace nil {
                         return division_remainder::gates_amount;
                     }
 
-                    bool operator<(const component_gate_manifest *other) {
+                    bool operator<(const component_gate_manifest *other) const override {
                         const gate_manifest_type *other_casted =
                             dynamic_cast<const gate_manifest_type*>(other);
                         return witness_amount < other_casted->witness_amount;
@@ -262,7 +262,8 @@ namespace nil {
                 std::vector<constraint_type> constraints;
                 constraint_type division_constraint = x - y * q - r;
                 constraints.push_back(division_constraint);
-                constraint_type y_minus_r_constraint = y - r - y_minus_r;
+                // r < y, so y - r - 1 has to be non-negative
+                constraint_type y_minus_r_constraint = y - r - 1 - y_minus_r;
                 constraints.push_back(y_minus_r_constraint);
 
                 return bp.add_gate(constraints);
@@ -315,6 +316,7 @@ namespace nil {
                     x_address = component.get_var_address(var_address::X, start_row_index),
                     y_address = component.get_var_address(var_address::Y, start_row_index),
                     q_address = component.get_var_address(var_address::Q, start_row_index),
+                    r_address = component.get_var_address(var_address::R_, start_row_index),
                     y_minus_r_address = component.get_var_address(var_address::Y_MINUS_R, start_row_index);
 
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
@@ -330,14 +332,18 @@ namespace nil {
                                  {var(component.W(q_address.second), q_address.first, false)}, row);
                 row += component.range_checks[1].rows_amount;
 
+                generate_circuit(component.range_checks[2], bp, assignment,
+                                 {var(component.W(r_address.second), r_address.first, false)}, row);
+                row += component.range_checks[2].rows_amount;
+
                 if (component.check_inputs) {
-                    generate_circuit(component.range_checks[2], bp, assignment,
+                    generate_circuit(component.range_checks[3], bp, assignment,
                                      {var(component.W(x_address.second), x_address.first, false)}, row);
-                    row += component.range_checks[2].rows_amount;
+                    row += component.range_checks[3].rows_amount;
 
-                    generate_circuit(component.range_checks[3], bp, assignment,
+                    generate_circuit(component.range_checks[4], bp, assignment,
                                      {var(component.W(y_address.second), y_address.first, false)}, row);
-                    row += component.range_checks[3].rows_amount;
+                    row += component.range_checks[4].rows_amount;
                 }
 
                 BOOST_ASSERT(row == start_row_index + component.rows_amount);
@@ -386,7 +392,7 @@ namespace nil {
                 assignment.witness(component.W(y_address.second), y_address.first) = y;
                 assignment.witness(component.W(r_address.second), r_address.first) = r;
                 assignment.witness(component.W(q_address.second), q_address.first) = q;
-                assignment.witness(component.W(y_minus_r_address.second), y_minus_r_address.first) = y - r;
+                assignment.witness(component.W(y_minus_r_address.second), y_minus_r_address.first) = y - r - 1;
                 row += 1 + component.needs_bonus_row;
 
                 generate_assignments(component.range_checks[0], assignment,
@@ -397,14 +403,18 @@ namespace nil {
                                      {var(component.W(q_address.second), q_address.first, false)}, row);
                 row += component.range_checks[1].rows_amount;
 
+                generate_assignments(component.range_checks[2], assignment,
+                                     {var(component.W(r_address.second), r_address.first, false)}, row);
+                row += component.range_checks[2].rows_amount;
+
                 if (component.check_inputs) {
-                    generate_assignments(component.range_checks[2], assignment,
+                    generate_assignments(component.range_checks[3], assignment,
                                          {var(component.W(x_address.second), x_address.first, false)}, row);
-                    row += component.range_checks[2].rows_amount;
+                    row += component.range_checks[3].rows_amount;
 
-                    generate_assignments(component.range_checks[3], assignment,
+                    generate_assignments(component.range_checks[4], assignment,
                                          {var(component.W(y_address.second), y_address.first, false)}, row);
-                    row += component.range_checks[3].rows_amount;
+                    row += component.range_checks[4].rows_amount;
                 }
 
                 BOOST_ASSERT(row == start_row_index + component.rows_amount);
-- 
2.43.0


From 3f2d51fd2d505879269f48c03e7dc7e699a74862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:58 +0000
Subject: [PATCH 28/67] fix: keep bits apart when decomposing without
 constraints on few columns

---
 .../fields/plonk/non_native/bit_decomposition.hpp     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
index 544ad56..0047f68 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp
@@ -104,7 +104,10 @@ namespace nil {
                 }
 
                 const bit_composition_mode mode;
-                const std::size_t empty_rows_amount = get_empty_rows_amount(this->bits_amount, this->mode);
+                // without constraints bits are put in rows of 9, or of all the columns if there are fewer
+                const std::size_t empty_row_bits = std::min<std::size_t>(9, this->witness_amount());
+                const std::size_t empty_rows_amount =
+                    (this->bits_amount + empty_row_bits - 1) / empty_row_bits;
                 const std::string component_name = "bit_decomposition";
 
                 struct input_type {
@@ -135,7 +138,8 @@ namespace nil {
                         output.resize(component.bits_amount);
 
                         for (std::size_t i = 0; i < component.bits_amount; i++) {
-                            output[i] = var(component.W(i % 9), start_row_index + i / 9, false);
+                            output[i] = var(component.W(i % component.empty_row_bits),
+                                            start_row_index + i / component.empty_row_bits, false);
                         }
                     }
 
@@ -254,7 +258,8 @@ namespace nil {
                 std::vector<bool> bits = component_type::calculate(input_data, component.bits_amount, component.mode);
 
                 for (std::size_t i = 0; i < component.bits_amount; i++) {
-                    assignment.witness(component.W(i % 9), start_row_index + i / 9) = value_type(bits[i] ? 1 : 0);
+                    assignment.witness(component.W(i % component.empty_row_bits),
+                                       start_row_index + i / component.empty_row_bits) = value_type(bits[i] ? 1 : 0);
                 }
 
                 return typename plonk_bit_decomposition<BlueprintFieldType>::result_type(
-- 
2.43.0


From b4fbceb70ea99a826ca228b74e8525163abafaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:58 +0000
Subject: [PATCH 29/67] fix: start constant powers from one and return their
 last cell

---
 .../snark/plonk/flexible/constant_pow.hpp     | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
index cdee480..b55df76 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp
@@ -34,6 +34,10 @@
 #include <nil/blueprint/component.hpp>
 #include <nil/blueprint/manifest.hpp>
 
+#include <algorithm>
+#include <set>
+#include <vector>
+
 namespace nil {
     namespace blueprint {
         namespace components {
@@ -45,7 +49,7 @@ namespace nil {
             std::size_t integral_type_log2(typename BlueprintFieldType::integral_type pow){
                 std::size_t result = 0;
                 typename BlueprintFieldType::integral_type a = 1;
-                while( a < pow ){
+                while( a <= pow ){
                     a *= 2;
                     result++;
                 }
@@ -94,19 +98,21 @@ namespace nil {
                         // related to pow
                         std::size_t one_row_cells = _witness_amount-2;
                         std::vector<std::size_t> four_chunks = integral_type_four_chunks<BlueprintFieldType>(_pow);
-                        std::vector<typename BlueprintFieldType::integral_type> larger_chunks;
-                        std::size_t cur = 0;
-                        for(std::size_t i = 0; i < four_chunks.size(); i++){
-                            if ( i%one_row_cells == 0 ){
-                                larger_chunks.push_back(0);
-                                cur++;
-                            }
-                            larger_chunks[cur-1] *= 4;
-                            larger_chunks[cur-1] += four_chunks[i];
+                        // rows with the same digits share a gate, except for the first one
+                        std::set<std::vector<std::size_t>> unique_chunks;
+                        for(std::size_t i = one_row_cells; i < four_chunks.size(); i += one_row_cells){
+                            unique_chunks.insert(std::vector<std::size_t>(
+                                four_chunks.begin() + i,
+                                four_chunks.begin() + std::min(i + one_row_cells, four_chunks.size())));
                         }
-                        std::vector<typename BlueprintFieldType::integral_type> unique_chunks;
-                        std::unique_copy(larger_chunks.begin(), larger_chunks.end(), std::back_inserter(unique_chunks));
-                        return unique_chunks.size();
+                        return 1 + unique_chunks.size();
+                    }
+
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
+                        return _witness_amount < other._witness_amount ||
+                               (_witness_amount == other._witness_amount && _pow < other._pow);
                     }
                 };
 
@@ -155,7 +161,7 @@ namespace nil {
                     result_type(const flexible_constant_pow &component, std::size_t start_row_index) {
                         // TODO define output var
                         std::size_t witness_amount = component.witness_amount();
-                        std::size_t last_column_id = component.four_chunks.size()%(witness_amount - 2) + 1;
+                        std::size_t last_column_id = (component.four_chunks.size() - 1)%(witness_amount - 2) + 2;
                         y = var(component.W(last_column_id), start_row_index + component.rows_amount-1, false);
                     }
 
@@ -261,6 +267,10 @@ namespace nil {
                     std::vector<constraint_type> constraints;
                     var x_var = var(component.W(0),0,true);
 
+                    // the first row starts from x^0
+                    if (row == 0) {
+                        constraints.push_back(var(component.W(1), 0, true) - 1);
+                    }
                     for (std::size_t cell = 2; cell < witness_amount; cell++ ) {
                         if (cur < four_chunks.size()) {
                             var cur_var = var(component.W(cell),0,true);
-- 
2.43.0


From 1716868e787521e49663dd2407ed5eff34d06287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:12 +0000
Subject: [PATCH 30/67] fix: let allowed widths depend on the parameters of
 each call

---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp      | 2 +-
 .../algebra/fields/plonk/non_native/comparison_flag.hpp         | 2 +-
 .../blueprint/components/algebra/fields/plonk/range_check.hpp   | 2 +-
 .../components/systems/snark/plonk/flexible/pow_factor.hpp      | 2 +-
 .../systems/snark/plonk/placeholder/fri_array_swap.hpp          | 2 +-
 .../components/systems/snark/plonk/placeholder/fri_cosets.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 2fa2b6a..207c634 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -170,7 +170,7 @@ namespace nil {
 
                 static manifest_type get_manifest(std::size_t bits_amount,
                                                   comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(
                                 3, std::max<std::size_t>(4, (bits_amount + chunk_size - 1) / chunk_size + 1))),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 44dee4f..22b2904 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -190,7 +190,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount, comparison_mode mode) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(3, std::max<std::size_t>(4, (bits_amount + 28 - 1) / 28 + 1))),
                         false
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
index 6bf2e22..96cbc00 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/range_check.hpp
@@ -135,7 +135,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t bits_amount) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(2, std::max<std::size_t>(3, bits_amount / chunk_size + 2))),
                         true
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index a9e69d9..3a14ac9 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -112,7 +112,7 @@ namespace nil {
 
                 static manifest_type get_manifest(
                     std::size_t power) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(new manifest_range_param(10, 10 + power / 6 + 1, 8)),
                         true
                     );
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index adeaa84..b721e30 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -87,7 +87,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t half_array_size) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         // TODO: make the manifest depend on half_array_size
                         // this requires the manifest rework
                         std::shared_ptr<manifest_param>(new manifest_range_param(5, 5 + 4 * (half_array_size - 1) + 1, 4)),
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
index 85f13a5..7b8e01a 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp
@@ -137,7 +137,7 @@ namespace nil {
                 }
 
                 static manifest_type get_manifest(std::size_t n, value_type omega) {
-                    static manifest_type manifest = manifest_type(
+                    manifest_type manifest = manifest_type(
                         std::shared_ptr<manifest_param>(
                             new manifest_range_param(9, n * 9 + 1, 9)
                         ),
-- 
2.43.0


From 2fd3ea8ace4311950e4dc587c5cebbbff8919151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:12 +0000
Subject: [PATCH 31/67] fix: tell gates of differently parametrised gadgets
 apart when merging

---
 .../algebra/fields/plonk/non_native/comparison_checked.hpp | 4 +++-
 .../algebra/fields/plonk/non_native/equality_flag.hpp      | 4 +++-
 .../components/systems/snark/plonk/flexible/poseidon.hpp   | 4 +++-
 .../components/systems/snark/plonk/flexible/pow_factor.hpp | 7 ++++---
 .../systems/snark/plonk/placeholder/fri_array_swap.hpp     | 4 +++-
 include/nil/blueprint/zkevm/state_selector.hpp             | 4 +++-
 6 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
index 207c634..a2d64b4 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp
@@ -153,7 +153,9 @@ namespace nil {
                         return comparison_checked::gates_amount_internal(bits_amount, mode);
                     }
 
-                    bool operator<(gate_manifest_type const& other) const {
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
                         return witness_amount < other.witness_amount ||
                                (witness_amount == other.witness_amount && bits_amount < other.bits_amount) ||
                                (witness_amount == other.witness_amount &&
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
index dfaa530..7742133 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp
@@ -61,7 +61,9 @@ namespace nil {
                         return equality_flag::gates_amount;
                     }
 
-                    bool operator<(gate_manifest_type const& other) const {
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
                         return inequality < other.inequality;
                     }
                 };
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index ea05f3a..d909a30 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -82,7 +82,9 @@ namespace nil {
                     gate_manifest_type(std::size_t _witness_amount) :
                         witness_amount(_witness_amount) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
                         return witness_amount < other.witness_amount;
                     }
 
diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
index 3a14ac9..34d68f2 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp
@@ -94,9 +94,10 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_) :
                         witness_amount((witness_amount_ - 10) / 8){};
 
-                    bool operator<(gate_manifest_type const& other) const {
-                        return witness_amount < other.witness_amount ||
-                               (witness_amount == other.witness_amount);
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
+                        return witness_amount < other.witness_amount;
                     }
 
                     std::uint32_t gates_amount() const override {
diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
index b721e30..ca39afe 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp
@@ -70,7 +70,9 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_, std::size_t half_array_size_) :
                         witness_amount((witness_amount_ - 1) / 4), half_array_size(half_array_size_) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
                         return witness_amount < other.witness_amount ||
                                (witness_amount == other.witness_amount && half_array_size < other.half_array_size);
                     }
diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index 7a4462d..ec66bde 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -62,7 +62,9 @@ namespace nil {
                     gate_manifest_type(std::size_t witness_amount_, std::size_t options_amount_) :
                         witness_amount(witness_amount_), options_amount(options_amount_) {};
 
-                    bool operator<(gate_manifest_type const& other) const {
+                    bool operator<(const component_gate_manifest *other_manifest) const override {
+                        const gate_manifest_type &other =
+                            *dynamic_cast<const gate_manifest_type*>(other_manifest);
                         return witness_amount < other.witness_amount ||
                                (witness_amount == other.witness_amount && options_amount < other.options_amount);
                     }
-- 
2.43.0


From 14f9e0d26931ff313cf1b04f40cd0c4208d21e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:44 +0000
Subject: [PATCH 32/67] fix: bound the first chunk of flag comparisons on four
 columns too

When the first chunk is the last pair of a gate instance it lies in the first
two columns. On an even number of columns the bound was put on an unused
column instead, so the second number could have one bit too many.
---
 .../algebra/fields/plonk/non_native/comparison_flag.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
index 22b2904..08fc2b9 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp
@@ -769,12 +769,16 @@ namespace nil {
                     // we don't check that x and y fit into 2^{bits_amount}.
                     std::vector<constraint_type> first_chunk_range_constraints;
 
-                    var size_constraint_var = var(component.W(3 + 2 * component.padding_size), 0, true);
+                    // The last chunk pair of a gate instance lies in the first two columns.
+                    std::size_t first_chunk_idx =
+                        component.padding_size == component.comparisons_per_gate_instance - 1
+                            ? 0 : 3 + 2 * component.padding_size;
+                    var size_constraint_var = var(component.W(first_chunk_idx), 0, true);
                     constraint_type first_chunk_range_constraint = generate_chunk_size_constraint(
                         size_constraint_var, component.bits_amount % component.chunk_size);
                     first_chunk_range_constraints.push_back(first_chunk_range_constraint);
 
-                    size_constraint_var = var(component.W(3 + 2 * component.padding_size + 1), 0, true);
+                    size_constraint_var = var(component.W(first_chunk_idx + 1), 0, true);
                     first_chunk_range_constraint =
                         generate_chunk_size_constraint(size_constraint_var,
                                                        component.bits_amount % component.chunk_size);
-- 
2.43.0


From 34113a920e0a98eb4640ff8d4eba54313bff333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:46 +0000
Subject: [PATCH 33/67] fix: check every term of the difference sum, and sums
 that fit one row

---
 .../systems/snark/plonk/placeholder/detail/f3_loop.hpp    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
index 21e939d..4a43401 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp
@@ -230,7 +230,7 @@ namespace nil {
                         auto constraint_ =
                             var(component.W(j), 0) - var(component.W(j - 4), 0) -
                             (var(component.W(j - 2), 0) - var(component.W(j - 1), 0)) * var(component.W(j - 3), 0);
-                        selectors.push_back(bp.add_gate({constraint_2}));
+                        selectors.push_back(bp.add_gate({constraint_}));
                     }
                 } else if (witness_amount % 4 == 2) {
                     auto constraint_2 = var(component.W(1), 0) - var(component.W(witness_amount - 3), -1) -
@@ -353,6 +353,8 @@ namespace nil {
                     }
                     r = component.rows_amount - 1;
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 4 + 1)], row + r);
                     }
                 } else if (witness_amount % 4 == 2) {
@@ -368,6 +370,8 @@ namespace nil {
                     r = component.rows_amount - 1;
                     start_j = 3 - 2 * (r % 2);
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[(j / 2 + 1)], row + r);
                     }
                 } else {
@@ -391,6 +395,8 @@ namespace nil {
                         start_j = (3 - x) + (x - 2) * (r % 4 - 1);
                     }
                     for (std::size_t j = start_j; j < last_col; j = j + 4) {
+                        if (r == 0 && j == 3)
+                            continue;
                         assignment.enable_selector(selectors[j + 1], row + r);
                     }
                 }
-- 
2.43.0


From eae5955310338ceea111142ddf23889ca6165277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:46 +0000
Subject: [PATCH 34/67] fix: tie the index bits gadget to its point, its bits
 and its first power

---
 .../systems/snark/plonk/flexible/x_index.hpp      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index 095df0e..acb2af7 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -84,12 +84,12 @@ namespace nil {
 
                 constexpr static std::size_t get_rows_amount(std::size_t witness_amount,
                                                              std::size_t n) {
-                    std::size_t cells = 2 * n;
+                    std::size_t cells = 2 * (n + 1);
                     std::size_t one_row_cells = ((witness_amount-1) / 2)*2;
                     return cells%one_row_cells == 0? cells/one_row_cells: cells/one_row_cells + 1;
                 }
 
-                constexpr static const std::size_t gates_amount = 1;
+                constexpr static const std::size_t gates_amount = 2;
                 const std::size_t rows_amount = get_rows_amount(this->witness_amount(), n);
 
                 struct input_type {
@@ -208,7 +208,7 @@ namespace nil {
 	        }
 
             template<typename BlueprintFieldType>
-            std::size_t generate_gates(
+            std::vector<std::size_t> generate_gates(
                 const plonk_flexible_x_index<BlueprintFieldType> &component,
                 circuit<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>> &bp,
                 assignment<crypto3::zk::snark::plonk_constraint_system<BlueprintFieldType>>
@@ -229,8 +229,10 @@ namespace nil {
                     var b = var(component.W(block*2 + 1), 0, true);
                     var next = var(component.W(block*2 + 2), 0, true);
                     constraints.push_back( next - prev * prev *(b + omega - omega * b));
+                    constraints.push_back( b * (b - 1) );
                 }
-                return bp.add_gate(constraints);
+                constraint_type starts_with_one = var(component.W(0), 0, true) - 1;
+                return {bp.add_gate(constraints), bp.add_gate({starts_with_one})};
             }
 
             template<typename BlueprintFieldType>
@@ -295,9 +297,10 @@ namespace nil {
 
                 using component_type = plonk_flexible_x_index<BlueprintFieldType>;
 
-                std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
+                std::vector<std::size_t> selectors = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(
-                    selector_index, start_row_index, start_row_index + component.rows_amount - 1);
+                    selectors[0], start_row_index, start_row_index + component.rows_amount - 1);
+                assignment.enable_selector(selectors[1], start_row_index);
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
-- 
2.43.0


From 85ef9722f2e00f4d87ac5a0ca2012e3d08f57401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:46 +0000
Subject: [PATCH 35/67] fix: compute expression values while filling the table,
 not while building the circuit

---
 .../detail/expression_evaluation_component.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp
index 4a401df..36cf641 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp
@@ -83,7 +83,7 @@ namespace nil {
                             auto coeff_var = assignment_table.add_batch_constant_variable(term.get_coeff());
                             result = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                 {coeff_var, variable_map.at(term.get_vars()[curr_term])},
-                                generate_assignment_call).output;
+                                !generate_assignment_call).output;
                         } else {
                             result = variable_map.at(term.get_vars()[curr_term]);
                         }
@@ -91,7 +91,7 @@ namespace nil {
                         for (; curr_term < term_size; curr_term++) {
                             result = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                 {result, variable_map.at(term.get_vars()[curr_term])},
-                                generate_assignment_call).output;
+                                !generate_assignment_call).output;
                         }
                         return result;
                     }
@@ -108,18 +108,18 @@ namespace nil {
                             if (power % 2 == 0) {
                                 expr_res = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                     {expr_res, expr_res},
-                                    generate_assignment_call).output;
+                                    !generate_assignment_call).output;
                                 power /= 2;
                             } else {
                                 result = assignment_table.template add_input_to_batch<multiplication_component_type>(
                                     {result, expr_res},
-                                    generate_assignment_call).output;
+                                    !generate_assignment_call).output;
                                 power -= 1;
                             }
                         }
                         return assignment_table.template add_input_to_batch<multiplication_component_type>(
                                 {result, expr_res},
-                                generate_assignment_call).output;
+                                !generate_assignment_call).output;
                     }
 
                     var operator()(const nil::crypto3::math::binary_arithmetic_operation<var>& op) {
@@ -129,15 +129,15 @@ namespace nil {
                             case crypto3::math::ArithmeticOperator::ADD:
                                 return assignment_table.template add_input_to_batch<addition_component_type>(
                                             {res1, res2},
-                                            generate_assignment_call).output;
+                                            !generate_assignment_call).output;
                             case crypto3::math::ArithmeticOperator::SUB:
                                 return assignment_table.template add_input_to_batch<subtraction_component_type>(
                                             {res1, res2},
-                                            generate_assignment_call).output;
+                                            !generate_assignment_call).output;
                             case crypto3::math::ArithmeticOperator::MULT:
                                 return assignment_table.template add_input_to_batch<multiplication_component_type>(
                                             {res1, res2},
-                                            generate_assignment_call).output;
+                                            !generate_assignment_call).output;
                             default:
                                 throw std::runtime_error("Unsupported operation");
                         }
-- 
2.43.0


From cdc1ef24b2f5c3299b712713cf17b5604c2b36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:02 +0000
Subject: [PATCH 36/67] fix: give the index bits gadget its constants while
 building the circuit

---
 .../components/systems/snark/plonk/flexible/x_index.hpp        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
index acb2af7..ab5942b 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp
@@ -301,6 +301,9 @@ namespace nil {
                 assignment.enable_selector(
                     selectors[0], start_row_index, start_row_index + component.rows_amount - 1);
                 assignment.enable_selector(selectors[1], start_row_index);
+                for (std::size_t row = 0; row < component.rows_amount; row++) {
+                    assignment.constant(component.C(0), start_row_index + row) = component.omega;
+                }
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
                 return typename component_type::result_type(component, start_row_index);
-- 
2.43.0


From 459629aef0ce66ebbaf19801953f1fa627344c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:21 +0000
Subject: [PATCH 37/67] fix: return absolute places from division with
 remainder

---
 .../fields/plonk/non_native/division_remainder.hpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
index 37da329..4c1631b 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp
@@ -181,13 +181,13 @@ namespace nil {
                             r_address = component.get_var_address(var_address::R_, start_row_index),
                             q_address = component.get_var_address(var_address::Q, start_row_index);
 
-                        quotient = var(component.W(q_address.second), q_address.first);
-                        remainder = var(component.W(r_address.second), r_address.first);
+                        quotient = var(component.W(q_address.second), q_address.first, false);
+                        remainder = var(component.W(r_address.second), r_address.first, false);
                     }
 
                     result_type(const division_remainder &component, std::size_t start_row_index, bool skip) {
-                        quotient = var(component.W(0), start_row_index);
-                        remainder = var(component.W(1), start_row_index);
+                        quotient = var(component.W(0), start_row_index, false);
+                        remainder = var(component.W(1), start_row_index, false);
                     }
 
                     std::vector<std::reference_wrapper<var>> all_vars() {
-- 
2.43.0


From 4c15dd1a03e04281e7f09286502308749499e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:37 +0000
Subject: [PATCH 38/67] fix: check the range of foreign sums and differences in
 the gadget's own columns

---
 .../components/algebra/fields/plonk/non_native/addition.hpp    | 3 ++-
 .../components/algebra/fields/plonk/non_native/subtraction.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
index 5ceeaf8..f82057d 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp
@@ -333,7 +333,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_addition<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index 78fa308..af1c88a 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -337,7 +337,8 @@ namespace nil {
                 using range_type = typename plonk_ed25519_subtraction<BlueprintFieldType>::range_type;
 
                 typename range_type::input_type range_input_r = {
-                    var(0, row + 2, false), var(1, row + 2, false), var(2, row + 2, false), var(3, row + 2, false)};
+                    var(component.W(0), row + 2, false), var(component.W(1), row + 2, false),
+                    var(component.W(2), row + 2, false), var(component.W(3), row + 2, false)};
 
                 range_type range_component_instance({component.W(0), component.W(1), component.W(2), component.W(3),
                                                      component.W(4), component.W(5), component.W(6), component.W(7),
-- 
2.43.0


From e66e8b54b8183f3ea076dfd1d843339b822f54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:37 +0000
Subject: [PATCH 39/67] fix: allow a borrow between the low limbs of foreign
 differences

---
 .../algebra/fields/plonk/non_native/subtraction.hpp          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
index af1c88a..f6ac8f2 100644
--- a/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
+++ b/include/nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp
@@ -304,7 +304,8 @@ namespace nil {
                     eddsa_p & extended_mask;
                 typename BlueprintFieldType::value_type t = a[0] + eddsa_p0 - b[0] + p[0] * q[0];
 
-                typename BlueprintFieldType::value_type u0 = t - r[0];
+                // the low limbs may borrow, 2^66 keeps the carry from becoming negative
+                typename BlueprintFieldType::value_type u0 = t - r[0] + (pasta_base << 66);
 
                 typename BlueprintFieldType::integral_type u0_integral =
                     typename BlueprintFieldType::integral_type(u0.data) >> 66;
@@ -413,7 +414,7 @@ namespace nil {
                 auto t = var(component.W(0), 0) + p[0] * var(component.W(2), 0);
                 auto constraint_1 =
                     var(component.W(7), -1) * (base << 66) -
-                    (t + eddsa_p0 - var(component.W(1), 0) - var(component.W(0), +1));
+                    (t + eddsa_p0 + (extended_base << 66) - var(component.W(1), 0) - var(component.W(0), +1));
                 auto constraint_2 = var(component.W(2), 0) * (var(component.W(2), 0) - 1);
                 auto constraint_3 =
                     var(component.W(7), -1) -
-- 
2.43.0


From 6dad90eaaf4ebc50a2ac9fb01270b4b7236b1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:53 +0000
Subject: [PATCH 40/67] fix: place results of foreign multiples in the gadget's
 own columns

---
 .../edwards/plonk/non_native/variable_base_multiplication.hpp | 4 +++-
 .../plonk/non_native/variable_base_multiplication_per_bit.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp
index 99d5913..26cbea4 100644
--- a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp
+++ b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication.hpp
@@ -149,7 +149,9 @@ namespace nil {
                         using mul_per_bit_component =
                             components::variable_base_multiplication_per_bit<ArithmetizationType,
                                 CurveType, Ed25519Type, non_native_policy_type>;
-                        mul_per_bit_component component_instance({0, 1, 2, 3, 4, 5, 6, 7, 8}, {0}, {});
+                        mul_per_bit_component component_instance(
+                            {component.W(0), component.W(1), component.W(2), component.W(3), component.W(4),
+                                component.W(5), component.W(6), component.W(7), component.W(8)},{component.C(0)},{});
 
                         auto final_mul_per_bit_res = typename plonk_ed25519_mul_per_bit<BlueprintFieldType, CurveType>::result_type(
                             component_instance, start_row_index + component.rows_amount - component.mul_per_bit_subcomponent.rows_amount);
diff --git a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp
index 7b49138..c1781cb 100644
--- a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp
+++ b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/variable_base_multiplication_per_bit.hpp
@@ -146,7 +146,9 @@ namespace nil {
                         using complete_addition_component =
                             components::complete_addition<ArithmetizationType, CurveType, Ed25519Type,
                                                           basic_non_native_policy<BlueprintFieldType>>;
-                        complete_addition_component component_instance({0, 1, 2, 3, 4, 5, 6, 7, 8}, {0}, {});
+                        complete_addition_component component_instance(
+                            {component.W(0), component.W(1), component.W(2), component.W(3), component.W(4),
+                                component.W(5), component.W(6), component.W(7), component.W(8)},{component.C(0)},{});
 
                         auto final_addition_res = typename plonk_ed25519_complete_addition<BlueprintFieldType, CurveType>::result_type(
                             component_instance, start_row_index + component.rows_amount - complete_addition_component::get_rows_amount(component.witness_amount()));
-- 
2.43.0


From 6df9abbd134dbc0cc9ded9b07eae0eff82699554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:53 +0000
Subject: [PATCH 41/67] fix: name the constant column of the scalar accumulator
 in curve multiples

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 57fa7a4..87cc673 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -800,7 +800,7 @@ namespace nil {
                                         {component.W(1), (std::int32_t)(start_row_index + component.rows_amount - 3), false}});
 
                 bp.add_copy_constraint({{component.W(4), (std::int32_t)(j), false},
-                                        {component.W(0), (std::int32_t)(j), false, var::column_type::constant}});
+                                        {component.C(0), (std::int32_t)(j), false, var::column_type::constant}});
 
                 // bp.add_copy_constraint(
                 //     {instance_input.b, {component.W(5), (std::int32_t)(j + component.rows_amount - 4), false}});    // scalar value check
-- 
2.43.0


From 7c107be1d4ad36ad8a6f51f37a81a4139bda6ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:53 +0000
Subject: [PATCH 42/67] fix: tie the base of curve multiples to the given point

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 87cc673..3bc09b6 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -774,6 +774,9 @@ namespace nil {
 
                 // main algorithm
 
+                bp.add_copy_constraint({{component.W(0), (std::int32_t)(j), false}, instance_input.T.x});
+                bp.add_copy_constraint({{component.W(1), (std::int32_t)(j), false}, instance_input.T.y});
+
                 for (int z = 0; z < component.mul_rows_amount - 2; z += 2) {
                     bp.add_copy_constraint(
                         {{component.W(0), (std::int32_t)(j + z), false}, {component.W(0), (std::int32_t)(j + z + 2), false}});
-- 
2.43.0


From bb4e7ad2ddfdde67da22e88e77b03766db5e23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:53 +0000
Subject: [PATCH 43/67] fix: link the last chunk of the scalar range check in
 curve multiples

---
 .../algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
index 3bc09b6..f05f6f0 100644
--- a/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
+++ b/include/nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp
@@ -818,7 +818,7 @@ namespace nil {
                 }
                 bp.add_copy_constraint(
                         {{component.C(0), (std::int32_t)(j), false, var::column_type::constant}, {component.W(6), (std::int32_t)(j + 58), false}});
-                for (int z = 0; z < 40; z += 2) {
+                for (int z = 0; z < 42; z += 2) {
                     bp.add_copy_constraint(
                         {{component.W(14), (std::int32_t)(j + 58 + z + 1), false}, {component.W(6), (std::int32_t)(j + 58 + z + 2), false}});
                 }
-- 
2.43.0


From 95be49a8a08996140ef2836f8152bcb7e0d6aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:39 +0000
Subject: [PATCH 44/67] fix: tie the selected option to the given index

The state selector defined a copy constraint for its input but never added
it, so any option could be selected.
---
 include/nil/blueprint/zkevm/state_selector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/zkevm/state_selector.hpp b/include/nil/blueprint/zkevm/state_selector.hpp
index ec66bde..0f87a79 100644
--- a/include/nil/blueprint/zkevm/state_selector.hpp
+++ b/include/nil/blueprint/zkevm/state_selector.hpp
@@ -270,6 +270,8 @@ namespace nil {
                 std::size_t selector_index = generate_gates(component, bp, assignment, instance_input);
                 assignment.enable_selector(selector_index, start_row_index, start_row_index);
 
+                generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
+
                 return typename component_type::result_type(component, start_row_index);
             }
 
-- 
2.43.0


From 223e9a4632626e2a75e56789d721cf51c3eebba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:39 +0000
Subject: [PATCH 45/67] fix: tie bytecodes, hashes and challenge to the
 bytecode table

The bytecode circuit added no copy constraints, and hashes and challenge
were missing from its list of inputs.
---
 include/nil/blueprint/zkevm/bytecode.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 2d09e68..9747553 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -111,6 +111,8 @@ namespace nil {
                             for( std::size_t j = 0; j < bytecodes[i].size(); j++ ){
                                 result.push_back(bytecodes[i][j]);
                             }
+                            result.push_back(bytecode_hashes[i].first);
+                            result.push_back(bytecode_hashes[i].second);
                         }
                         return result;
                     }
@@ -305,7 +307,10 @@ namespace nil {
                             for( std::size_t j = 0; j < bytecodes[i].size(); j++ ){
                                 result.push_back(bytecodes[i][j]);
                             }
+                            result.push_back(bytecode_hashes[i].first);
+                            result.push_back(bytecode_hashes[i].second);
                         }
+                        result.push_back(rlc_challenge);
                         return result;
                     }
                 };
@@ -523,7 +528,21 @@ namespace nil {
                     &instance_input,
                 const std::size_t start_row_index
             ) {
-                // TODO: add copy constraints
+                using component_type = plonk_zkevm_bytecode<BlueprintFieldType>;
+                using table_type = typename component_type::bytecode_table_component_type;
+                using var = typename component_type::var;
+
+                std::size_t row = start_row_index;
+                for (std::size_t i = 0; i < instance_input.bytecodes.size(); i++) {
+                    if (instance_input.bytecodes[i].empty()) continue;
+                    // hashes and challenge are propagated from the header to the bytes by the gates
+                    bp.add_copy_constraint({instance_input.bytecode_hashes[i].first, var(component.W(table_type::HASH_HI), row, false)});
+                    bp.add_copy_constraint({instance_input.bytecode_hashes[i].second, var(component.W(table_type::HASH_LO), row, false)});
+                    bp.add_copy_constraint({instance_input.rlc_challenge, var(component.W(component_type::RLC_CHALLENGE), row, false)});
+                    for (std::size_t j = 0; j < instance_input.bytecodes[i].size(); j++, row++) {
+                        bp.add_copy_constraint({instance_input.bytecodes[i][j], var(component.W(table_type::VALUE), row, false)});
+                    }
+                }
             }
 
             template<typename BlueprintFieldType>
-- 
2.43.0


From 7370ccf93f6abddb80c8502910428bf4557206a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:39 +0000
Subject: [PATCH 46/67] fix: declare the assignment of operations pure virtual

It was declared without a definition, so unoptimised builds did not link.
---
 include/nil/blueprint/zkevm/zkevm_operation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_operation.hpp b/include/nil/blueprint/zkevm/zkevm_operation.hpp
index 0d62fbf..150bb2c 100644
--- a/include/nil/blueprint/zkevm/zkevm_operation.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_operation.hpp
@@ -69,7 +69,7 @@ namespace nil {
             // we expect that most of the operations would only use MIDDLE_OP
             virtual std::map<gate_class, std::vector<constraint_type>> generate_gates(zkevm_circuit_type &zkevm_circuit) = 0;
 
-            virtual void generate_assignments(zkevm_circuit_type &zkevm_circuit, zkevm_machine_interface &machine);
+            virtual void generate_assignments(zkevm_circuit_type &zkevm_circuit, zkevm_machine_interface &machine) = 0;
             // should return the same rows amount for everyс operation right now
             // here in case we would make it dynamic in the future
             virtual std::size_t rows_amount() = 0;
-- 
2.43.0


From 5896a0477bfbf8d6bbaae6a5335bee522453316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:39 +0000
Subject: [PATCH 47/67] fix: refuse quotients whose product with the divisor
 exceeds 256 bits

Limb products above 256 bits were not part of the division check.
---
 include/nil/blueprint/zkevm/operations/div.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/nil/blueprint/zkevm/operations/div.hpp b/include/nil/blueprint/zkevm/operations/div.hpp
index f170a03..13d1d10 100644
--- a/include/nil/blueprint/zkevm/operations/div.hpp
+++ b/include/nil/blueprint/zkevm/operations/div.hpp
@@ -160,6 +160,16 @@ namespace nil {
                 // add constraints for c_2/c_4: c_2 is 0/1, c_4 is 0/1/2/3
                 constraints.push_back(position_1 * c_2 * (c_2 - 1));
                 constraints.push_back(position_1 * c_4 * (c_4 - 1) * (c_4 - 2) * (c_4 - 3));
+                // the product does not exceed 256 bits: neither carries out of the top limbs nor higher limb products
+                constraints.push_back(position_1 * c_3_64);
+                constraints.push_back(position_1 * c_4);
+                for (std::size_t i = 1; i < 4; i++) {
+                    constraint_type high_products;
+                    for (std::size_t j = i; j < 4; j++) {
+                        high_products += r_64_chunks_1[j] * b_64_chunks_1[3 + i - j];
+                    }
+                    constraints.push_back(position_1 * high_products);
+                }
                 // TODO: figure out how to add lookup constraints to constrain chunks of q
                 // force r = 0 if b = 0
                 constraint_type b_zero = 1 - b_sum_inverse_1 * b_sum_1;
-- 
2.43.0


From c846c57e8c9eedc005205f6d150c0dcec32f6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:39 +0000
Subject: [PATCH 48/67] fix: do not mistake the row after a one-row opcode for
 a second row

The second row of an opcode was recognised by the start mark of the previous
row, which is also set when the previous opcode has a single row.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5aec158..5e1f9c8 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -225,7 +225,8 @@ namespace nil {
                     return state.step_selection.variable();
                 }
                 if (row == opcode_height - 2) {
-                    return state.step_selection.variable(-1);
+                    // the previous row might be the only row of the previous opcode
+                    return state.step_selection.variable(-1) * (1 - state.step_selection.variable());
                 }
                 if (row == 0) {
                     return 1 - height_var * height_var_inv;
-- 
2.43.0


From a9695e67889fa49244d9aa340dc4f2c7bd841154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:39 +0000
Subject: [PATCH 49/67] fix: tie the selected row of an opcode to the rows left

The row selector of opcodes was constrained by nothing but itself.
---
 include/nil/blueprint/zkevm/zkevm_circuit.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/blueprint/zkevm/zkevm_circuit.hpp b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
index 5e1f9c8..5905899 100644
--- a/include/nil/blueprint/zkevm/zkevm_circuit.hpp
+++ b/include/nil/blueprint/zkevm/zkevm_circuit.hpp
@@ -341,6 +341,9 @@ namespace nil {
                 auto opcode_row_selector_constraints = opcode_row_selector->generate_constraints();
                 middle_constraints.insert(middle_constraints.end(), opcode_row_selector_constraints.begin(),
                                           opcode_row_selector_constraints.end());
+                // the selected row is the one given by the state
+                middle_constraints.push_back(
+                    opcode_row_selector->option_variable() - state.rows_until_next_op.variable());
 
                 auto generic_state_transition_constraints = generate_generic_transition_constraints(
                     start_selector, end_selector);
-- 
2.43.0


From 12cf838a2b91db8c0b105e4af231e72cd75ed99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:35 +0000
Subject: [PATCH 50/67] fix: use the component's own columns in the sha512
 constraints

The round constant and the words handed to the compression were named by
fixed column numbers. A component placed on other columns got an
unsatisfiable circuit or named columns that do not exist.
---
 .../components/hashes/sha2/plonk/sha512.hpp   | 24 +++++++++----------
 .../hashes/sha2/plonk/sha512_process.hpp      |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
index d318a1d..53e0aea 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512.hpp
@@ -182,18 +182,18 @@ namespace nil {
 
                     for(std::size_t k = 0; k < 4; k++) {
                         for(std::size_t i = 0; i < 4; i++) {
-                            input_words_vars_1[4*k + i] = var(2*i, start_row_index + 1 + 3*k, false);
+                            input_words_vars_1[4*k + i] = var(component.W(2*i), start_row_index + 1 + 3*k, false);
                         }
                     }
 
-                    std::array<var, 8> constants_var = {var(0, start_row_index, false, var::column_type::constant),
-                                                        var(0, start_row_index + 1, false, var::column_type::constant),
-                                                        var(0, start_row_index + 2, false, var::column_type::constant),
-                                                        var(0, start_row_index + 3, false, var::column_type::constant),
-                                                        var(0, start_row_index + 4, false, var::column_type::constant),
-                                                        var(0, start_row_index + 5, false, var::column_type::constant),
-                                                        var(0, start_row_index + 6, false, var::column_type::constant),
-                                                        var(0, start_row_index + 7, false, var::column_type::constant)};
+                    std::array<var, 8> constants_var = {var(component.C(0), start_row_index, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 1, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 2, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 3, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 4, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 5, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 6, false, var::column_type::constant),
+                                                        var(component.C(0), start_row_index + 7, false, var::column_type::constant)};
                     sha512_process_component sha512_process_instance(
                                 {component.W(0), component.W(1), component.W(2), component.W(3), component.W(4),
                                     component.W(5), component.W(6), component.W(7), component.W(8)},{component.C(0)},{});
@@ -207,13 +207,13 @@ namespace nil {
                     std::array<var, 16> input_words_vars_2;
 
                     for(std::size_t i = 0; i < 4; i++) {
-                        input_words_vars_2[i] = var(2*i, start_row_index + 1 + 12, false);
+                        input_words_vars_2[i] = var(component.W(2*i), start_row_index + 1 + 12, false);
                     }
 
                     for (std::size_t i = 4; i < 15; i++) {
-                        input_words_vars_2[i] = var(0, start_row_index + 8, false, var::column_type::constant);
+                        input_words_vars_2[i] = var(component.C(0), start_row_index + 8, false, var::column_type::constant);
                     }
-                    input_words_vars_2[15] = var(0, start_row_index + 9, false, var::column_type::constant);
+                    input_words_vars_2[15] = var(component.C(0), start_row_index + 9, false, var::column_type::constant);
 
 
                     sha_params = {sha_output, input_words_vars_2};
diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 3f12426..5d03a46 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -390,7 +390,7 @@ namespace nil {
                     var(component.W(4), -1) * (one << (sigma_sizes[0] + sigma_sizes[1] + sigma_sizes[2] + sigma_sizes[3])) +
                     var(component.W(2), 0) + var(component.W(3), 0) * (1 << 16) +
                     var(component.W(4), 0) * (one << 32) + var(component.W(5), 0) * (one << 48) +
-                    var(component.W(0), 0, true, var::column_type::constant));
+                    var(component.C(0), 0, true, var::column_type::constant));
                     auto constraint_2 =
                         var(component.W(1), +1) + var(component.W(7), 0) - (var(component.W(2), +1) + m*var(component.W(3), +1));
                     auto constraint_3 =
-- 
2.43.0


From b8d91d62bc13d9790a8f66c510283e6cd21853b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:47 +0000
Subject: [PATCH 51/67] fix: tie the sha256 rounds to the message and the state

The words and the state used by the compression rounds were not connected to
the message schedule, to the given state or to each other, and the first and
fifth result did not depend on the last round. A prover could fill the rounds
in for another message.
---
 .../hashes/sha2/plonk/sha256_process.hpp       | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
index d68874c..e0b66e0 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp
@@ -1274,8 +1274,26 @@ namespace nil {
                                                 false)});    // sparse_values[6] = sparse_values[5]
                 }
 
+                for (std::size_t round = 0; round < 64; round++) {
+                    const std::size_t schedule_row = start_row_index + 2;
+                    bp.add_copy_constraint({var(component.W(3), row + round * 8 + 3, false),
+                                            round < 16 ? instance_input.input_words[round] :
+                                                         var(component.W(0), schedule_row + (round - 16) * 5 + 2, false)});
+                    bp.add_copy_constraint({var(component.W(1), row + round * 8 + 3, false),
+                                            round < 3 ? instance_input.input_state[3 - round] :
+                                                        var(component.W(0), row + (round - 3) * 8 + 7, false)});    // d
+                    bp.add_copy_constraint({var(component.W(2), row + round * 8 + 3, false),
+                                            round < 3 ? instance_input.input_state[7 - round] :
+                                                        var(component.W(0), row + (round - 3) * 8 + 0, false)});    // h
+                }
+                bp.add_copy_constraint({var(component.W(0), row + 7, false), instance_input.input_state[0]});    // a
+                bp.add_copy_constraint({var(component.W(0), row + 0, false), instance_input.input_state[4]});    // e
+
                 row = row + 512;
 
+                bp.add_copy_constraint({var(component.W(2), row - 3, false), var(component.W(4), row, false)});
+                bp.add_copy_constraint({var(component.W(4), row - 5, false), var(component.W(4), row + 2, false)});
+
                 bp.add_copy_constraint({var(component.W(0), row - 1, false), var(component.W(5), row, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 9, false), var(component.W(6), row, false)});
                 bp.add_copy_constraint({var(component.W(0), row - 17, false), var(component.W(7), row, false)});
-- 
2.43.0


From d2b1deb410c0a5984e31f0e6d6f5c4747a533699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:22 +0000
Subject: [PATCH 52/67] fix: switch on the gates of the flexible poseidon
 itself

---
 .../components/systems/snark/plonk/flexible/poseidon.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
index d909a30..fb1750d 100644
--- a/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
+++ b/include/nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp
@@ -330,7 +330,7 @@ namespace nil {
 
                 auto selector_indices = generate_gates(component, bp, assignment, instance_input);
                 for( std::size_t i = 0; i < selector_indices.size(); i++){
-                    assignment.enable_selector(i, start_row_index+i);
+                    assignment.enable_selector(selector_indices[i], start_row_index+i);
                 }
                 generate_copy_constraints(component, bp, assignment, instance_input, start_row_index);
 
-- 
2.43.0


From 70e8fb4b816b0c4377ec2af548e65be5e451da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:11 +0000
Subject: [PATCH 53/67] fix: tie stretched components to their own inputs

---
 include/nil/blueprint/component_stretcher.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 7ab175f..5732f49 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -402,6 +402,9 @@ namespace nil {
                                     old_var,
                                     start_row_index + constant_remapping[old_var.rotation],
                                     instance_input);
+                            } else if (old_var.type == var::column_type::public_input) {
+                                // Rows of the public input column are not rows of the component
+                                new_var = move_var(old_var, old_var.rotation, instance_input);
                             } else {
                                 new_var = move_var(
                                     old_var,
@@ -471,8 +474,10 @@ namespace nil {
                 circuit<crypto3::zk::snark::plonk_constraint_system<
                     BlueprintFieldType>> tmp_circuit;
 
+                auto converted_input = input_type_converter<ComponentType>::convert(instance_input, assignment,
+                                                                                    tmp_assignment);
                 auto result = generate_circuit(
-                    component.component, tmp_circuit, tmp_assignment, instance_input, 0);
+                    component.component, tmp_circuit, tmp_assignment, converted_input, 0);
                 component.move_circuit(tmp_circuit, tmp_assignment, bp, assignment,
                                        instance_input, start_row_index);
                 return result_type_converter<ComponentType>::convert(component, result, instance_input,
-- 
2.43.0


From c3f787d7fc81bb3f006fd26941a921c7199d37b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:11 +0000
Subject: [PATCH 54/67] fix: announce all rows of a stretched component

---
 include/nil/blueprint/component_stretcher.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index 5732f49..e16a623 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -223,7 +223,7 @@ namespace nil {
                     }
                     zone_mapping = detail::huang_lu(zone_sizes_for_packing, stretch_coeff);
 
-                    std::vector<std::size_t> zone_rows(zones.zone_sizes.size(), 0);
+                    std::vector<std::size_t> zone_rows(stretch_coeff, 0);
                     line_mapping.resize(this->component.rows_amount);
                     std::vector<bool> constant_assigned(this->component.rows_amount, false);
                     for (std::size_t i = 0; i < this->component.rows_amount; i++) {
@@ -269,8 +269,10 @@ namespace nil {
                             }
                         }
                     }
-                    this->rows_amount = std::max_element(zones.zone_sizes.begin(), zones.zone_sizes.end(),
-                                                         [](auto a, auto b) { return a.second < b.second; })->second;
+                    this->rows_amount = *std::max_element(zone_rows.begin(), zone_rows.end());
+                    for (auto &[old_rotation, new_rotation] : constant_remapping) {
+                        this->rows_amount = std::max(this->rows_amount, new_rotation + 1);
+                    }
                     this->remapping_computed = true;
                 }
 
-- 
2.43.0


From fa43d09704620b679e352ddd6edc2aa2cbab10e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:15:11 +0000
Subject: [PATCH 55/67] fix: stop looking for a free constant at the end of the
 component

---
 include/nil/blueprint/component_stretcher.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index e16a623..a3935c8 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -246,7 +246,8 @@ namespace nil {
                         }
                     }
                     std::size_t first_unassigned_const = 0;
-                    while (constant_assigned[first_unassigned_const]) {
+                    while (first_unassigned_const < constant_assigned.size() &&
+                           constant_assigned[first_unassigned_const]) {
                         first_unassigned_const++;
                     }
                     for (auto curr_var : constrained_constant_vars) {
@@ -255,7 +256,8 @@ namespace nil {
                             // Need to remap
                             constant_remapping[curr_var.rotation] = first_unassigned_const;
                             constant_assigned[first_unassigned_const] = true;
-                            while (constant_assigned[first_unassigned_const]) {
+                            while (first_unassigned_const < constant_assigned.size() &&
+                                   constant_assigned[first_unassigned_const]) {
                                 first_unassigned_const++;
                             }
                         } else {
@@ -263,7 +265,8 @@ namespace nil {
                              constant_remapping[curr_var.rotation] = new_rotation;
                             constant_assigned[new_rotation] = true;
                             if (first_unassigned_const == new_rotation) {
-                                while (constant_assigned[first_unassigned_const]) {
+                                while (first_unassigned_const < constant_assigned.size() &&
+                                       constant_assigned[first_unassigned_const]) {
                                     first_unassigned_const++;
                                 }
                             }
-- 
2.43.0


From 673818183788a47e13cb5af8ffeded18af73eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:51 +0000
Subject: [PATCH 56/67] fix: keep constants read by gates in place when
 stretching a component

---
 include/nil/blueprint/component_stretcher.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index a3935c8..cffb579 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -252,7 +252,10 @@ namespace nil {
                     }
                     for (auto curr_var : constrained_constant_vars) {
                         std::size_t new_rotation = line_mapping[curr_var.rotation];
-                        if (constant_assigned[new_rotation]) {
+                        if (zones.constant_priority[curr_var.rotation]) {
+                            // A gate reads it as well: it has to stay there
+                            constant_remapping[curr_var.rotation] = new_rotation;
+                        } else if (constant_assigned[new_rotation]) {
                             // Need to remap
                             constant_remapping[curr_var.rotation] = first_unassigned_const;
                             constant_assigned[first_unassigned_const] = true;
-- 
2.43.0


From 21cd7aa7ab915fd366affb59640104cfecfc45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:51:07 +0000
Subject: [PATCH 57/67] fix: keep constant columns apart in the connectedness
 check

---
 include/nil/blueprint/utils/connectedness_check.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/blueprint/utils/connectedness_check.hpp b/include/nil/blueprint/utils/connectedness_check.hpp
index ed7567c..ec2f11a 100644
--- a/include/nil/blueprint/utils/connectedness_check.hpp
+++ b/include/nil/blueprint/utils/connectedness_check.hpp
@@ -64,7 +64,7 @@ namespace nil {
                     return (variable.rotation - start_row_index) * row_size + variable.index;
                 } else {
                     // Constant
-                    return (variable.rotation - start_row_index) * row_size + row_size - 1;
+                    return (variable.rotation - start_row_index) * row_size + row_size - 1 - variable.index;
                 }
             };
 
@@ -215,7 +215,7 @@ namespace nil {
                         return (row - start_row_index + variable.rotation) * row_size + variable.index;
                     } else {
                         // Constant
-                        return (row - start_row_index + variable.rotation) * row_size + row_size - 1;
+                        return (row - start_row_index + variable.rotation) * row_size + row_size - 1 - variable.index;
                     }
                 };
                 const std::size_t end_row_index = start_row_index + rows_amount;
@@ -308,7 +308,7 @@ namespace nil {
                     return (row - start_row_index + variable.rotation) * row_size + variable.index;
                 } else {
                     // Constant
-                    return (row - start_row_index + variable.rotation) * row_size + row_size - 1;
+                    return (row - start_row_index + variable.rotation) * row_size + row_size - 1 - variable.index;
                 }
             };
             const std::size_t end_row_index = start_row_index + rows_amount;
-- 
2.43.0


From a68c0e98555d5ac714452cefd11531640f6194dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:31 +0000
Subject: [PATCH 58/67] fix: enable the lookup of the row aside in the bytecode
 table tester

---
 include/nil/blueprint/zkevm/bytecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 9747553..9f10f33 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -782,7 +782,7 @@ namespace nil {
 
                 lookup_constraint_type constraint_aside = {lookup_tables_indices.at("zkevm_bytecode"), {tag, index, value, is_opcode, hash_hi, hash_lo}};
                 std::size_t selector_aside = bp.add_lookup_gate({constraint_aside});
-                assignment.enable_selector(selector_above, start_row_index+1, start_row_index+1);
+                assignment.enable_selector(selector_aside, start_row_index+1, start_row_index+1);
 
                 return typename component_type::result_type(component, start_row_index);
             }
-- 
2.43.0


From b36a669e713ac5fb798c31281a26bdeef4e414e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:31 +0000
Subject: [PATCH 59/67] fix: copy cells before the bytecode table tester grows
 their column

---
 include/nil/blueprint/zkevm/bytecode.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nil/blueprint/zkevm/bytecode.hpp b/include/nil/blueprint/zkevm/bytecode.hpp
index 9f10f33..ea56d43 100644
--- a/include/nil/blueprint/zkevm/bytecode.hpp
+++ b/include/nil/blueprint/zkevm/bytecode.hpp
@@ -716,12 +716,13 @@ namespace nil {
                 assignment.witness(bytecode_table.W(bytecode_table_component_type::HASH_LO), start_row_index) = assignment.witness(bytecode_table.W(bytecode_table_component_type::HASH_LO), start_row_index + 5);
 
                 // Row below
-                assignment.witness(bytecode_table.W(bytecode_table_component_type::TAG), start_row_index + component.max_bytecode_size + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::TAG), start_row_index + 10);
-                assignment.witness(bytecode_table.W(bytecode_table_component_type::INDEX), start_row_index + component.max_bytecode_size + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::INDEX), start_row_index + 10);
-                assignment.witness(bytecode_table.W(bytecode_table_component_type::VALUE), start_row_index + component.max_bytecode_size + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::VALUE), start_row_index + 10);
-                assignment.witness(bytecode_table.W(bytecode_table_component_type::IS_OPCODE), start_row_index + component.max_bytecode_size + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::IS_OPCODE), start_row_index + 10);
-                assignment.witness(bytecode_table.W(bytecode_table_component_type::HASH_HI), start_row_index + component.max_bytecode_size + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::HASH_HI), start_row_index + 10);
-                assignment.witness(bytecode_table.W(bytecode_table_component_type::HASH_LO), start_row_index + component.max_bytecode_size + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::HASH_LO), start_row_index + 10);
+                // The value is copied first: writing below may move the whole column
+                for (std::size_t column : {bytecode_table_component_type::TAG, bytecode_table_component_type::INDEX,
+                                           bytecode_table_component_type::VALUE, bytecode_table_component_type::IS_OPCODE,
+                                           bytecode_table_component_type::HASH_HI, bytecode_table_component_type::HASH_LO}) {
+                    const value_type value = assignment.witness(bytecode_table.W(column), start_row_index + 10);
+                    assignment.witness(bytecode_table.W(column), start_row_index + component.max_bytecode_size + 1) = value;
+                }
 
                 // Row aside
                 assignment.witness(component.W(component_type::TAG), start_row_index + 1) = assignment.witness(bytecode_table.W(bytecode_table_component_type::TAG), start_row_index + 15);
-- 
2.43.0


From a1728bc1cf3d0a4d3ece105b78ce9a9af3d19300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:54 +0000
Subject: [PATCH 60/67] fix: restore the fill character of a stream after
 exporting a table

---
 include/nil/blueprint/blueprint/plonk/assignment.hpp       | 2 ++
 include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/nil/blueprint/blueprint/plonk/assignment.hpp b/include/nil/blueprint/blueprint/plonk/assignment.hpp
index a73d5d2..17aa8ec 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment.hpp
@@ -678,6 +678,7 @@ namespace nil {
                                       ranges selectors, ranges rows, bool wide_export = false) const {
                 // wide_export is for e.g. potentiall fuzzer: does fixed width elements
                 std::ios_base::fmtflags os_flags(os.flags());
+                const auto os_fill = os.fill();
                 std::size_t total_witnesses_size = this->_private_table.witnesses_amount(),
                             total_public_size = this->_public_table.public_inputs_amount(),
                             total_constants_size = this->_public_table.constants_amount(),
@@ -746,6 +747,7 @@ namespace nil {
 
                 os.flush();
                 os.flags(os_flags);
+                os.fill(os_fill);
             }
         };
 
diff --git a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
index e12b3f6..e3b929e 100644
--- a/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
+++ b/include/nil/blueprint/blueprint/plonk/assignment_proxy.hpp
@@ -310,6 +310,7 @@ namespace nil {
 
             void export_table(std::ostream& os, bool wide_export = false) const override {
                 std::ios_base::fmtflags os_flags(os.flags());
+                const auto os_fill = os.fill();
 
                 std::uint32_t witnesses_size = witnesses_amount();
                 std::uint32_t shared_size = shareds_amount();
@@ -417,6 +418,7 @@ namespace nil {
                 }
                 os.flush();
                 os.flags(os_flags);
+                os.fill(os_fill);
             }
         };
 
-- 
2.43.0


From 6f97276b7f620314f660c80e89d585fd832e2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:00 +0000
Subject: [PATCH 61/67] fix: keep rows next to each other when a gate of a
 stretched component reads a constant of a neighbouring row

---
 include/nil/blueprint/component_stretcher.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/blueprint/component_stretcher.hpp b/include/nil/blueprint/component_stretcher.hpp
index cffb579..753afc0 100644
--- a/include/nil/blueprint/component_stretcher.hpp
+++ b/include/nil/blueprint/component_stretcher.hpp
@@ -147,6 +147,7 @@ namespace nil {
                         // The proper way of dealing with constants requires changing the NP-hard problem being solved
                         // This is a hack
                         if (connection[3]) {
+                            zones.zones.union_set(row_idx - 1, row_idx);
                             zones.zones.union_set(row_idx - 1, zones.constant_zone_idx());
                             zones.constant_priority[row_idx - 1] = true;
                         }
@@ -155,6 +156,7 @@ namespace nil {
                             zones.constant_priority[row_idx] = true;
                         }
                         if (connection[5]) {
+                            zones.zones.union_set(row_idx, row_idx + 1);
                             zones.zones.union_set(row_idx + 1, zones.constant_zone_idx());
                             zones.constant_priority[row_idx + 1] = true;
                         }
-- 
2.43.0


From b3024dd3acd700657b676da36dc8476dba8a24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:51:54 +0000
Subject: [PATCH 62/67] fix: find the common values of two ranges without
 overflow for any start and step

---
 include/nil/blueprint/manifest.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/nil/blueprint/manifest.hpp b/include/nil/blueprint/manifest.hpp
index 41ae1f7..b52a502 100644
--- a/include/nil/blueprint/manifest.hpp
+++ b/include/nil/blueprint/manifest.hpp
@@ -742,15 +742,16 @@ namespace nil {
                     if (start % step_gcd != other_start % step_gcd) {
                         return std::shared_ptr<manifest_param>(new manifest_unsat_param());
                     }
-                    const std::int64_t wide_step = std::int64_t(step) * (other_step / step_gcd);
-                    const std::int64_t other_coeff = std::int64_t(step / step_gcd) * m % wide_step;
-                    const std::int64_t coeff = std::int64_t(other_step / step_gcd) * n % wide_step;
-                    const std::int64_t modulo_new_step =
-                        (wide_step + (other_coeff * other_start % wide_step + coeff * start % wide_step) % wide_step) %
-                        wide_step;
-                    const std::int64_t max_start = std::max(start, other_start);
-                    const std::int64_t wide_start =
-                        max_start + (wide_step + (modulo_new_step - max_start) % wide_step) % wide_step;
+                    // The first common value is start + k * step with the k found modulo other_step / step_gcd
+                    const std::int64_t other_part = other_step / step_gcd;
+                    const std::int64_t wide_step = std::int64_t(step) * other_part;
+                    const std::int64_t distance = (std::int64_t(other_start) - start) / step_gcd;
+                    const std::int64_t k =
+                        ((distance % other_part) * (m % other_part) % other_part + other_part) % other_part;
+                    std::int64_t wide_start = start + k * step;
+                    if (wide_start < other_start) {
+                        wide_start += (other_start - wide_start + wide_step - 1) / wide_step * wide_step;
+                    }
                     new_finish = std::min(finish, other_finish);
                     if (wide_start >= new_finish) {
                         return std::shared_ptr<manifest_param>(new manifest_unsat_param());
-- 
2.43.0


From 5b0e0469b2e776a0fd1b42133b6deb257fb5f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:26 +0000
Subject: [PATCH 63/67] fix: refuse a lookup table whose size line holds
 anything but the size

---
 include/nil/blueprint/detail/lookup_table_loaders.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/detail/lookup_table_loaders.hpp b/include/nil/blueprint/detail/lookup_table_loaders.hpp
index 988e183..41df55c 100644
--- a/include/nil/blueprint/detail/lookup_table_loaders.hpp
+++ b/include/nil/blueprint/detail/lookup_table_loaders.hpp
@@ -77,12 +77,17 @@ namespace nil {
                     std::string line;
                     // Get the table size
                     std::getline(ist, line);
-                    std::size_t table_size;
+                    std::size_t table_size, size_length;
                     try {
-                        table_size = std::stoull(line);
+                        table_size = std::stoull(line, &size_length);
                     } catch (const std::logic_error &) {
                         return false;
                     }
+                    // the first line has to hold the size and nothing else
+                    if (line.find('-') != std::string::npos ||
+                        line.find_first_not_of(" \t\r", size_length) != std::string::npos) {
+                        return false;
+                    }
                     result.assign(line_size, {});
                     for (std::size_t i = 0; i < table_size; i++) {
                         if (!std::getline(ist, line)) {
-- 
2.43.0


From f0eb10a4ba5f075e2c9dfa2114fe30545379bc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:08:44 +0000
Subject: [PATCH 64/67] fix: keep the selectors of the gates a circuit is built
 from

---
 .../nil/blueprint/blueprint/plonk/circuit.hpp | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/nil/blueprint/blueprint/plonk/circuit.hpp b/include/nil/blueprint/blueprint/plonk/circuit.hpp
index 21cbbb9..d1fb28c 100644
--- a/include/nil/blueprint/blueprint/plonk/circuit.hpp
+++ b/include/nil/blueprint/blueprint/plonk/circuit.hpp
@@ -28,6 +28,7 @@
 #define CRYPTO3_BLUEPRINT_CIRCUIT_PLONK_HPP
 
 #include <map>
+#include <set>
 
 #include <nil/crypto3/zk/snark/arithmetization/plonk/table_description.hpp>
 #include <nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp>
@@ -79,7 +80,26 @@ namespace nil {
             typedef BlueprintFieldType blueprint_field_type;
 
             circuit(ArithmetizationType constraint_system) :
-                    ArithmetizationType(constraint_system) { }
+                    ArithmetizationType(constraint_system) {
+                // selectors of the gates the system already has are taken and belong to these gates
+                std::set<std::size_t> taken;
+                for (const auto &gate : this->_gates) {
+                    if (taken.insert(gate.selector_index).second) {
+                        selector_map.emplace(gate_id_type(gate.constraints), gate.selector_index);
+                    }
+                }
+                for (const auto &gate : this->_lookup_gates) {
+                    if (taken.insert(gate.tag_index).second) {
+                        lookup_selector_map.emplace(lookup_gate_id_type(gate.constraints), gate.tag_index);
+                    }
+                }
+                for (const auto &table : ArithmetizationType::lookup_tables()) {
+                    taken.insert(table.tag_index);
+                }
+                if (!taken.empty()) {
+                    next_selector_index = *taken.rbegin() + 1;
+                }
+            }
 
             circuit() : ArithmetizationType() {}
 
-- 
2.43.0


From bc978bda1282d8ad9cd32abd079d49ec94147a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:28 +0000
Subject: [PATCH 65/67] fix: bind the first big sum of a SHA-512 round to the
 spread parts it is made of

---
 .../blueprint/components/hashes/sha2/plonk/sha512_process.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 5d03a46..47c68d6 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -295,7 +295,7 @@ namespace nil {
                         var(component.W(2), 0) * ((one << (11*2)) + (one << (5*2)) + 1) +
                         var(component.W(3), 0) * ((one << (25*2)) + (one << (19*2)) + (one << (14*2))));
 
-                    return bp.add_gate({constraint_1, constraint_2});
+                    return bp.add_gate({constraint_1, constraint_2, constraint_3});
                 }
 
                 template<typename BlueprintFieldType>
-- 
2.43.0


From 7b42a54cf0293421724bb7679fc49f3c3f8b2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:04 +0000
Subject: [PATCH 66/67] fix: tie the sha512 rounds to the message, the state
 and each other

The words made by the message schedule, the words and the state used by the
rounds and the results were not connected with each other. A prover could
fill the rounds in for another message.
---
 .../hashes/sha2/plonk/sha512_process.hpp      | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
index 47c68d6..9539c67 100644
--- a/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
+++ b/include/nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp
@@ -901,6 +901,23 @@ namespace nil {
                    bp.add_copy_constraint({var(component.W(0), row + (i - 14)*6 + 5, false), instance_input.input_words[i]});
                 }
 
+                for (std::size_t step = 2; step < 64; step++) {
+                    bp.add_copy_constraint({var(component.W(0), row + step * 6 + 5, false),
+                                            var(component.W(5), row + (step - 2) * 6 + 3, false)});
+                    if (step >= 7) {
+                        bp.add_copy_constraint({var(component.W(7), row + step * 6 + 2, false),
+                                                var(component.W(5), row + (step - 7) * 6 + 3, false)});
+                    }
+                    if (step >= 15) {
+                        bp.add_copy_constraint({var(component.W(0), row + step * 6 + 0, false),
+                                                var(component.W(5), row + (step - 15) * 6 + 3, false)});
+                    }
+                    if (step >= 16) {
+                        bp.add_copy_constraint({var(component.W(8), row + step * 6 + 2, false),
+                                                var(component.W(5), row + (step - 16) * 6 + 3, false)});
+                    }
+                }
+
                 row = row + 384;
 
                 bp.add_copy_constraint(
@@ -924,8 +941,35 @@ namespace nil {
                 bp.add_copy_constraint({var(component.W(0), row + 0, false), instance_input.input_state[4]});
                 bp.add_copy_constraint({var(component.W(8), row + 3, false), instance_input.input_state[7]});
 
+                for (std::size_t round = 0; round < 80; round++) {
+                    const std::size_t round_row = row + round * 9;
+                    bp.add_copy_constraint({var(component.W(0), round_row + 4, false),
+                                            round < 16 ? instance_input.input_words[round] :
+                                                         var(component.W(5), start_row_index + 2 + (round - 16) * 6 + 3, false)});
+                    if (round == 0) {
+                        continue;
+                    }
+                    bp.add_copy_constraint({var(component.W(0), round_row + 8, false),
+                                            var(component.W(7), round_row - 9 + 5, false)});    // a = a_new
+                    bp.add_copy_constraint({var(component.W(0), round_row + 0, false),
+                                            var(component.W(2), round_row - 9 + 4, false)});    // e = e_new
+                    bp.add_copy_constraint({var(component.W(7), round_row + 3, false),
+                                            round < 3 ? instance_input.input_state[3 - round] :
+                                                        var(component.W(0), round_row - 27 + 8, false)});    // d
+                    bp.add_copy_constraint({var(component.W(8), round_row + 3, false),
+                                            round < 3 ? instance_input.input_state[7 - round] :
+                                                        var(component.W(0), round_row - 27 + 0, false)});    // h
+                }
+
                 row = row + 720;
 
+                bp.add_copy_constraint({var(component.W(4), row, false), var(component.W(7), row - 9 + 5, false)});
+                bp.add_copy_constraint({var(component.W(4), row + 2, false), var(component.W(2), row - 9 + 4, false)});
+                for (std::size_t i = 1; i <= 3; ++i) {
+                    bp.add_copy_constraint({var(component.W(4 + i), row, false), var(component.W(0), row - 9 * i + 8, false)});
+                    bp.add_copy_constraint({var(component.W(4 + i), row + 2, false), var(component.W(0), row - 9 * i, false)});
+                }
+
                 bp.add_copy_constraint({var(component.W(0), row, false), instance_input.input_state[0]});
                 bp.add_copy_constraint({var(component.W(1), row, false), instance_input.input_state[1]});
                 bp.add_copy_constraint({var(component.W(2), row, false), instance_input.input_state[2]});
-- 
2.43.0


From 248234b9d917f9f23bb0c4659286ef6ccd45e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:48 +0000
Subject: [PATCH 67/67] fix: tie all limbs of the doubled point's second
 coordinate

---
 .../algebra/curves/edwards/plonk/non_native/doubling.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp
index 90ffe1e..dfd6272 100644
--- a/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp
+++ b/include/nil/blueprint/components/algebra/curves/edwards/plonk/non_native/doubling.hpp
@@ -514,8 +514,8 @@ namespace nil {
 
                     for (std::size_t i = 0; i < 4; i++) {
                         bp.add_copy_constraint(
-                            {{component.W(3 + i), (std::int32_t)(t5_row + 2), false},
-                             {component.W(3 + i), (std::int32_t)(t10_row + 2), false}});
+                            {{component.W(i), (std::int32_t)(t5_row + 2), false},
+                             {component.W(i), (std::int32_t)(t10_row + 2), false}});
                     }
                 }
 
-- 
2.43.0

