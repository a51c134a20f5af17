From e55ed22e759cc3ac4a2091de1fcf4b98327b93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/20] fix: keep spacing in front of an escape, reject an
 escape after a closing quote

With trim/trim_right enabled an escape preceded by spacing removed the first
spacing character instead of the escape. After a closing quote an escape
modified the line instead of being reported as a mismatched quote.
---
 include/ss/splitter.hpp | 5 +++--
 ssp.hpp                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..02d1ea6 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -246,8 +246,8 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // leave everything past the spacing to be read separately
+            return {std::max<size_t>(end - begin, 1), false};
         }
 
         end += delimiter_size(delim);
@@ -374,6 +374,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..6bacb9f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1301,8 +1301,8 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // leave everything past the spacing to be read separately
+            return {std::max<size_t>(end - begin, 1), false};
         }
 
         end += delimiter_size(delim);
@@ -1429,6 +1429,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
-- 
2.43.0


From 4f2a011b4ed94091df6fee3c95eb8a8f53929893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/20] fix: do not move the cursor back and do not trust a
 stale errno at the end of a file

Every read at the end of a file subtracted one from the position, and an
errno left at ENOMEM by unrelated code turned the end of data into bad_alloc.
---
 include/ss/common.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..fe231d7 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -130,9 +130,12 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
diff --git a/ssp.hpp b/ssp.hpp
index 6bacb9f..908b72d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -747,9 +747,12 @@ using ssize_t = intptr_t;
     const char* const csv_data_buffer, size_t csv_data_size,
     size_t& curr_char) {
     ssize_t ssize = 0;
+    errno = 0;
     if (file) {
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
-- 
2.43.0


From 122bb86c1ddae0c71b53d0e5f9229b7d20339b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/20] fix: ignoring the last row sets eof

After ignore_next (or use_fields, or ignore_header) passed over the last line
eof() stayed false and the next get_next parsed an already consumed line, and
calling it again at the end of data kept increasing the line number.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..2026d26 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -95,7 +95,10 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (!eof_) {
+            read_line();
+        }
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
diff --git a/ssp.hpp b/ssp.hpp
index 908b72d..35a96fb 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2373,7 +2373,10 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        if (!eof_) {
+            read_line();
+        }
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
-- 
2.43.0


From 3a61eff380e9ae268285198c30336f63273804c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 04/20] fix: use_fields skips the header when empty lines
 precede it

With ignore_empty the header is not necessarily on the first line, it was
returned as a data row if it was not.
---
 include/ss/parser.hpp | 6 +++++-
 ssp.hpp               | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 2026d26..e336a36 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -43,6 +43,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_file_not_open();
@@ -60,6 +61,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_null_buffer();
@@ -246,7 +248,8 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        // the header is the next line to be read
+        if (reader_.line_number_ == header_line_number_) {
             ignore_next();
         }
     }
@@ -1061,6 +1064,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
diff --git a/ssp.hpp b/ssp.hpp
index 35a96fb..640ee94 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2321,6 +2321,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_file_not_open();
@@ -2338,6 +2339,7 @@ public:
                 ignore_next();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_number_ = reader_.line_number_;
             }
         } else {
             handle_error_null_buffer();
@@ -2524,7 +2526,8 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        // the header is the next line to be read
+        if (reader_.line_number_ == header_line_number_) {
             ignore_next();
         }
     }
@@ -3339,6 +3342,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_number_{0};
     bool eof_{false};
 };
 
-- 
2.43.0


From fc36465cb6f95a877c88dc025247c2a34c39a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 05/20] fix: reads and substitute conversions past the end of
 data or an incomplete row

Reading on the end of data alternated between the eof error and the error of
an old row, and or_else converted leftovers of an earlier line, yielding rows
which do not exist. The same happened after a row whose multiline limit was
reached or which was unterminated.
---
 include/ss/parser.hpp | 34 +++++++++++++++++++---------------
 ssp.hpp               | 34 +++++++++++++++++++---------------
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index e336a36..94e6660 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -119,17 +119,23 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        row_split_ = false;
+
+        if (eof_) {
+            clear_error();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -140,11 +146,7 @@ public:
         }
 
         clear_error();
-
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
+        row_split_ = true;
 
         if constexpr (throw_on_error) {
             try {
@@ -416,7 +418,8 @@ public:
 
         template <typename U, typename... Us, typename Fun = none>
         void try_convert_and_invoke(std::optional<U>& value, Fun&& fun) {
-            if (parser_.valid()) {
+            // nothing to convert if eof was reached or the row is incomplete
+            if (parser_.valid() || !parser_.row_split_) {
                 return;
             }
 
@@ -1066,6 +1069,7 @@ private:
     std::string raw_header_;
     size_t header_line_number_{0};
     bool eof_{false};
+    bool row_split_{false};
 };
 
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index 640ee94..2c68232 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2397,17 +2397,23 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        row_split_ = false;
+
+        if (eof_) {
+            clear_error();
+            handle_error_eof_reached();
+            return {};
+        }
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -2418,11 +2424,7 @@ public:
         }
 
         clear_error();
-
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
+        row_split_ = true;
 
         if constexpr (throw_on_error) {
             try {
@@ -2694,7 +2696,8 @@ public:
 
         template <typename U, typename... Us, typename Fun = none>
         void try_convert_and_invoke(std::optional<U>& value, Fun&& fun) {
-            if (parser_.valid()) {
+            // nothing to convert if eof was reached or the row is incomplete
+            if (parser_.valid() || !parser_.row_split_) {
                 return;
             }
 
@@ -3344,6 +3347,7 @@ private:
     std::string raw_header_;
     size_t header_line_number_{0};
     bool eof_{false};
+    bool row_split_{false};
 };
 
 } /* namespace ss */
-- 
2.43.0


From 3d33950b393351164df61bb98e9ede8a2e52de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/20] fix: line number of exceptions thrown in front of
 ignored empty lines

The number was taken after the next line was read, which with ignore_empty
could be any number of lines further.
---
 include/ss/parser.hpp | 10 ++++++----
 ssp.hpp               | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 94e6660..0eeb5cf 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -131,8 +131,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const size_t line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -154,8 +155,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const size_t line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -752,12 +754,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
diff --git a/ssp.hpp b/ssp.hpp
index 2c68232..07d099d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2409,8 +2409,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const size_t line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -2432,8 +2433,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const size_t line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -3030,12 +3032,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
-- 
2.43.0


From 85a9aba0d5e0c1b0ea9cf518ad5a9b2167383b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 07/20] fix: release the file and the buffers of a parser
 assigned to

---
 include/ss/parser.hpp | 13 +++++++++----
 ssp.hpp               | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 0eeb5cf..6e5aa78 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -807,6 +807,7 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -836,6 +837,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -845,10 +854,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
diff --git a/ssp.hpp b/ssp.hpp
index 07d099d..c7a7964 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3085,6 +3085,7 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -3114,6 +3115,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -3123,10 +3132,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
-- 
2.43.0


From bce29e29b538b45577893d9d97152d12e2b7fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 08/20] fix: disable multiline in the header for a predefined
 setup too

parser<setup<quote<'"'>, multiline>> did not report an unterminated quote
within the header, unlike the equivalent parser<quote<'"'>, multiline>.
---
 include/ss/parser.hpp |  3 +--
 include/ss/setup.hpp  | 15 +++++++++++++++
 ssp.hpp               | 18 ++++++++++++++++--
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 6e5aa78..8b681c9 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -31,8 +31,7 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter = ss::splitter<ss::no_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index d0172ba..2c859d0 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -296,4 +296,19 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+////////////////
+// setup without multiline
+////////////////
+
+template <typename... Options>
+struct no_multiline {
+    using type = filter_not_t<is_instance_of_multiline, Options...>;
+};
+
+template <typename... Options>
+struct no_multiline<setup<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+using no_multiline_t = typename no_multiline<Options...>::type;
+
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index c7a7964..117938b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1064,6 +1064,21 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+////////////////
+// setup without multiline
+////////////////
+
+template <typename... Options>
+struct no_multiline {
+    using type = filter_not_t<is_instance_of_multiline, Options...>;
+};
+
+template <typename... Options>
+struct no_multiline<setup<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+using no_multiline_t = typename no_multiline<Options...>::type;
+
 } /* namespace ss */
 
 namespace ss {
@@ -2309,8 +2324,7 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter = ss::splitter<ss::no_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
-- 
2.43.0


From b58a82401c424d71e7783fd4220e2f3dbb82b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/20] fix: an empty line does not inherit the split error of
 an earlier line

---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..8583632 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -192,6 +192,7 @@ public:
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
         if (line[0] == '\0') {
+            splitter_.clear_error();
             return splitter_.get_split_data();
         }
 
diff --git a/ssp.hpp b/ssp.hpp
index 117938b..b18a3b4 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1995,6 +1995,7 @@ public:
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
         if (line[0] == '\0') {
+            splitter_.clear_error();
             return splitter_.get_split_data();
         }
 
-- 
2.43.0


From dab48bc2a719cbd2df04b421d110b9f2e0db1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 10/20] fix: floating point conversion without fast_float

A 64 character long value was terminated one past the end of the buffer and an
empty value was converted to 0.
---
 include/ss/extract.hpp | 4 ++--
 ssp.hpp                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..08c271b 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
@@ -70,7 +70,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (string_range == 0 || parse_end != buff + string_range) {
         return std::nullopt;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index b18a3b4..27f9e0d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1601,7 +1601,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
@@ -1619,7 +1619,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (string_range == 0 || parse_end != buff + string_range) {
         return std::nullopt;
     }
 
-- 
2.43.0


From d70f8d28af9393c6ff9723e1950d963c745df0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 11/20] fix: return default constructed objects when a
 conversion fails

The columns in front of the invalid one were returned with their values.
---
 include/ss/converter.hpp | 3 +++
 ssp.hpp                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 8583632..f32e417 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -482,6 +482,9 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+        if (!valid()) {
+            return {};
+        }
         return ret;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index 27f9e0d..4e13578 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2285,6 +2285,9 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+        if (!valid()) {
+            return {};
+        }
         return ret;
     }
 
-- 
2.43.0


From 8a532edc45a00ce3d68ce1177e301ef0813065a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 12/20] fix: read int8_t and uint8_t as single characters

As documented, ss::int8 and ss::uint8 are there to read them as numbers.
---
 include/ss/extract.hpp | 14 ++++++++++++++
 ssp.hpp                | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 08c271b..d6294b2 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -247,6 +247,20 @@ template <>
     return (end == begin + 1);
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  signed char& value) {
+    value = static_cast<signed char>(*begin);
+    return (end == begin + 1);
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  unsigned char& value) {
+    value = static_cast<unsigned char>(*begin);
+    return (end == begin + 1);
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
diff --git a/ssp.hpp b/ssp.hpp
index 4e13578..d461bd5 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1796,6 +1796,20 @@ template <>
     return (end == begin + 1);
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  signed char& value) {
+    value = static_cast<signed char>(*begin);
+    return (end == begin + 1);
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  unsigned char& value) {
+    value = static_cast<unsigned char>(*begin);
+    return (end == begin + 1);
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
-- 
2.43.0


From 906c25dd763ff5f5e99a005de1a380c252c9d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 13/20] fix: conversion of unterminated rows with multiline
 enabled

---
 include/ss/converter.hpp |  5 +++++
 include/ss/splitter.hpp  |  8 ++------
 ssp.hpp                  | 13 +++++++------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index f32e417..b7ee7cf 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -363,6 +363,11 @@ private:
             return {};
         }
 
+        if (splitter_.unterminated_quote()) {
+            handle_error_unterminated_quote();
+            return {};
+        }
+
         if (!columns_mapped()) {
             if (sizeof...(Ts) != elems.size()) {
                 handle_error_number_of_columns(sizeof...(Ts), elems.size());
diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 02d1ea6..7e506a1 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -265,9 +265,7 @@ private:
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
-                    if constexpr (!multiline::enabled) {
-                        handle_error_unterminated_escape();
-                    }
+                    handle_error_unterminated_escape();
                     done_ = true;
                     return;
                 }
@@ -396,9 +394,7 @@ private:
                             if (end_[1] == '\0') {
                                 // eol, unterminated escape
                                 // eg: ... "hel\\0
-                                if constexpr (!multiline::enabled) {
-                                    handle_error_unterminated_escape();
-                                }
+                                handle_error_unterminated_escape();
                                 done_ = true;
                                 break;
                             }
diff --git a/ssp.hpp b/ssp.hpp
index d461bd5..9c2124c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1338,9 +1338,7 @@ private:
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
-                    if constexpr (!multiline::enabled) {
-                        handle_error_unterminated_escape();
-                    }
+                    handle_error_unterminated_escape();
                     done_ = true;
                     return;
                 }
@@ -1469,9 +1467,7 @@ private:
                             if (end_[1] == '\0') {
                                 // eol, unterminated escape
                                 // eg: ... "hel\\0
-                                if constexpr (!multiline::enabled) {
-                                    handle_error_unterminated_escape();
-                                }
+                                handle_error_unterminated_escape();
                                 done_ = true;
                                 break;
                             }
@@ -2180,6 +2176,11 @@ private:
             return {};
         }
 
+        if (splitter_.unterminated_quote()) {
+            handle_error_unterminated_quote();
+            return {};
+        }
+
         if (!columns_mapped()) {
             if (sizeof...(Ts) != elems.size()) {
                 handle_error_number_of_columns(sizeof...(Ts), elems.size());
-- 
2.43.0


From f1d6f2bed1286633656e589d610b950ffa5ae8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 14/20] fix: line number in errors of chained conversions

The message of a failed or_else/or_object named the line that was read ahead
instead of the last line of the row.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 8b681c9..5da1e23 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -138,6 +138,7 @@ public:
             reader_.parse();
         }
 
+        row_line_number_ = reader_.line_number_;
         reader_.update();
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -657,7 +658,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -1074,6 +1075,8 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    // number of the last line of the row that was last read
+    size_t row_line_number_{0};
     bool eof_{false};
     bool row_split_{false};
 };
diff --git a/ssp.hpp b/ssp.hpp
index 9c2124c..d3e1772 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2450,6 +2450,7 @@ public:
             reader_.parse();
         }
 
+        row_line_number_ = reader_.line_number_;
         reader_.update();
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -2969,7 +2970,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -3386,6 +3387,8 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     size_t header_line_number_{0};
+    // number of the last line of the row that was last read
+    size_t row_line_number_{0};
     bool eof_{false};
     bool row_split_{false};
 };
-- 
2.43.0


From fe8f7a2d758e734e3f15b7a9b24396ec4752f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 15/20] fix: accept the same numbers with and without
 fast_float

Without fast_float (and so in the single header) leading spaces, a plus sign
and hexadecimal floating point numbers were accepted.
---
 include/ss/extract.hpp | 17 ++++++++++++++++-
 ssp.hpp                | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index d6294b2..e16e79d 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -14,6 +14,7 @@
 #else
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cstdlib>
 #endif
 
@@ -49,6 +50,20 @@ to_num(const char* const begin, const char* const end) {
     std::array<char, buff_max> short_buff;
 
     const size_t string_range = std::distance(begin, end);
+
+    // unlike from_chars, strtof and strtod accept leading spaces, a plus sign
+    // and hexadecimal numbers
+    if (string_range == 0 || *begin == '+' ||
+        std::isspace(static_cast<unsigned char>(*begin))) {
+        return std::nullopt;
+    }
+
+    const size_t sign_size = *begin == '-' ? 1 : 0;
+    if (string_range > sign_size + 1 && begin[sign_size] == '0' &&
+        (begin[sign_size + 1] == 'x' || begin[sign_size + 1] == 'X')) {
+        return std::nullopt;
+    }
+
     std::string long_buff;
 
     char* buff = nullptr;
@@ -70,7 +85,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (string_range == 0 || parse_end != buff + string_range) {
+    if (parse_end != buff + string_range) {
         return std::nullopt;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index d3e1772..cc2ba4a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <algorithm>
 #include <array>
+#include <cctype>
 #include <cerrno>
 #include <charconv>
 #include <cstdint>
@@ -1594,6 +1595,20 @@ to_num(const char* const begin, const char* const end) {
     std::array<char, buff_max> short_buff;
 
     const size_t string_range = std::distance(begin, end);
+
+    // unlike from_chars, strtof and strtod accept leading spaces, a plus sign
+    // and hexadecimal numbers
+    if (string_range == 0 || *begin == '+' ||
+        std::isspace(static_cast<unsigned char>(*begin))) {
+        return std::nullopt;
+    }
+
+    const size_t sign_size = *begin == '-' ? 1 : 0;
+    if (string_range > sign_size + 1 && begin[sign_size] == '0' &&
+        (begin[sign_size + 1] == 'x' || begin[sign_size + 1] == 'X')) {
+        return std::nullopt;
+    }
+
     std::string long_buff;
 
     char* buff = nullptr;
@@ -1615,7 +1630,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (string_range == 0 || parse_end != buff + string_range) {
+    if (parse_end != buff + string_range) {
         return std::nullopt;
     }
 
-- 
2.43.0


From 68881f5e2c8512ca66ce7f140096f1e32b57a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 16/20] fix: forget the header fields in front of a duplicate
 in throw_on_error mode

A second use_fields or field_exists used the fields found before the
duplicate as if they were the header.
---
 include/ss/parser.hpp | 3 ++-
 ssp.hpp               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 5da1e23..7ff93ba 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -571,8 +571,9 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
+                // this may throw
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
diff --git a/ssp.hpp b/ssp.hpp
index cc2ba4a..541d60f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2898,8 +2898,9 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
+                // this may throw
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
-- 
2.43.0


From 3f6eda4fd18d22b6315fad04aeab234d09b2e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 17/20] fix: reject ignore_header and ignore_empty given twice

---
 include/ss/setup.hpp | 6 ++++++
 ssp.hpp              | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index 2c859d0..107d922 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -283,6 +283,12 @@ private:
     static_assert(count_throw_on_error <= 1,
                   "throw_on_error defined multiple times");
 
+    static_assert(count_ignore_header <= 1,
+                  "ignore_header defined multiple times");
+
+    static_assert(count_ignore_empty <= 1,
+                  "ignore_empty defined multiple times");
+
     static_assert(count_throw_on_error + count_string_error <= 1,
                   "cannot define both throw_on_error and string_error");
 
diff --git a/ssp.hpp b/ssp.hpp
index 541d60f..3d62ed3 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1052,6 +1052,12 @@ private:
     static_assert(count_throw_on_error <= 1,
                   "throw_on_error defined multiple times");
 
+    static_assert(count_ignore_header <= 1,
+                  "ignore_header defined multiple times");
+
+    static_assert(count_ignore_empty <= 1,
+                  "ignore_empty defined multiple times");
+
     static_assert(count_throw_on_error + count_string_error <= 1,
                   "cannot define both throw_on_error and string_error");
 
-- 
2.43.0


From d1cf156a9a7cbdfeac2ece7a300e290da2265be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 18/20] fix: name the file when use_fields is given no field

---
 include/ss/parser.hpp | 6 +++---
 ssp.hpp               | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 7ff93ba..853801e 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -696,13 +696,13 @@ private:
 
     void handle_error_invalid_use_fields_argument() {
         constexpr static auto error_msg =
-            "received invalid argument for 'use_fields'";
+            ": received invalid argument for 'use_fields'";
 
         if constexpr (string_error) {
             error_.clear();
-            error_.append(error_msg);
+            error_.append(file_name_).append(error_msg);
         } else if constexpr (throw_on_error) {
-            throw ss::exception{error_msg};
+            throw ss::exception{file_name_ + error_msg};
         } else {
             error_ = true;
         }
diff --git a/ssp.hpp b/ssp.hpp
index 3d62ed3..721e40a 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3029,13 +3029,13 @@ private:
 
     void handle_error_invalid_use_fields_argument() {
         constexpr static auto error_msg =
-            "received invalid argument for 'use_fields'";
+            ": received invalid argument for 'use_fields'";
 
         if constexpr (string_error) {
             error_.clear();
-            error_.append(error_msg);
+            error_.append(file_name_).append(error_msg);
         } else if constexpr (throw_on_error) {
-            throw ss::exception{error_msg};
+            throw ss::exception{file_name_ + error_msg};
         } else {
             error_ = true;
         }
-- 
2.43.0


From 6d9b47e902ade210f8a5d9069e75ca6d3aed755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 19/20] fix: keep null characters of lines read without getline

fgets does not tell how much it has read: a line with a null character
was joined with the next one, and a line starting with one was looked at
in front of the buffer.
---
 include/ss/common.hpp | 27 +++++++++------------------
 ssp.hpp               | 27 +++++++++------------------
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index fe231d7..76c3a39 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -6,7 +6,6 @@
 #include <vector>
 
 #if !__unix__
-#include <array>
 #include <cstdint>
 #endif
 
@@ -52,36 +51,28 @@ using ssize_t = intptr_t;
 
 [[nodiscard]] inline ssize_t get_line_file(char*& lineptr, size_t& n,
                                            FILE* file) {
-    std::array<char, get_line_initial_buffer_size> buff;
-
-    if (lineptr == nullptr || n < sizeof(buff)) {
-        const size_t new_n = sizeof(buff);
+    if (lineptr == nullptr || n < get_line_initial_buffer_size) {
+        const size_t new_n = get_line_initial_buffer_size;
         lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
         n = new_n;
     }
 
-    lineptr[0] = '\0';
-
+    // a line may contain null characters, fgets would lose its size
     size_t line_used = 0;
-    while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
-
-        if (n <= buff_used + line_used) {
+    for (int c = std::getc(file); c != EOF; c = std::getc(file)) {
+        if (line_used + 1 >= n) {
             const size_t new_n = n * 2;
             lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
             n = new_n;
         }
 
-        std::memcpy(lineptr + line_used, buff.data(), buff_used);
-        line_used += buff_used;
-        lineptr[line_used] = '\0';
-
-        if (lineptr[line_used - 1] == '\n') {
-            return line_used;
+        lineptr[line_used++] = static_cast<char>(c);
+        if (c == '\n') {
+            break;
         }
     }
 
+    lineptr[line_used] = '\0';
     return (line_used != 0) ? line_used : -1;
 }
 
diff --git a/ssp.hpp b/ssp.hpp
index 721e40a..e4930cf 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -624,7 +624,6 @@ struct ne {
 } /* namespace ss */
 
 #if !__unix__
-#include <array>
 #include <cstdint>
 #endif
 
@@ -670,36 +669,28 @@ using ssize_t = intptr_t;
 
 [[nodiscard]] inline ssize_t get_line_file(char*& lineptr, size_t& n,
                                            FILE* file) {
-    std::array<char, get_line_initial_buffer_size> buff;
-
-    if (lineptr == nullptr || n < sizeof(buff)) {
-        const size_t new_n = sizeof(buff);
+    if (lineptr == nullptr || n < get_line_initial_buffer_size) {
+        const size_t new_n = get_line_initial_buffer_size;
         lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
         n = new_n;
     }
 
-    lineptr[0] = '\0';
-
+    // a line may contain null characters, fgets would lose its size
     size_t line_used = 0;
-    while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
-
-        if (n <= buff_used + line_used) {
+    for (int c = std::getc(file); c != EOF; c = std::getc(file)) {
+        if (line_used + 1 >= n) {
             const size_t new_n = n * 2;
             lineptr = static_cast<char*>(strict_realloc(lineptr, new_n));
             n = new_n;
         }
 
-        std::memcpy(lineptr + line_used, buff.data(), buff_used);
-        line_used += buff_used;
-        lineptr[line_used] = '\0';
-
-        if (lineptr[line_used - 1] == '\n') {
-            return line_used;
+        lineptr[line_used++] = static_cast<char>(c);
+        if (c == '\n') {
+            break;
         }
     }
 
+    lineptr[line_used] = '\0';
     return (line_used != 0) ? line_used : -1;
 }
 
-- 
2.43.0


From a3de3dfe62b1c9d7f8a5879ee3bfce4108aa9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:26 +0000
Subject: [PATCH 20/20] fix: without fast_float decimal numbers were read with
 the decimal point of the C locale

---
 include/ss/extract.hpp | 23 +++++++++++++++++++++--
 ssp.hpp                | 23 +++++++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index e16e79d..67df0cb 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <array>
 #include <cctype>
+#include <clocale>
 #include <cstdlib>
 #endif
 
@@ -64,12 +65,30 @@ to_num(const char* const begin, const char* const end) {
         return std::nullopt;
     }
 
+    // strtof and strtod use the decimal point of the current locale
+    const std::string_view point{std::localeconv()->decimal_point};
+    const bool localized = point != ".";
+
     std::string long_buff;
+    size_t buff_size = string_range;
 
     char* buff = nullptr;
-    if (string_range >= buff_max) {
+    if (string_range >= buff_max || localized) {
         long_buff = std::string{begin, end};
+
+        if (localized) {
+            if (long_buff.find(point) != std::string::npos) {
+                return std::nullopt;
+            }
+
+            const size_t dot = long_buff.find('.');
+            if (dot != std::string::npos) {
+                long_buff.replace(dot, 1, point);
+            }
+        }
+
         buff = long_buff.data();
+        buff_size = long_buff.size();
     } else {
         buff = short_buff.data();
         buff[string_range] = '\0';
@@ -85,7 +104,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (parse_end != buff + buff_size) {
         return std::nullopt;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index e4930cf..f20e7e9 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cerrno>
 #include <charconv>
+#include <clocale>
 #include <cstdint>
 #include <cstdio>
 #include <cstdlib>
@@ -1606,12 +1607,30 @@ to_num(const char* const begin, const char* const end) {
         return std::nullopt;
     }
 
+    // strtof and strtod use the decimal point of the current locale
+    const std::string_view point{std::localeconv()->decimal_point};
+    const bool localized = point != ".";
+
     std::string long_buff;
+    size_t buff_size = string_range;
 
     char* buff = nullptr;
-    if (string_range >= buff_max) {
+    if (string_range >= buff_max || localized) {
         long_buff = std::string{begin, end};
+
+        if (localized) {
+            if (long_buff.find(point) != std::string::npos) {
+                return std::nullopt;
+            }
+
+            const size_t dot = long_buff.find('.');
+            if (dot != std::string::npos) {
+                long_buff.replace(dot, 1, point);
+            }
+        }
+
         buff = long_buff.data();
+        buff_size = long_buff.size();
     } else {
         buff = short_buff.data();
         buff[string_range] = '\0';
@@ -1627,7 +1646,7 @@ to_num(const char* const begin, const char* const end) {
         ret = std::strtod(buff, &parse_end);
     }
 
-    if (parse_end != buff + string_range) {
+    if (parse_end != buff + buff_size) {
         return std::nullopt;
     }
 
-- 
2.43.0

