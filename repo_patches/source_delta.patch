From e7afe692ace97fdd904bc9c21fe1543fabd95200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 01/20] fix: opt_parser: report the option prefix as it was
 given

For `--opt' the second prefix character was read one byte too far, so the
message named the option `-o...' instead of `--...'.
---
 src/opt_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt_parser.h b/src/opt_parser.h
index 2d08a43..6ab6478 100644
--- a/src/opt_parser.h
+++ b/src/opt_parser.h
@@ -337,7 +337,7 @@ bool opt_get_arg(struct opt_args *a, const char *opt, size_t len)
     p++;
 
     if (_opt_prefix_long && a->pfxlen == 2) {
-        pfx[1] = p[1];
+        pfx[1] = p[0];
         p++;
     }
 
-- 
2.43.0


From 5a0d0919e5651d6ba4c31f5c76a8620c914d9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 02/20] fix: opt_parser: opt_iterate() sets current to NULL at
 the end, as documented

---
 src/opt_parser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opt_parser.h b/src/opt_parser.h
index 6ab6478..f92dba0 100644
--- a/src/opt_parser.h
+++ b/src/opt_parser.h
@@ -231,6 +231,7 @@ bool opt_iterate(struct opt_args *a)
     a->iter++;
 
     if (a->iter >= a->argc) {
+        a->current = NULL;
         return false;
     }
 
-- 
2.43.0


From b807940e2bf11e4bd44a9a5ef7fceb48b5f37191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 03/20] fix: plugin loader: handle allocation failure

gdo_load_plugins() dereferenced the results of malloc() and calloc()
unchecked; return NULL when out of memory.
---
 src/templates/plugin.c | 8 ++++++++
 src/templates/plugin.h | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index 449afa7..ed8d90a 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -33,8 +33,16 @@ GDO_LINKAGE gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
 
     /* allocate struct */
     gdo_plugin_t *plug = (gdo_plugin_t *)malloc(sizeof(gdo_plugin_t));
+    if (!plug) {
+        return NULL;
+    }
+
     plug->num = num;
     plug->list = (gdo_handle_t *)calloc(num, sizeof(gdo_handle_t));
+    if (!plug->list) {
+        free(plug);
+        return NULL;
+    }
 
     for (size_t i = 0; i < num; i++) {
         if (!files[i] || *files[i] == 0) {
diff --git a/src/templates/plugin.h b/src/templates/plugin.h
index 86a9531..9401210 100644
--- a/src/templates/plugin.h
+++ b/src/templates/plugin.h
@@ -59,7 +59,7 @@ typedef struct _gdo_plugin
  *
  * To ensure loading was successful you must check the library handle and function
  * pointers of each entry of the returned `gdo_plugin.list' array.
- * If `files' is NULL or `num' is 0 a NULL pointer is returned.
+ * If `files' is NULL or `num' is 0 or out of memory a NULL pointer is returned.
  */
 GDO_DECL gdo_plugin_t *gdo_load_plugins(const gdo_char_t **files, size_t num)
     GDO_GCC_ATTRIBUTE (warn_unused_result);
-- 
2.43.0


From 87df3915ca5b12227483f5d11f1dc74a0a60c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 04/20] fix: generated C API: report a library path that does
 not fit the buffer

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..d9a5b8e 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -819,6 +819,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -858,6 +859,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From bc0752616a8f775ef9b63ed1b5d2c8eb9a67a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 05/20] fix: parser: try the parenthesised forms before TYPE
 SYMBOL ( )

---
 src/parse.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..3ba6ca8 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -236,10 +236,12 @@ namespace /* anonymous */
         switch (utils::str_front(*it))
         {
         case '(':
-            return (check_function(v, p, it)                 || /* TYPE SYMBOL ( ) */
-                    check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
+            /* check_function() must be last: in `unsigned int (*foo)(void)' the
+             * type's last identifier could be mistaken for a function name */
+            return (check_function_pointer(v, p, it)         || /* TYPE ( * SYMBOL ) ( ) */
                     check_function_paren(v, p, it)           || /* TYPE ( SYMBOL ) ( ) */
-                    check_function_paren_pointer(v, p, it));    /* TYPE ( * SYMBOL ( ) ) */
+                    check_function_paren_pointer(v, p, it)   || /* TYPE ( * SYMBOL ( ) ) */
+                    check_function(v, p, it));                  /* TYPE SYMBOL ( ) */
 
         case '[':
             return check_array(v, p, it);
-- 
2.43.0


From 2143236603086e657fcd12abd2f741c819b4849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 06/20] fix: -param=create: do not list `...' as a parameter
 name

---
 src/parameter_names.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..c19b090 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -237,10 +237,10 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
             return false;
         }
 
-        /* don't append anything to `...' */
+        /* don't append anything to `...'
+         * and don't append it to proto.param_names */
         if (v.size() == 1 && v.front() == "...") {
             proto.args += "... , ";
-            proto.param_names += "... , ";
             continue;
         }
 
-- 
2.43.0


From c529255e1b0b3141aacfcafac1e3e51302bd835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 07/20] fix: parser: do not drop an empty last parameter

---
 src/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 3ba6ca8..e95f085 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -95,7 +95,8 @@ namespace /* anonymous */
             tokens.push_back(*it);
         }
 
-        if (!tokens.empty()) {
+        /* there's always a parameter after a comma (can be empty) */
+        if (!tokens.empty() || !proto.args_vec.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
     }
-- 
2.43.0


From 0f1f73dc639a9d96967cc68d501bd4d7563a509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 08/20] fix: -templates-path: use the loaded license and macro
 templates, not a stale pointer

---
 src/data.cpp      | 3 +++
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..fef85c6 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -74,6 +74,9 @@ namespace /* anonymous */
 
         FILE *fp = ofs.file_pointer();
 
+        /* the template may have been loaded before */
+        data.clear();
+
         template_t entry;
         entry.maybe_keyword = false;
         entry.line_count = 1;
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..843526c 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -106,7 +106,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t *&ptr);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..18bb712 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -387,11 +387,13 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t *&ptr)
 {
     size_t total_lines = 0;
 
+    /* may set a new pointer value */
     load_template(file);
+    const template_t *list = ptr;
 
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
-- 
2.43.0


From dd6d6c2b97d05ec25e8af2b160cf19d1633be36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 09/20] fix: template files: no extra lines at the begin and
 end

---
 src/data.cpp      | 8 +++++++-
 src/gendlopen.cpp | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/data.cpp b/src/data.cpp
index fef85c6..6e29a16 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -86,7 +86,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + "\"";
             }
 
             data.push_back(entry);
@@ -95,6 +95,12 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
+
+            if (!rv && entry.data.empty()) {
+                /* nothing after the last newline */
+                break;
+            }
+
             data.push_back(entry);
         }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..e2c1fd9 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -207,6 +207,12 @@ void gendlopen::process_custom_template()
     /* parse lines */
     while (rv) {
         rv = utils::get_lines(fp, entry);
+
+        if (!rv && entry.data.empty()) {
+            /* nothing after the last newline */
+            break;
+        }
+
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
-- 
2.43.0


From 62e094afe412b9710ff48f4dcafe6308de747b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 10/20] fix: -dump-templates: do not save the initial #line
 directive

---
 src/data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 6e29a16..55ac3c8 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -122,6 +122,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* skip initial line directive, it's not part of the template file */
+        if (list->data.starts_with("#line")) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
-- 
2.43.0


From 833c1c72f4e7a8c42c766150f8043c35e412a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 11/20] fix: -line: correct line number after a skipped
 template entry

---
 src/substitute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..9737eb1 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -269,13 +269,13 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
         if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+            /* number of the next line */
+            save::ofs << "#line " << (m_substitute_lineno + utils::count_linefeed(buf) + 1) << '\n';
+            return 1; /* 1 line */
         }
 
-        return entry_lines;
+        return 0; /* no line */
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From ff6b2fcfc3e0ad9b86dc51314c697870c45b3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 12/20] fix: -library: quote names that begin with `n', `e' or
 `a' but have no mode

---
 src/generate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 18bb712..c8d8f20 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -160,7 +160,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_a = lib_w = str.substr(3);
             break;
         }
-        return {};
+        [[fallthrough]];
 
     case 'E':
     case 'e':
@@ -171,7 +171,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
             lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
             break;
         }
-        return {};
+        [[fallthrough]];
 
     case 'A':
     case 'a':
@@ -188,7 +188,7 @@ std::string format_libname(const std::string &str, const std::string &pfx)
                 break;
             }
         }
-        return {};
+        [[fallthrough]];
 
     default:
         /* quote string */
-- 
2.43.0


From 2cfe1699a56b4e2d5b7f27a6ba1414ca14efe626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 13/20] fix: Clang AST: do not report a listed symbol as
 missing if it is also prefixed

---
 src/clang_ast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..4f45968 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -184,8 +184,9 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
+        /* always erase from list if found */
+        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
+            !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
             return 0;
         }
-- 
2.43.0


From e352b402b75f2e84a3f5da9735729d13dd8f21d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 14/20] fix: Clang AST: keep the variable arguments of
 functions

---
 src/clang_ast.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 4f45968..2e429f4 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -129,6 +129,25 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     return true;
 }
 
+
+/* check for variable arguments in a function's type: 'int (const char *, ...)' */
+bool has_va_args(const std::string &type)
+{
+    int scope = 0;
+
+    for (const char &c : type) {
+        if (c == '(') {
+            scope++;
+        } else if (c == ')') {
+            scope--;
+        } else if (c == '.' && scope == 1) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 } /* end anonymous namespace */
 
 
@@ -210,6 +229,8 @@ int gendlopen::get_declarations(filter::mode mode)
         proto.type = m.str(2).substr(0, pos);
         utils::strip_spaces(proto.type);
 
+        const bool variadic = has_va_args(m.str(2));
+
         /* read next lines for parameters */
         while ((rv = lex::lex()) == LEX_AST_PARMVAR) {
             if (!get_parameters(proto.args, proto.param_names, param_count)) {
@@ -217,6 +238,11 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
+        /* variable arguments are not listed as a parameter */
+        if (variadic && !proto.args.empty()) {
+            proto.args += "..., ";
+        }
+
         utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
-- 
2.43.0


From 61dc4382454b212c7a09856529cecf688d596013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 15/20] fix: -prefix: replace adjacent standalone prefixes

---
 src/gendlopen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index e2c1fd9..b1ad5db 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -132,7 +132,7 @@ void gendlopen::prefix(const char *str)
     /* set regex format string (used in substitute.cpp) */
     m_fmt_upper = "$1" + m_pfx_upper + '_';
     m_fmt_lower = "$1" + m_pfx_lower + '_';
-    m_fmt_standalone = "$1" + m_pfx_lower + "$3";
+    m_fmt_standalone = "$1" + m_pfx_lower;
 }
 
 
@@ -152,7 +152,7 @@ std::string gendlopen::replace_prefixes(const std::string &input)
     );
 
     const std::regex reg_standalone(
-        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(" NOT_IDENT "|" LINE_END ")"
+        "(" NOT_IDENT "|" LINE_BEGIN ")(gdo)(?=" NOT_IDENT "|" LINE_END ")"
     );
 
     std::string buf;
-- 
2.43.0


From 45b2ff98d414b52c021fadc3eadd93ff0d46916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 16/20] fix: gen_templates_data: unambiguous escape sequences

---
 src/gen_templates_data.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index e55adcd..497b768 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -119,7 +119,7 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
             /* concatenate lines ending on »@\n« */
             if (READ_NEXT() == '\r' && READ_NEXT() != '\n') {
                 /* not a »\r\n« line ending */
-                fprintf(fpOut, "%s", "@\r");
+                fprintf(fpOut, "%s", "@\\r");
                 ungetc(c, fp);
                 break;
             }
@@ -141,7 +141,7 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
 
         default:
             if (c < ' ' || c > '~') {
-                fprintf(fpOut, "\\x%02X", (unsigned char)c);
+                fprintf(fpOut, "\\%03o", (unsigned char)c);
             } else {
                 fprintf(fpOut, "%c", (char)c);
             }
-- 
2.43.0


From 5921e112bc0fb5eb9253a72036096d1245a0f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 17/20] fix: report output write errors

---
 src/cio_ofstream.cpp |  5 +++++
 src/cio_ofstream.hpp |  3 +++
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  6 ++++++
 src/gendlopen.hpp    |  3 +++
 src/generate.cpp     | 14 +++++++++++++-
 6 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..58c145d 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -61,4 +61,9 @@ void ofstream::close()
     m_optr = &std::cout;
 }
 
+bool ofstream::flush()
+{
+    return m_optr->flush().good();
+}
+
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..1eda5b2 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -66,6 +66,9 @@ public:
 
     void close();
 
+    /* write out buffered data; returns false if any write operation failed */
+    bool flush();
+
     /* overloading "<<" operator */
     template<class T>
     std::ostream& operator<<(const T &obj) {
diff --git a/src/data.cpp b/src/data.cpp
index 55ac3c8..7fd4d92 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -143,6 +143,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.flush()) {
+            throw gendlopen::error(std::string("failed to write output: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index b1ad5db..6da25f8 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -216,6 +216,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream(m_output);
 }
 
 
@@ -255,5 +257,9 @@ void gendlopen::print_symbols_to_stdout()
     }
 
     std::cout << "\n/***  " << (m_objects.size() + m_prototypes.size()) << " matches  ***/" << std::endl;
+
+    if (!std::cout.good()) {
+        throw error("failed to write output: <STDOUT>");
+    }
 }
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 843526c..a3d255b 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,9 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+
+    /* flush and close output file stream, throws an error if writing has failed */
+    void close_ofstream(const std::filesystem::path &opath);
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index c8d8f20..3053676 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -370,6 +370,16 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* flush and close output file stream */
+void close_ofstream(const fs::path &opath)
+{
+    if (!ofs.flush()) {
+        throw gendlopen::error("failed to write output: " + (opath.empty() ? "<STDOUT>" : opath.string()));
+    }
+
+    ofs.close();
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -521,7 +531,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream(ofhdr);
 
 
     /**************** body data ****************/
@@ -533,6 +543,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream(ofbody);
     }
 }
 
-- 
2.43.0


From e2342a3e13c17375dd3c714c967b7f237bc2b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 18/20] fix: templates: adjacent placeholders were replaced a
 second time

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..8bdc3c8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -146,7 +146,7 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0


From e5711d3124da5355d9000c5c4eb67f17533d2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 19/20] fix: report file system errors instead of aborting

---
 src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..d2d1a13 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <filesystem>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -66,6 +67,10 @@ int main(int argc, char **argv)
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
+    catch (const std::filesystem::filesystem_error &e) {
+        std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 18d33913f967a949e3067de209c2752cd42877ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 20/20] fix: parser: match redundant parentheses by pairs

A pair was searched by its depth only, past the end of the outer pair:
`void f(int ((x)[2]), int ((y)))' lost parentheses that do not belong
together, and `int (((*f))(int))' was not reduced at all.
---
 src/tokenize.cpp | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..1efd7e9 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -238,29 +238,23 @@ namespace /* anonymous */
 
 
     /* inner loop */
-    bool erase_Rparen(ventry_t &v,
-                      ventry_t::iterator &inner_Lparen,
-                      ventry_t::iterator &outer_Lparen)
+    bool erase_outer_parentheses(ventry_t &v, ventry_t::iterator &outer_Lparen)
     {
-        for (auto it = inner_Lparen + 1; it != v.end(); it++) {
-            /* check for two consecutive closing parentheses */
-            if (!consec_match(v, it, ')')) {
+        for (auto it = outer_Lparen + 2; it != v.end(); it++) {
+            /* find the closing parenthesis that belongs to the outer one */
+            if ((*it).ch != ')' || (*it).num != (*outer_Lparen).num) {
                 continue;
             }
 
-            /* next iterator is not v.end() */
-            auto inner_Rparen = it;     /* -->)) */
-            auto outer_Rparen = it + 1; /*    ))<-- */
-
-            /* check for matching numbers */
-            if ((*inner_Lparen).num == (*inner_Rparen).num &&
-                (*outer_Lparen).num == (*outer_Rparen).num)
-            {
-                /* delete inner parentheses */
-                v.erase(inner_Rparen);
-                v.erase(inner_Lparen);
-                return true;
+            /* check for two consecutive closing parentheses */
+            if ((*(it - 1)).ch != ')') {
+                return false;
             }
+
+            /* delete outer parentheses */
+            v.erase(it);
+            outer_Lparen = v.erase(outer_Lparen);
+            return true;
         }
 
         return false;
@@ -271,15 +265,9 @@ namespace /* anonymous */
     {
         for (auto it = v.begin(); it != v.end(); ) {
             /* check for two consecutive opening parentheses */
-            if (consec_match(v, it, '(')) {
-                /* next iterator is not v.end() */
-                auto outer_Lparen = it;     /* -->(( */
-                auto inner_Lparen = it + 1; /*    ((<-- */
-
-                if (erase_Rparen(v, inner_Lparen, outer_Lparen)) {
-                    /* don't increment iterator */
-                    continue;
-                }
+            if (consec_match(v, it, '(') && erase_outer_parentheses(v, it)) {
+                /* don't increment iterator */
+                continue;
             }
 
             it++;
-- 
2.43.0

