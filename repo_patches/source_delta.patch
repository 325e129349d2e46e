From c5d62c2b681407ae3db149f5ab132a49d85a0aee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 01/86] fix: check the rewinding seek in sr_file_to_string

A failed seek back to the start left the descriptor at the end of the
file, so when the file had grown meanwhile the call returned only the
newly appended bytes as if they were the whole contents.
---
 lib/utils.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..267ff36 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -175,7 +175,15 @@ sr_file_to_string(const char *filename,
         return NULL;
     }
 
-    lseek(fd, 0, SEEK_SET); /* No reason to fail. */
+    if (lseek(fd, 0, SEEK_SET) == (off_t)-1)
+    {
+        *error_message = g_strdup_printf("Unable to seek in '%s': %s.",
+                                     filename,
+                                     strerror(errno));
+
+        close(fd);
+        return NULL;
+    }
 
     if (size > FILE_SIZE_LIMIT)
     {
-- 
2.43.0


From a29b29a780101b0a36d920d7638d88b5b92be00d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 02/86] fix: escape every control character in JSON strings

---
 lib/json_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..dc44206 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,11 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            /* Control characters must not appear in JSON strings literally. */
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 4410edaa4fe0568c181da4809cfc8f189cd36fe6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 03/86] fix: read unsigned numbers from JSON over their whole
 range

---
 lib/json_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index dc44206..43535e3 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -38,9 +38,9 @@
 
 #define NOOP
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
-DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, uint64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, NOOP)
+DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int64, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
 
-- 
2.43.0


From 44f8073e1e3b435b8ce6b99a0cb1a7611ec884bd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 04/86] fix: escape the reporter name and version in report
 JSON

---
 lib/report.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..f645057 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -209,9 +209,12 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
+    GString *reporter_buf = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_name);
+    g_string_append(reporter_buf, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_version);
+    g_string_append(reporter_buf, "\n}");
+    char *reporter = g_string_free(reporter_buf, FALSE);
     char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
     g_free(reporter);
     g_string_append_printf(strbuf,
-- 
2.43.0


From 77ceda3f1b5f091c8332323c48981741c4271f54 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 05/86] fix: write reports that have no stack trace

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index f645057..2910151 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -196,7 +196,8 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace ? sr_stacktrace_get_reason(report->stacktrace)
+                                    : g_strdup("invalid");
         break;
     }
 
-- 
2.43.0


From 57d848caa22db926ce9a35e455e6d19b7cc5c4fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 06/86] fix: write well-formed report JSON for an empty stack
 trace

---
 lib/report.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 2910151..dcd4455 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -158,8 +158,12 @@ problem_object_string(struct sr_report *report, const char *report_type)
     if (report->stacktrace)
     {
         char *stacktrace = sr_stacktrace_to_json(report->stacktrace);
-        dismantle_object(stacktrace);
-        g_string_append(strbuf, stacktrace);
+        /* An empty stack trace has no member to include. */
+        if (0 != strcmp(stacktrace, "{}"))
+        {
+            dismantle_object(stacktrace);
+            g_string_append(strbuf, stacktrace);
+        }
         g_free(stacktrace);
     }
 
-- 
2.43.0


From ece9f6e0b066782ef1148a40deaea53734f6a70b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 07/86] fix: read the user object from where report JSON stores
 it

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index dcd4455..2a73bea 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -386,7 +386,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From 78490c8b9e700f611826d763474efd28ee14be74 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 08/86] fix: read the stack trace of JavaScript reports

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index 2a73bea..4a33f7f 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -409,6 +409,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From e995eef8faac8eb81f813c274de69069c8fe8ec2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 09/86] fix: refuse report JSON whose stack trace cannot be
 read

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 4a33f7f..44fb5a1 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -411,6 +411,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From d45f063fd8c72479fbfd4723bbc427e1698f720a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 10/86] fix: do not leave an error message when report JSON is
 accepted

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 44fb5a1..63775cb 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -442,7 +442,7 @@ sr_report_from_json(json_object *root, char **error_message)
             child_name = lh_entry_k(entry);
             child_value = lh_entry_v(entry);
 
-            if (!json_check_type(child_value, json_type_string, child_name, error_message))
+            if (!json_object_is_type(child_value, json_type_string))
                 continue;
 
             string = json_object_get_string(child_value);
-- 
2.43.0


From 258229622c32ab28ecb6bd156ebd52acf94e19a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 11/86] fix: release the reporter strings when report JSON is
 refused

---
 lib/report.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 63775cb..84b250c 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -327,6 +327,8 @@ sr_report_from_json(json_object *root, char **error_message)
 
     bool success;
     struct sr_report *report = sr_report_new();
+    g_autofree char *reporter_name = NULL;
+    g_autofree char *reporter_version = NULL;
 
     /* Report version. */
     if (!JSON_READ_UINT32(root, "ureport_version", &report->report_version))
@@ -339,8 +341,8 @@ sr_report_from_json(json_object *root, char **error_message)
     {
         success =
             json_check_type(reporter, json_type_object, "reporter", error_message) &&
-            JSON_READ_STRING(reporter, "name", &report->reporter_name) &&
-            JSON_READ_STRING(reporter, "version", &report->reporter_version);
+            JSON_READ_STRING(reporter, "name", &reporter_name) &&
+            JSON_READ_STRING(reporter, "version", &reporter_version);
 
         if (!success)
             goto fail;
@@ -451,6 +453,12 @@ sr_report_from_json(json_object *root, char **error_message)
         }
     }
 
+    /* sr_report_free() does not release these two. */
+    if (reporter_name)
+        report->reporter_name = g_steal_pointer(&reporter_name);
+    if (reporter_version)
+        report->reporter_version = g_steal_pointer(&reporter_version);
+
     return report;
 
 fail:
-- 
2.43.0


From 2d104b6a4a73b84dc8714843376de78766069b99 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 12/86] fix: write well-formed JSON for a core stack trace
 without threads

---
 lib/core_stacktrace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..33a7797 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -271,6 +271,9 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
     g_string_append(strbuf, ",   \"stacktrace\":\n");
 
     struct sr_core_thread *thread = stacktrace->threads;
+    if (!thread)
+        g_string_append(strbuf, "      [");
+
     while (thread)
     {
         if (thread == stacktrace->threads)
-- 
2.43.0


From d97c3757af02f9707f80cb4969eac781e10d3ebe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 13/86] fix: keep the crash thread mark of a core thread
 without frames in JSON

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..2b6cebb 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true\n}");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From cf697063ea16e7587533bf8a152f7883d82cba04 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 14/86] fix: write well-formed JSON for Python, Ruby and
 JavaScript frames without members

---
 lib/js_frame.c     | 6 +++++-
 lib/python_frame.c | 6 +++++-
 lib/ruby_frame.c   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..292af99 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -456,7 +456,11 @@ sr_js_frame_to_json(struct sr_js_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..d9c6c76 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -397,7 +397,11 @@ sr_python_frame_to_json(struct sr_python_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..20e68e5 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -390,7 +390,11 @@ sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
     }
 
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
-- 
2.43.0


From d40390b09bd8332e9aeab4403bba8d85d7aaef18 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 15/86] fix: read the CPE of an operating system from JSON

---
 lib/operating_system.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..1af9cfb 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -143,6 +143,8 @@ sr_operating_system_from_json(json_object *root, char **error_message)
     JSON_READ_STRING(root, "desktop", &result->desktop);
     /* variant is optional - failure is not fatal */
     JSON_READ_STRING(root, "variant", &result->variant);
+    /* cpe is optional - failure is not fatal */
+    JSON_READ_STRING(root, "cpe", &result->cpe);
 
     if (!success)
     {
-- 
2.43.0


From 240a0c2a2bbe76feb36cd4c8bf20561dfe944f22 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 16/86] fix: do not leave an error message when operating
 system JSON is accepted

---
 lib/operating_system.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 1af9cfb..1e7c0fe 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -140,11 +140,11 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
     /* cpe is optional - failure is not fatal */
-    JSON_READ_STRING(root, "cpe", &result->cpe);
+    json_read_string(root, "cpe", &result->cpe, NULL);
 
     if (!success)
     {
-- 
2.43.0


From 2ac98452e83f197487a8efdba2f33440e5a78583 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 17/86] fix: allocate and terminate the module list read from
 kerneloops JSON

---
 lib/koops_stacktrace.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..f28f0ca 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -697,6 +697,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
 
         size_t allocated = 128;
         result->modules = g_malloc_n(allocated, sizeof(char*));
+        result->modules[0] = NULL;
 
         for (i = 0; i < array_length; i++)
         {
@@ -714,12 +715,12 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
+            /* keep the list terminated, it is freed when a later module is bad */
+            result->modules[i + 1] = NULL;
         }
-
-        result->modules[i] = NULL;
     }
 
     /* Frames. */
-- 
2.43.0


From adb1f92b85c240643e08ba26c6744e9a3ace05ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 18/86] fix: restore the reason of a kerneloops read from JSON

---
 lib/koops_stacktrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index f28f0ca..b12486c 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -645,6 +645,10 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
     if (!JSON_READ_STRING(root, "raw_oops", &result->raw_oops))
         goto fail;
 
+    /* The reason is the first line of the oops, as in the parser. */
+    if (result->raw_oops)
+        result->reason = g_strndup(result->raw_oops, strcspn(result->raw_oops, "\n"));
+
     /* Kernel taint flags. */
     json_object *taint_flags;
 
-- 
2.43.0


From de6014175a6e948a8a6c672790fbe4fced837c06 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 19/86] fix: do not swap the engine and the runtime of a
 JavaScript platform read from JSON

---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..4d85182 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -231,7 +231,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From 46a55ee97d60341284d5e843314ed9d8b5c6621b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 20/86] fix: tell failures apart when reading a JavaScript
 platform from JSON

---
 lib/js_platform.c   | 15 +++++++++++----
 lib/js_stacktrace.c | 13 +++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 4d85182..6bf3174 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -193,6 +193,9 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 {
     sr_js_platform_t platform = SR_JS_PLATFORM_NULL;
 
+    if (!json_check_type(root, json_type_object, "platform", error_message))
+        return platform;
+
     char *engine_str = NULL;
     char *runtime_str = NULL;
 
@@ -201,7 +204,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (engine_str == NULL)
     {
-        *error_message = g_strdup("No 'engine' member");
+        if (error_message)
+            *error_message = g_strdup("No 'engine' member");
         goto fail;
     }
 
@@ -209,7 +213,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(engine_str, "<unknown>") != 0
         && !(engine = sr_js_engine_from_string(engine_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
         goto fail;
     }
 
@@ -218,7 +223,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (runtime_str == NULL)
     {
-        *error_message = g_strdup("No 'runtime' member");
+        if (error_message)
+            *error_message = g_strdup("No 'runtime' member");
         goto fail;
     }
 
@@ -226,7 +232,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(runtime_str, "<unknown>") != 0
         && !(runtime = sr_js_runtime_from_string(runtime_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
         goto fail;
     }
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..1e770c9 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,18 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        /* An unknown platform is a valid one, only the message tells. */
+        char *platform_error = NULL;
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
+
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From 4aa354e1754463d49aaa9b6fde8478573c36fc3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 21/86] fix: report the failure to read a single package from
 JSON

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..2a0c4b1 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -625,7 +625,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -1;
     }
     else
     {
-- 
2.43.0


From 8d01bac61c38bafbf939d9a4f0c12fd9fb1c035c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 22/86] fix: read the names of Ruby operator methods

---
 lib/ruby_frame.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 20e68e5..474dd92 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -298,13 +298,20 @@ sr_ruby_frame_parse(const char **input,
         location->column += len + strlen(" levels) in ");
     }
 
-    if (sr_skip_char(&local_input, '<'))
+    /* Special functions are enclosed in angle brackets, e.g. `<main>'; beware
+     * of operator methods such as `<=>' or `>>'.
+     */
+    size_t name_len = strcspn(local_input, "'");
+    if (name_len > 2 && local_input[0] == '<' && local_input[name_len - 1] == '>' &&
+        0 != strncmp(local_input, "<=>'", strlen("<=>'")))
     {
+        ++local_input;
         location->column++;
         frame->special_function = true;
     }
 
-    if (!sr_parse_char_cspan(&local_input, "'>", &frame->function_name))
+    if (!sr_parse_char_cspan(&local_input, frame->special_function ? ">'" : "'",
+                             &frame->function_name))
     {
         location->message = g_strdup("Unable to find the \"'\" character "
                                       "delimiting the function name.");
-- 
2.43.0


From b87808b1de48a2d3dcb70200f85469c135ff3622 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 23/86] fix: read Python frames that follow a repeated line
 mark

---
 lib/python_frame.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index d9c6c76..e0c099a 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -236,7 +236,17 @@ sr_python_frame_parse(const char **input,
     {
         /* Skip the error location line */
         sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
+        sr_skip_char(&local_input, '\n');
+        *input = local_input;
+    }
+
+    /* Recursion is shortened in the trace by a line such as:
+     *   [Previous line repeated 993 more times]
+     */
+    if (sr_skip_string(&local_input, "  [Previous line repeated "))
+    {
+        sr_skip_char_cspan(&local_input, "\n");
+        sr_skip_char(&local_input, '\n');
         *input = local_input;
     }
 
-- 
2.43.0


From cd238cbf365b58e2646a7bec2eb28e036dcd8095 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 24/86] fix: read the Java cause that follows suppressed
 exceptions

---
 lib/java_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..8d1ce80 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -280,6 +280,7 @@ sr_java_frame_parse_exception(const char **input,
     const char *cursor = sr_skip_whitespace(*input);
     sr_location_add(location, 0, cursor - *input);
     const char *mark = cursor;
+    bool at_suppressed = false;
 
     sr_location_add(location, 0, sr_skip_char_cspan(&cursor, ": \t\n"));
 
@@ -339,7 +340,10 @@ sr_java_frame_parse_exception(const char **input,
 
         /* Suppressed exceptions follow after the end of current exception */
         if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
+        {
+            at_suppressed = true;
             goto current_exception_done;
+        }
 
         /* The top most exception does not have '...' at its end */
         if (strncmp("Caused by: ", cursor, strlen("Caused by: ")) == 0)
@@ -370,7 +374,9 @@ sr_java_frame_parse_exception(const char **input,
     goto exception_parsing_successful;
 
 current_exception_done:
-    sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
+    /* Skip the '...' line */
+    if (!at_suppressed)
+        sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
 
     mark = cursor;
     cursor = sr_skip_whitespace(mark);
-- 
2.43.0


From b60aef791bb78483c749ef0a9f1cfb81f8e51693 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 25/86] fix: do not leak parser messages of Python and Ruby
 backtraces

---
 lib/python_frame.c    | 16 ++++++++--------
 lib/ruby_frame.c      | 32 ++++++++++++++++----------------
 lib/ruby_stacktrace.c | 28 ++++++++++++++--------------
 3 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index e0c099a..b2cc28c 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -252,7 +252,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
-        location->message = g_strdup_printf("Frame header not found.");
+        location->message = "Frame header not found.";
         return NULL;
     }
 
@@ -262,8 +262,8 @@ sr_python_frame_parse(const char **input,
     /* Parse file name */
     if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
-        location->message = g_strdup_printf("Unable to find the '\"' character "
-                "identifying the beginning of file name.");
+        location->message = "Unable to find the '\"' character "
+                "identifying the beginning of file name.";
 
         goto fail;
     }
@@ -285,7 +285,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "\", line "))
     {
-        location->message = g_strdup_printf("Line separator not found.");
+        location->message = "Line separator not found.";
         goto fail;
     }
 
@@ -295,7 +295,7 @@ sr_python_frame_parse(const char **input,
     int length = sr_parse_uint32(&local_input, &frame->file_line);
     if (0 == length)
     {
-        location->message = g_strdup_printf("Line number not found.");
+        location->message = "Line number not found.";
         goto fail;
     }
 
@@ -305,7 +305,7 @@ sr_python_frame_parse(const char **input,
     {
         if (local_input[0] != '\n')
         {
-            location->message = g_strdup_printf("Function name separator not found.");
+            location->message = "Function name separator not found.";
             goto fail;
         }
 
@@ -323,8 +323,8 @@ sr_python_frame_parse(const char **input,
         /* Parse function name */
         if (!sr_parse_char_cspan(&local_input, "\n", &frame->function_name))
         {
-            location->message = g_strdup_printf("Unable to find the newline character "
-                    "identifying the end of function name.");
+            location->message = "Unable to find the newline character "
+                    "identifying the end of function name.";
 
             goto fail;
         }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 474dd92..5f77634 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -202,8 +202,8 @@ sr_ruby_frame_parse(const char **input,
     char *filename_lineno_in = NULL;
     if (!sr_parse_char_cspan(&local_input, "`", &filename_lineno_in))
     {
-        location->message = g_strdup("Unable to find the '`' character "
-                                      "identifying the beginning of function name.");
+        location->message = "Unable to find the '`' character "
+                                      "identifying the beginning of function name.";
         goto fail;
     }
 
@@ -219,8 +219,8 @@ sr_ruby_frame_parse(const char **input,
     if (p < filename_lineno_in || 0 != strcmp(":in ", p))
     {
         location->column -= strlen(":in ");
-        location->message = g_strdup("Unable to find ':in ' preceding the "
-                                      "backtick character.");
+        location->message = "Unable to find ':in ' preceding the "
+                                      "backtick character.";
         goto fail;
     }
 
@@ -238,7 +238,7 @@ sr_ruby_frame_parse(const char **input,
     int lineno_len = sr_parse_uint32((const char **)&p_copy, &frame->file_line);
     if (lineno_len <= 0)
     {
-        location->message = g_strdup("Unable to find line number before ':in '");
+        location->message = "Unable to find line number before ':in '";
         goto fail;
     }
 
@@ -249,8 +249,8 @@ sr_ruby_frame_parse(const char **input,
     if (p < filename_lineno_in || *p != ':')
     {
         location->column -= lineno_len;
-        location->message = g_strdup("Unable to fin the ':' character "
-                                      "preceding the line number");
+        location->message = "Unable to fin the ':' character "
+                                      "preceding the line number";
         goto fail;
     }
 
@@ -263,8 +263,8 @@ sr_ruby_frame_parse(const char **input,
 
     if(!sr_skip_char(&local_input, '`'))
     {
-        location->message = g_strdup("Unable to find the '`' character "
-                                      "identifying the beginning of function name.");
+        location->message = "Unable to find the '`' character "
+                                      "identifying the beginning of function name.";
         goto fail;
     }
 
@@ -292,7 +292,7 @@ sr_ruby_frame_parse(const char **input,
         int len = sr_parse_uint32(&local_input, &frame->block_level);
         if (len == 0 || !sr_skip_string(&local_input, " levels) in "))
         {
-            location->message = g_strdup("Unable to parse block depth.");
+            location->message = "Unable to parse block depth.";
             goto fail;
         }
         location->column += len + strlen(" levels) in ");
@@ -313,8 +313,8 @@ sr_ruby_frame_parse(const char **input,
     if (!sr_parse_char_cspan(&local_input, frame->special_function ? ">'" : "'",
                              &frame->function_name))
     {
-        location->message = g_strdup("Unable to find the \"'\" character "
-                                      "delimiting the function name.");
+        location->message = "Unable to find the \"'\" character "
+                                      "delimiting the function name.";
         goto fail;
     }
     location->column += strlen(frame->function_name);
@@ -323,8 +323,8 @@ sr_ruby_frame_parse(const char **input,
     {
         if (!sr_skip_char(&local_input, '>'))
         {
-            location->message = g_strdup("Unable to find the \">\" character "
-                                          "delimiting the function name.");
+            location->message = "Unable to find the \">\" character "
+                                          "delimiting the function name.";
             goto fail;
         }
         location->column++;
@@ -332,8 +332,8 @@ sr_ruby_frame_parse(const char **input,
 
     if (!sr_skip_char(&local_input, '\''))
     {
-        location->message = g_strdup("Unable to find the \"'\" character "
-                                      "delimiting the function name.");
+        location->message = "Unable to find the \"'\" character "
+                                      "delimiting the function name.";
         goto fail;
     }
     location->column++;
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..7588799 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -139,8 +139,8 @@ sr_ruby_stacktrace_parse(const char **input,
     stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
-        location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
-                            location->message ? location->message : "(unknown reason)");
+        if (!location->message)
+            location->message = "Topmost stacktrace frame not found.";
         goto fail;
     }
 
@@ -149,7 +149,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_skip_string(&local_input, ": "))
     {
-        location->message = g_strdup("Unable to find the colon after first function name.");
+        location->message = "Unable to find the colon after first function name.";
         goto fail;
     }
     location->column += strlen(": ");
@@ -159,7 +159,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
     {
-        location->message = g_strdup("Unable to find the exception type and message.");
+        location->message = "Unable to find the exception type and message.";
         goto fail;
     }
 
@@ -173,8 +173,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != '\n')
     {
         location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
+        location->message = "Unable to find the new line character after "
+                                      "the end of exception class";
         goto fail;
     }
 
@@ -185,8 +185,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != ')')
     {
         location->column -= 2;
-        location->message = g_strdup("Unable to find the ')' character identifying "
-                                      "the end of exception class");
+        location->message = "Unable to find the ')' character identifying "
+                                      "the end of exception class";
         goto fail;
     }
 
@@ -201,8 +201,8 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (strlen(p) <= 0)
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                                      "the beginning of the exception class";
         goto fail;
     }
     stacktrace->exception_name = g_strdup(p);
@@ -213,8 +213,8 @@ sr_ruby_stacktrace_parse(const char **input,
     p--;
     if (p < message_and_class || *p != '(')
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                                      "the beginning of the exception class";
         goto fail;
     }
 
@@ -237,7 +237,7 @@ sr_ruby_stacktrace_parse(const char **input,
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
-            location->message = g_strdup("Frame header not found.");
+            location->message = "Frame header not found.";
             goto fail;
         }
         location->column += skipped;
@@ -252,7 +252,7 @@ sr_ruby_stacktrace_parse(const char **input,
         /* Eat newline (except at the end of file). */
         if (!sr_skip_char(&local_input, '\n') && *local_input != '\0')
         {
-            location->message = g_strdup("Expected newline after stacktrace frame.");
+            location->message = "Expected newline after stacktrace frame.";
             goto fail;
         }
         location->column = 0;
-- 
2.43.0


From fa19e5a71611429deb5d7eb8561467eccd2012f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 26/86] fix: do not read past a shared library list that ends
 without a newline

---
 lib/gdb_sharedlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..07fa787 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -244,7 +244,8 @@ sr_gdb_sharedlib_parse(const char *input)
         current->soname = g_string_free(buf, FALSE);
 
         /* we are on '\n' character, jump to next line */
-        ++tmp;
+        if (*tmp == '\n')
+            ++tmp;
     }
 
     return first;
-- 
2.43.0


From e6163f86d72fa3608926c8d61bc6216a0d205cfe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 27/86] fix: do not read past a gdb frame that ends after the
 opening parenthesis

---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..a4c2dc4 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -814,7 +814,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -853,7 +853,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From c46865ab74ace8e2d6a641b4cb7001643ec22562 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 28/86] fix: do not read past a gdb function name at the end of
 the text

---
 lib/gdb_frame.c | 7 ++++++-
 lib/utils.c     | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index a4c2dc4..12bc04b 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -442,6 +442,10 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
+        /* The operator might have been the end of the input. */
+        if (*local_input == '\0')
+            break;
+
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
             if (!space_allowed || strchr(" ", *local_input) == NULL)
@@ -775,7 +779,8 @@ sr_gdb_frame_parse_function_name(const char **input,
         {
             /* Function name MUST be ended by empty space. */
             g_string_free(buf0, TRUE);
-            g_string_free(buf1, TRUE);
+            if (buf1)
+                g_string_free(buf1, TRUE);
             location->message = "Space or newline expected after function name.";
             return false;
         }
diff --git a/lib/utils.c b/lib/utils.c
index 267ff36..beda6e4 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -268,6 +268,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From 0bceeada5fdee296b38cd7b3b784f15f95085633 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:24:34 +0000
Subject: [PATCH 29/86] fix: release all frames of a Java exception that cannot
 be read

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 8d1ce80..434aed9 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -353,7 +353,7 @@ sr_java_frame_parse_exception(const char **input,
 
         if (parsed == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
@@ -403,7 +403,7 @@ parse_inner_exception:
         struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
         if (inner == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
-- 
2.43.0


From 5811047f4d9c02e7ee325478ec81b45669f53abe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 30/86] fix: bound the text of a Ruby frame with a huge rescue
 level

---
 lib/ruby_frame.c       | 15 +++++++++++++--
 python/py_ruby_frame.c | 13 ++++++++++---
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 5f77634..7aa7723 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -469,13 +469,24 @@ fail:
     return NULL;
 }
 
+/* Rescue levels up to this number are written down one by one. */
+#define SR_RUBY_MAX_RESCUE_TEXT 256
+
 void
 sr_ruby_frame_append_to_str(struct sr_ruby_frame *frame,
                             GString *dest)
 {
-    for (uint32_t i = 0; i < frame->rescue_level; i++)
+    if (frame->rescue_level > SR_RUBY_MAX_RESCUE_TEXT)
+    {
+        /* Not worth spelling out, and the level might come from damaged data. */
+        g_string_append_printf(dest, "rescue (%"PRIu32" levels) in ", frame->rescue_level);
+    }
+    else
     {
-        g_string_append(dest, "rescue in ");
+        for (uint32_t i = 0; i < frame->rescue_level; i++)
+        {
+            g_string_append(dest, "rescue in ");
+        }
     }
 
     if (frame->block_level == 1)
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index d1a5ca2..d14ae64 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -181,10 +181,17 @@ sr_py_ruby_frame_str(PyObject *self)
     {
         g_string_append(buf, ":in `");
 
-        unsigned int i;
-        for (i = 0; i < this->frame->rescue_level; i++)
+        if (this->frame->rescue_level > 256)
         {
-            g_string_append(buf, "rescue in ");
+            g_string_append_printf(buf, "rescue (%u levels) in ", (unsigned)this->frame->rescue_level);
+        }
+        else
+        {
+            unsigned int i;
+            for (i = 0; i < this->frame->rescue_level; i++)
+            {
+                g_string_append(buf, "rescue in ");
+            }
         }
 
         if (this->frame->block_level == 1)
-- 
2.43.0


From 01553963df8f632de2df52d708bf321d656eec2f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 31/86] fix: let a copied core stack trace have its own crash
 thread

---
 lib/core_stacktrace.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 33a7797..2fc734c 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -117,6 +117,17 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
+    /* The crash thread must be the copied one. */
+    result->crash_thread = NULL;
+    struct sr_core_thread *copy = result->threads;
+    for (struct sr_core_thread *thread = stacktrace->threads;
+         thread && copy;
+         thread = thread->next, copy = copy->next)
+    {
+        if (thread == stacktrace->crash_thread)
+            result->crash_thread = copy;
+    }
+
     return result;
 }
 
-- 
2.43.0


From 3d8d7f33872d491e8ae2abe26b031937960fb476 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 32/86] fix: keep the first frame of each thread and do not
 read past the last one when creating a core stack trace from GDB output

---
 lib/core_stacktrace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 2fc734c..485ddde 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -355,8 +355,6 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
@@ -378,6 +376,8 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             }
 
             core_thread->frames = sr_core_frame_append(core_thread->frames, core_frame);
+
+            gdb_frame = gdb_frame->next;
         }
 
         core_stacktrace->threads =
-- 
2.43.0


From 27354c9064fa76fb1702fce0d0858e71e6e8fc3a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 33/86] fix: do not leak values of repeated os-release keys

---
 lib/operating_system.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 1e7c0fe..134a0fb 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -205,12 +205,15 @@ os_release_callback(char *key, char *value, void *data)
 
     if (0 == strcmp(key, "ID"))
     {
+        g_free(operating_system->name);
         operating_system->name = value;
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
         if (operating_system->version == NULL)
             operating_system->version = value;
+        else
+            g_free(value);
     }
     /* fedora rawhide workaround */
     else if (0 == strcmp(key, "VERSION") && strstr(value, "(Rawhide)"))
@@ -222,10 +225,12 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "CPE_NAME"))
     {
+        g_free(operating_system->cpe);
         operating_system->cpe = value;
     }
     else if (0 == strcmp(key, "VARIANT_ID"))
     {
+        g_free(operating_system->variant);
         operating_system->variant = value;
     }
     else
-- 
2.43.0


From a42f5b123d4da5357186fb4cb68ae7f4741af2d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 34/86] fix: do not leave an empty name behind when
 system-release is refused

---
 lib/operating_system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 134a0fb..2a92fa2 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -172,7 +172,11 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
         *name = g_strndup(etc_system_release, release - etc_system_release);
 
         if (0 == strlen(*name))
+        {
+            g_free(*name);
+            *name = NULL;
             return false;
+        }
 
         /* make the name all lower case */
         char *a = *name;
-- 
2.43.0


From 5bfc6b1d2e49f555ee6110fb24ee207b6ba7153e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 35/86] fix: do not hand out released strings when a package
 epoch is refused

---
 lib/rpm.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 2a0c4b1..aa34868 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -739,19 +739,9 @@ sr_rpm_package_parse_nevra(const char *text,
         return false;
     }
 
-    // Architecture is after the last dot.
-    *architecture = g_strdup(last_dot + 1);
-
-    // Release is after the last dash.
-    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
-
     // Epoch is optional.
     if (colon)
     {
-        // Version is before the last dash.
-        *version = g_strndup(colon + 1,
-                              last_dash - colon - 1);
-
         char *epoch_str = g_strndup(last_but_one_dash + 1,
                                      colon - last_but_one_dash - 1);
 
@@ -764,13 +754,15 @@ sr_rpm_package_parse_nevra(const char *text,
         if (failure)
         {
             g_free(epoch_str);
-            g_free(*release);
-            g_free(*architecture);
             return false;
         }
 
         *epoch = r;
         g_free(epoch_str);
+
+        // Version is before the last dash.
+        *version = g_strndup(colon + 1,
+                              last_dash - colon - 1);
     }
     else
     {
@@ -781,6 +773,12 @@ sr_rpm_package_parse_nevra(const char *text,
         *epoch = 0;
     }
 
+    // Architecture is after the last dot.
+    *architecture = g_strdup(last_dot + 1);
+
+    // Release is after the last dash.
+    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
+
     // Name is before version.
     *name = g_strndup(text, last_but_one_dash - text);
 
-- 
2.43.0


From 3f356e5ba5393b7f79b98fe5bdcada06c958b1de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 36/86] fix: do not leak the name of a kernel stack that
 follows another one

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index b12486c..2b2c75c 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -391,6 +391,7 @@ sr_koops_stacktrace_parse(const char **input,
         char *new_alt_stack = parse_alt_stack_start(&local_input);
         if (new_alt_stack)
         {
+            g_free(alt_stack);
             alt_stack = new_alt_stack;
         }
 
-- 
2.43.0


From 010ff859e1643d6e787ba2df77ad84ef5ef6330e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 37/86] fix: do not leak the second part of a module name split
 over two lines

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 2b2c75c..578efe9 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -504,6 +504,7 @@ sr_koops_stacktrace_parse_modules(const char **input)
                 }
 
                 char *tmp = g_strdup_printf("%s%s", result[result_offset-1], therest);
+                g_free(therest);
                 g_free(result[result_offset-1]);
                 result[result_offset-1] = tmp;
             }
-- 
2.43.0


From ea0eaf46a768e030f296e57eb0a958161e9c08ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 38/86] fix: do not read fields of an unstrip entry from the
 next line

---
 lib/unstrip.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index cd81e2b..c5d7534 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -25,6 +25,13 @@
 #include <ctype.h>
 #include <string.h>
 
+/* Fields of one entry never continue on the next line. */
+static const char *
+skip_blanks(const char *s)
+{
+    return s + strspn(s, " \t");
+}
+
 struct sr_unstrip_entry *
 sr_unstrip_parse(const char *unstrip_output)
 {
@@ -38,14 +45,14 @@ sr_unstrip_parse(const char *unstrip_output)
         /* START+SIZE */
         uint64_t start;
         uint64_t length;
-        int chars_read;
-        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64" %n",
+        int chars_read = 0;
+        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64"%n",
                          &start, &length, &chars_read);
 
         if (ret < 2)
             goto eat_line;
 
-        line += chars_read;
+        line = skip_blanks(line + chars_read);
 
         /* BUILDID */
         const char *build_id = line;
@@ -56,17 +63,17 @@ sr_unstrip_parse(const char *unstrip_output)
 
         /* there may be @ADDR after the ID */
         line = sr_skip_non_whitespace(line);
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* FILE */
         const char *file_name = line;
         line = sr_skip_non_whitespace(line);
         unsigned file_name_len = line - file_name;
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* DEBUGFILE */
         line = sr_skip_non_whitespace(line);
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* MODULENAME */
         const char *mod_name = line;
-- 
2.43.0


From dbe860ccff60952e9f160326de8e3d9902c0b96c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 39/86] fix: hand out the message of the Ruby frame parser as
 before

---
 lib/internal_utils.h   |  7 +++++++
 lib/ruby_frame.c       | 13 +++++++++++++
 lib/ruby_stacktrace.c  |  4 ++--
 python/py_ruby_frame.c |  1 +
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index bb66cac..7fba35f 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -67,6 +67,13 @@ struct sr_taint_flag
 };
 extern struct sr_taint_flag sr_flags[];
 
+/* Like sr_ruby_frame_parse(), but the message left in location is a string
+ * literal.
+ */
+struct sr_ruby_frame;
+struct sr_ruby_frame *
+ruby_frame_parse(const char **input, struct sr_location *location);
+
 /* assert that is never compiled out */
 #define SR_ASSERT(cond)                                                               \
     if (!(cond))                                                                      \
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 7aa7723..4078af1 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -191,6 +191,19 @@ sr_ruby_frame_append(struct sr_ruby_frame *dest,
 struct sr_ruby_frame *
 sr_ruby_frame_parse(const char **input,
                     struct sr_location *location)
+{
+    struct sr_ruby_frame *frame = ruby_frame_parse(input, location);
+
+    /* The caller of this function owns the message. */
+    if (!frame)
+        location->message = g_strdup(location->message);
+
+    return frame;
+}
+
+struct sr_ruby_frame *
+ruby_frame_parse(const char **input,
+                 struct sr_location *location)
 {
     const char *local_input = *input;
     struct sr_ruby_frame *frame = sr_ruby_frame_new();
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 7588799..4ded3d5 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -136,7 +136,7 @@ sr_ruby_stacktrace_parse(const char **input,
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      * ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
      */
-    stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
+    stacktrace->frames = ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
         if (!location->message)
@@ -242,7 +242,7 @@ sr_ruby_stacktrace_parse(const char **input,
         }
         location->column += skipped;
 
-        last_frame->next = sr_ruby_frame_parse(&local_input, location);
+        last_frame->next = ruby_frame_parse(&local_input, location);
         if (!last_frame->next)
         {
             /* location->message is already set */
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index d14ae64..1a92d66 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -141,6 +141,7 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            g_free((void *)location.message);
             return NULL;
         }
     }
-- 
2.43.0


From 2eeeecbc24ebc7a4675840dfddcb0c6f3f115321 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 40/86] fix: do not report success with an error message about
 an optional item

---
 lib/abrt.c | 49 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..ede8f73 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* Reads a file the report can do without. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *error_message = NULL;
+    char *contents = file_contents(directory, file, &error_message);
+
+    g_free(error_message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -363,11 +374,9 @@ rpm_dso_list_from_dir(struct sr_rpm_package *packages,
 
 static struct sr_rpm_package *
 rpm_interpreter_from_dir(struct sr_rpm_package *packages,
-                         const char *directory,
-                         char **error_message)
+                         const char *directory)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -423,23 +432,27 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     /* if dso_list doesn't exist, do not attach it */
     if (file_exist(directory, "dso_list"))
     {
-        *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
-        if (!*packages)
+        char *dso_error = NULL;
+        *packages = rpm_dso_list_from_dir(*packages, directory, &dso_error);
+        if (dso_error && !*packages)
+        {
+            *error_message = dso_error;
             return -2;
+        }
+        g_free(dso_error);
     }
 
     /* attach interpreter as related package if exists */
     if (file_exist(directory, "interpreter"))
-        *packages = rpm_interpreter_from_dir(*packages, directory, error_message);
+        *packages = rpm_interpreter_from_dir(*packages, directory);
 
     return 0;
 }
 
 static char *
-desktop_from_dir(const char *directory,
-                    char **error_message)
+desktop_from_dir(const char *directory)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -516,16 +529,15 @@ finito:
 }
 
 static char *
-get_component(const char *directory,
-              char **error_message)
+get_component(const char *directory)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -551,7 +563,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -561,8 +573,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
             success = sr_operating_system_parse_etc_system_release(release_contents,
@@ -587,7 +598,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     }
 
     /* optional - failure is not fatal */
-    os->desktop = desktop_from_dir(directory, error_message);
+    os->desktop = desktop_from_dir(directory);
 
     return os;
 }
@@ -620,7 +631,7 @@ sr_abrt_report_from_dir(const char *directory,
     }
 
     /* Component name. */
-    report->component_name = get_component(directory, error_message);
+    report->component_name = get_component(directory);
 
     /* RPM packages. */
     if (sr_abrt_rpm_packages_from_dir(directory, &report->rpm_packages, error_message) < 0 )
-- 
2.43.0


From b9533dcd3f04cdf98da22f2f6b076e648591819a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 41/86] fix: do not leak a half read operating system
 description

---
 lib/abrt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index ede8f73..8797183 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -576,6 +576,11 @@ sr_abrt_operating_system_from_dir(const char *directory,
         char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
+            /* os_info could have contained one of these */
+            g_free(os->name);
+            g_free(os->version);
+            os->name = NULL;
+            os->version = NULL;
             success = sr_operating_system_parse_etc_system_release(release_contents,
                                                                    &os->name,
                                                                    &os->version);
-- 
2.43.0


From d8c240d5c4b25a46543175837e3eda7d464a3593 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 42/86] fix: refuse a package epoch that is not a number and do
 not leak the package

---
 lib/abrt.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 8797183..5148a9a 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -34,6 +34,7 @@
 #include "json.h"
 #include "location.h"
 #include "internal_utils.h"
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -312,26 +313,33 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     char *epoch_str = file_contents(directory, "pkg_epoch", error_message);
     if (!epoch_str)
     {
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
-    unsigned long epoch = strtoul(epoch_str, NULL, 10);
-    if (epoch == ULONG_MAX)
+    strip_newline(epoch_str);
+
+    char *endptr;
+    errno = 0;
+    unsigned long epoch = strtoul(epoch_str, &endptr, 10);
+    if (errno || !isdigit((unsigned char)*epoch_str) || *endptr != '\0' || epoch > UINT32_MAX)
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
 
-
     packages->epoch = (uint32_t)epoch;
-    packages->name = file_contents(directory, "pkg_name", error_message);
-    packages->version = file_contents(directory, "pkg_version", error_message);
-    packages->release = file_contents(directory, "pkg_release", error_message);
-    packages->architecture = file_contents(directory, "pkg_arch", error_message);
     packages->role = SR_ROLE_AFFECTED;
 
-    if (!(packages->name && packages->version && packages->release &&
-          packages->architecture))
+    bool success =
+        (packages->name = file_contents(directory, "pkg_name", error_message)) &&
+        (packages->version = file_contents(directory, "pkg_version", error_message)) &&
+        (packages->release = file_contents(directory, "pkg_release", error_message)) &&
+        (packages->architecture = file_contents(directory, "pkg_arch", error_message));
+
+    if (!success)
     {
         sr_rpm_package_free(packages, false);
         return NULL;
-- 
2.43.0


From 360ef251ee5007955ae95f7bb77e95df8c69dda6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 43/86] fix: do not take an old errno for a wrong occurrence
 count

---
 lib/abrt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5148a9a..8802fcd 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -496,10 +496,11 @@ occurrences_from_dir(const char *directory,
 {
     char *count_contents = file_contents(directory, "count", error_message);
     if (!count_contents)
-        return NULL;
+        return false;
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From f80e4a2f528a03b7e1b013e5f21790e29d85ddc6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 44/86] fix: convert JavaScript problem directories as
 JavaScript

---
 lib/abrt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 8802fcd..faf7589 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -878,6 +878,8 @@ sr_abrt_type_from_type(const char *type)
         return SR_REPORT_PYTHON;
     else if (0 == strncmp(type, "Kerneloops", 10))
         return SR_REPORT_KERNELOOPS;
+    else if (0 == strncmp(type, "JavaScript", 10))
+        return SR_REPORT_JAVASCRIPT;
     else if (0 == strncmp(type, "Java", 4))
         return SR_REPORT_JAVA;
     else if (0 == strncmp(type, "Ruby", 4))
-- 
2.43.0


From 3aa0f5135ff9be7aa28760c6e3403d893e115c9c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 45/86] fix: do not crash on an unreadable kernel oops and do
 not leak the kernel version

---
 lib/abrt.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index faf7589..86bb8d9 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -727,6 +727,7 @@ sr_abrt_report_from_dir(const char *directory,
         char *backtrace_contents = file_contents(directory, "backtrace", error_message);
         if (!backtrace_contents)
         {
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
@@ -739,16 +740,18 @@ sr_abrt_report_from_dir(const char *directory,
             &contents_pointer,
             &location);
 
-        stacktrace->version = kernel_contents;
-        report->stacktrace = (struct sr_stacktrace *)stacktrace;
-
         g_free(backtrace_contents);
-        if (!report->stacktrace)
+        if (!stacktrace)
         {
             *error_message = sr_location_to_string(&location);
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
+
+        g_free(stacktrace->version);
+        stacktrace->version = kernel_contents;
+        report->stacktrace = (struct sr_stacktrace *)stacktrace;
     }
 
     /* Java stacktrace. */
-- 
2.43.0


From 92013d4eaaff6cab8af5286815bc1fbeda6df144 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 46/86] fix: do not treat a failed access() as a missing
 package or list

---
 lib/abrt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 86bb8d9..5630081 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -411,7 +411,8 @@ file_exist(const char *directory, const char *filename)
     char *path = sr_build_path(directory, filename, NULL);
 
     bool retval = false;
-    if (access(path, F_OK) == 0)
+    /* Do not take a failure to look for the file for its absence. */
+    if (access(path, F_OK) == 0 || (errno != ENOENT && errno != ENOTDIR))
         retval = true;
 
     g_free(path);
-- 
2.43.0


From ebfd6b5d59f6b100cd9f02a617df25593b8e2145 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 47/86] fix: find the desktop session also after a variable of
 a similar name

---
 lib/abrt.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5630081..4fbef42 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -466,15 +466,13 @@ desktop_from_dir(const char *directory)
         return NULL;
 
     char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
-    if (!desktop)
-    {
-        g_free(environ_contents);
-        return NULL;
-    }
 
     /* avoid prefixes - DESKTOP_SESSION= must either be
        the very first variable or preceeded by a newline */
-    if (desktop != environ_contents && *(desktop - 1) != '\n')
+    while (desktop && desktop != environ_contents && *(desktop - 1) != '\n')
+        desktop = strstr(desktop + 1, "DESKTOP_SESSION=");
+
+    if (!desktop)
     {
         g_free(environ_contents);
         return NULL;
-- 
2.43.0


From 337e2c615995152aa170393780cc875c573de894 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 48/86] fix: notice that the report could not be printed

---
 lib/abrt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 4fbef42..bb6b891 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -75,9 +75,12 @@ sr_abrt_print_report_from_dir(const char *directory,
 
     char *json = sr_report_to_json(report);
     sr_report_free(report);
-    puts(json);
+    bool success = (puts(json) >= 0 && fflush(stdout) == 0);
+    if (!success)
+        *error_message = g_strdup_printf("Unable to write the report: %s", strerror(errno));
+
     g_free(json);
-    return true;
+    return success;
 }
 
 static void
-- 
2.43.0


From 1a7030cec6f03cbf09499b4281623141ffa6c29d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:03:14 +0000
Subject: [PATCH 49/86] fix: do not leak the JavaScript backtrace without an
 analyzer

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index bb6b891..5450a38 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -827,6 +827,7 @@ sr_abrt_report_from_dir(const char *directory,
                                                 error_message);
         if (!analyzer_contents)
         {
+            g_free(backtrace_contents);
             sr_report_free(report);
             return NULL;
         }
-- 
2.43.0


From 4520e87829bc05cabe9d2382b326d5022574c0d5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 50/86] fix: adjust the pc of calling frames, not of activation
 frames

---
 lib/core_unwind_elfutils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 67841cd..c53966f 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -61,15 +61,15 @@ frame_callback(Dwfl_Frame *frame, void *data)
     char **error_msg = &frame_arg->error_msg;
 
     Dwarf_Addr pc;
-    bool minus_one;
-    if (!dwfl_frame_pc(frame, &pc, &minus_one))
+    bool is_activation;
+    if (!dwfl_frame_pc(frame, &pc, &is_activation))
     {
         set_error_dwfl("dwfl_frame_pc");
         return DWARF_CB_ABORT;
     }
 
     Dwfl *dwfl = dwfl_thread_dwfl(dwfl_frame_thread(frame));
-    struct sr_core_frame *result = resolve_frame(dwfl, pc, minus_one);
+    struct sr_core_frame *result = resolve_frame(dwfl, pc, !is_activation);
 
     /* Do not unwind below __libc_start_main. */
     if (0 == g_strcmp0(result->function_name, "__libc_start_main"))
-- 
2.43.0


From fcbb84678dcdceef180a09f141995de11f4728f0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 51/86] fix: return no stacktrace when attaching to the process
 fails

---
 lib/core_unwind_elfutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index c53966f..3ded664 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -331,6 +331,8 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
     if (dwfl_linux_proc_attach(state->dwfl, tid, true) != 0)
     {
         set_error_dwfl("dwfl_linux_proc_attach");
+        sr_core_stacktrace_free(stacktrace);
+        stacktrace = NULL;
         goto fail;
     }
 
-- 
2.43.0


From faac492d9ba29addf429186e0f660d1b55da57e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 52/86] fix: free the segment list when listing the modules of
 a core dump fails

---
 lib/core_unwind.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..a910147 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -104,20 +104,25 @@ _set_error(char **error_msg, const char *fmt, ...)
     va_end(ap);
 }
 
+static void
+segments_free(struct exe_mapping_data *seg)
+{
+    while (seg)
+    {
+        struct exe_mapping_data *next = seg->next;
+
+        g_free(seg->filename);
+        g_free(seg);
+        seg = next;
+    }
+}
+
 void
 core_handle_free(struct core_handle *ch)
 {
     if (ch)
     {
-        struct exe_mapping_data *seg = ch->segments, *next;
-        while (seg)
-        {
-            g_free(seg->filename);
-
-            next = seg->next;
-            g_free(seg);
-            seg = next;
-        }
+        segments_free(ch->segments);
 
         if (ch->dwfl)
             dwfl_end(ch->dwfl);
@@ -277,6 +282,7 @@ open_coredump(const char *elf_file, const char *exe_file, char **error_msg)
     return ch;
 
 fail_dwfl:
+    segments_free(head);
     dwfl_end(ch->dwfl);
 fail_elf:
     elf_end(ch->eh);
-- 
2.43.0


From dce01688c8ac2193e0205c732f1311048fbfd0cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:29:58 +0000
Subject: [PATCH 53/86] fix: report a failing dwfl_begin instead of using its
 null result

---
 lib/core_unwind.c          | 5 +++++
 lib/core_unwind_elfutils.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index a910147..c58ea07 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -246,6 +246,11 @@ open_coredump(const char *elf_file, const char *exe_file, char **error_msg)
     ch->cb.find_debuginfo = find_debuginfo_none;
     ch->cb.section_address = dwfl_offline_section_address;
     ch->dwfl = dwfl_begin(&ch->cb);
+    if (ch->dwfl == NULL)
+    {
+        set_error_dwfl("dwfl_begin");
+        goto fail_elf;
+    }
 
 #if _ELFUTILS_PREREQ(0, 158)
     if (dwfl_core_file_report(ch->dwfl, ch->eh, exe_file) == -1)
diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 3ded664..3c8469c 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -247,6 +247,11 @@ sr_core_stacktrace_from_core_hook_prepare(pid_t tid, char **error_msg)
     state->proc_cb.find_debuginfo = find_debuginfo_none;
 
     Dwfl *dwfl = state->dwfl = dwfl_begin(&(state->proc_cb));
+    if (dwfl == NULL)
+    {
+        set_error_dwfl("dwfl_begin");
+        goto fail;
+    }
 
     if (dwfl_linux_proc_report(dwfl, tid) != 0)
     {
-- 
2.43.0


From 729037accaf7bdccbc8ea34c27e046e2ee4ed448 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 54/86] fix: do not count signal handler frames towards the
 frame limit of a listing

---
 lib/core_unwind.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index c58ea07..42d0018 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -476,7 +476,12 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
             if (nframes)
                 --nframes;
             else
+            {
+                /* Only frames that make it into the result count. */
+                while (top_frame->signal_handler_called)
+                    top_frame = top_frame->next;
                 top_frame = top_frame->next;
+            }
         }
 
         for (struct sr_gdb_frame *gdb_frame = top_frame;
-- 
2.43.0


From caaf68fce161a106dd0f19ab7b40f60273ba105d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 55/86] fix: give core threads made from a debugger's listing
 its thread ids

---
 lib/core_thread.c | 1 +
 lib/core_unwind.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 2b6cebb..770c745 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -66,6 +66,7 @@ sr_core_thread_new()
 void
 sr_core_thread_init(struct sr_core_thread *thread)
 {
+    thread->id = 0;
     thread->frames = NULL;
     thread->next = NULL;
     thread->type = SR_REPORT_CORE;
diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 42d0018..829f68e 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -463,6 +463,8 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
          gdb_thread = gdb_thread->next)
     {
         struct sr_core_thread *core_thread = sr_core_thread_new();
+        if (gdb_thread->tid != UINT32_MAX)
+            core_thread->id = gdb_thread->tid;
 
         unsigned long nframes = CORE_STACKTRACE_FRAME_LIMIT;
         struct sr_gdb_frame *top_frame = gdb_thread->frames;
-- 
2.43.0


From ce613a35abece8d33c435c3221398edbbf122389 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 56/86] fix: keep the executable, the crash thread and the
 thread ids when attaching a listing

---
 lib/core_stacktrace.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 485ddde..0b11d4b 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -347,10 +347,20 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
     struct sr_core_stacktrace *core_stacktrace =
         sr_core_stacktrace_new();
 
+    core_stacktrace->executable = g_strdup(executable_path);
+
+    struct sr_gdb_thread *gdb_crash_thread =
+        sr_gdb_stacktrace_find_crash_thread(gdb_stacktrace);
+
     struct sr_gdb_thread *gdb_thread = gdb_stacktrace->threads;
     while (gdb_thread)
     {
         struct sr_core_thread *core_thread = sr_core_thread_new();
+        if (gdb_thread->tid != UINT32_MAX)
+            core_thread->id = gdb_thread->tid;
+
+        if (gdb_thread == gdb_crash_thread)
+            core_stacktrace->crash_thread = core_thread;
 
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
-- 
2.43.0


From 7872ed0ee1ab4da0248f6e175b7c25bcb2a19d11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:03:03 +0000
Subject: [PATCH 57/86] fix: refuse to merge distance parts that are incomplete
 or of different kinds

---
 lib/distance.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index 43c4d59..f0ceab4 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -642,11 +642,21 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     struct sr_distances *distances = sr_distances_new(parts->m, parts->n);
 
+    /* Remember which entries were provided so that an incomplete set of parts
+     * is refused. Parts may be present more than once. */
+    int m = distances->m, n = distances->n;
+    int nmissing = m * (m - 1) / 2 + m * (n - m);
+    g_autofree bool *provided = g_malloc0_n(
+                                    get_distance_position(distances, m - 1, n - 1) + 1,
+                                    sizeof(*provided)
+                                );
+
     for (struct sr_distances_part *it = parts;
          it != NULL;
          it = it->next)
     {
         if (it->m != parts->m || it->n != parts->n
+            || it->dist_type != parts->dist_type
             || it->distances == NULL
             || it->checksum != parts->checksum)
         {
@@ -663,8 +673,14 @@ sr_distances_part_merge(struct sr_distances_part *parts)
             if (j <= i || i >= it->m || j >= it->n)
                 goto error;
 
-            distances->distances[get_distance_position(distances, i, j)]
-                = it->distances[dist_idx];
+            int position = get_distance_position(distances, i, j);
+
+            distances->distances[position] = it->distances[dist_idx];
+            if (!provided[position])
+            {
+                provided[position] = true;
+                nmissing--;
+            }
 
             j++;
             if (j >= it->n)
@@ -676,6 +692,9 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     }
 
+    if (nmissing != 0)
+        goto error;
+
     return distances;
 error:
     sr_distances_free(distances);
-- 
2.43.0


From 0b6b9c7ed627c86b1f6b55ba8440dc87299af2cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:13:31 +0000
Subject: [PATCH 58/86] fix: do not leak the previous result when a distance
 part is computed again

---
 lib/distance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/distance.c b/lib/distance.c
index f0ceab4..938c33c 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -611,6 +611,8 @@ sr_distances_part_compute(struct sr_distances_part *part,
 
     int i,j;
     size_t dist_idx;
+    /* The part may have been computed before. */
+    g_free(part->distances);
     part->distances = g_malloc_n(sizeof(float), part->len);
 
     for (dist_idx = 0, i = part->m_begin, j = part->n_begin;
-- 
2.43.0


From 5abd4ab47644829acd0486785eded1ea44ee459f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 59/86] fix: release the tag data when a package header lacks
 the tag

---
 lib/rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index aa34868..44e4c40 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -285,7 +285,10 @@ header_get_string(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     const char *str = rpmtdGetString(tag_data);
     *result = (str ? g_strdup(str) : NULL);
@@ -305,7 +308,10 @@ header_get_uint32(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     uint32_t *num = rpmtdGetUint32(tag_data);
     if (num)
-- 
2.43.0


From 06bd6b766cda9226c85272cbb2c3f96d86425337 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 60/86] fix: sorting an empty package list does not dereference
 NULL

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 44e4c40..8254e1b 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -174,6 +174,9 @@ sr_rpm_package_count(struct sr_rpm_package *packages)
 struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
+    if (!packages)
+        return NULL;
+
     size_t count = sr_rpm_package_count(packages);
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
-- 
2.43.0


From 9bd4c33d2d2edc5bd8c9fa33ee9eda8140583e96 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 61/86] fix: compare package epochs and install times without
 truncating the difference

---
 lib/rpm.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8254e1b..277e097 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,9 +77,8 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
-    if (install_time != 0)
-        return install_time;
+    if (package1->install_time != package2->install_time)
+        return package1->install_time < package2->install_time ? -1 : 1;
 
     /* Consistency. */
     int consistency = sr_rpm_consistency_cmp_recursive(package1->consistency,
@@ -100,9 +99,8 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
-    if (epoch != 0)
-        return epoch;
+    if (package1->epoch != package2->epoch)
+        return package1->epoch < package2->epoch ? -1 : 1;
 
     /* Architecture. */
     int architecture = g_strcmp0(package1->architecture,
-- 
2.43.0


From 627a8244dec3419305ff520d9fa9447b761acbe5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 62/86] fix: a package without an epoch can be looked up

---
 lib/rpm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 277e097..26ec603 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -335,15 +335,16 @@ header_to_rpm_info(Header header,
         return NULL;
     }
 
-    bool success = header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
-    if (!success)
+    /* Most packages have no epoch, which is the same as epoch 0. */
+    if (headerIsEntry(header, RPMTAG_EPOCH) &&
+        !header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch))
     {
         *error_message = g_strdup_printf("Failed to find package epoch.");
         sr_rpm_package_free(rpm, false);
         return NULL;
     }
 
-    success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
+    bool success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
     if (!success)
     {
         *error_message = g_strdup_printf("Failed to find package version.");
-- 
2.43.0


From 03185b0f474e70bec99577440c0707c192a4062b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:40:54 +0000
Subject: [PATCH 63/86] fix: the exact-backtrace hash of a kernel oops ignores
 the taint flags

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 578efe9..bb14160 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -809,6 +809,7 @@ koops_append_bthash_text(struct sr_koops_stacktrace *stacktrace,
         bool val = *(bool *)((void *)stacktrace + f->member_offset);
         if (val == false)
             continue;
+        g_string_append_c(strbuf, f->letter);
     }
     g_string_append_c(strbuf, '\n');
 
-- 
2.43.0


From 3fcc2febca19c9c00c8021419f260a1ed264000c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:41:00 +0000
Subject: [PATCH 64/86] fix: assigning library names to frames dereferences a
 NULL name of a library known by address only

---
 lib/gdb_thread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..191632b 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -529,7 +529,7 @@ sr_gdb_thread_set_libnames(struct sr_gdb_thread *thread, struct sr_gdb_sharedlib
     {
         struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_find_address(libs,
                                                                      frame->address);
-        if (lib)
+        if (lib && lib->soname)
         {
             char *s1, *s2;
 
-- 
2.43.0


From 67d1dfc8cdecb8a6846b17ecbfbfd36de9cf79f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:41:04 +0000
Subject: [PATCH 65/86] fix: satyr abrt-report-dir exits with status 0 although
 it is not implemented

---
 satyr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satyr.c b/satyr.c
index 83d3ac1..c33e468 100644
--- a/satyr.c
+++ b/satyr.c
@@ -105,6 +105,7 @@ static void
 abrt_report_dir(int argc, char **argv)
 {
     fprintf(stderr, "Not implemented.\n");
+    exit(1);
 }
 
 static void
-- 
2.43.0


From 311bed1b2996e611ed5a93388e8ee1cbcf2515f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 66/86] fix: satyr exits with status 0 when its output cannot
 be written

---
 satyr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/satyr.c b/satyr.c
index c33e468..a267121 100644
--- a/satyr.c
+++ b/satyr.c
@@ -400,5 +400,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    /* The command succeeded only if all its output was written. */
+    if (fflush(stdout) != 0 || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write the output.\n");
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 33015cd2d4e78543dc6c47631fac3fdfc9b2ad81 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 67/86] fix: satyr debug unwind-from-hook accepts an empty,
 negative or too large thread id and signal and stores a wrong signal

---
 satyr.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/satyr.c b/satyr.c
index a267121..30d54c2 100644
--- a/satyr.c
+++ b/satyr.c
@@ -39,6 +39,9 @@
 #include <assert.h>
 #include <libgen.h>
 #include <time.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdint.h>
 
 static char *g_program_name;
 
@@ -271,6 +274,20 @@ debug_duphash(int argc, char **argv)
     g_free(duphash);
 }
 
+/* Parses a decimal number not greater than max. */
+static bool
+parse_number(const char *str, unsigned long max, unsigned long *number)
+{
+    /* strtoul accepts also empty strings, white space and signs. */
+    if (*str < '0' || *str > '9')
+        return false;
+
+    char *end;
+    errno = 0;
+    *number = strtoul(str, &end, 10);
+    return *end == '\0' && errno == 0 && *number <= max;
+}
+
 static void
 debug_unwind_from_hook(int argc, char **argv)
 {
@@ -283,16 +300,15 @@ debug_unwind_from_hook(int argc, char **argv)
     }
 
     char *executable = argv[0];
-    char *end;
-    unsigned long tid = strtoul(argv[1], &end, 10);
-    if (*end != '\0')
+    unsigned long tid;
+    if (!parse_number(argv[1], INT_MAX, &tid))
     {
         fprintf(stderr, "Wrong tid\n");
         exit(1);
     }
 
-    unsigned long signum = strtoul(argv[2], &end, 10);
-    if (*end != '\0')
+    unsigned long signum;
+    if (!parse_number(argv[2], UINT16_MAX, &signum))
     {
         fprintf(stderr, "Wrong signal number\n");
         exit(1);
-- 
2.43.0


From 4ab784aa1d1fc53649e6a51aae29c2c6b4172086 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:27 +0000
Subject: [PATCH 68/86] fix: do not crash on a linkage table or frame section
 that has no data in the file

---
 lib/elves.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 45ae61c..b614982 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -96,6 +96,15 @@ find_elf_section_by_name(Elf *elf,
 
         if (0 == strcmp(current_section_name, section_name))
         {
+            /* Files with separated debugging information have only the
+             * headers of some sections. */
+            if (shdr.sh_type == SHT_NOBITS)
+            {
+                *error_message = g_strdup_printf("Section %s has no data",
+                                                 section_name);
+                return 0;
+            }
+
             /* We found the right section!  Save the data. */
             *data_dest = elf_getdata(section, NULL);
             if (!*data_dest)
-- 
2.43.0


From 1adc6dfcbf89735550699871c7b29826e45765fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:27 +0000
Subject: [PATCH 69/86] fix: do not read past the end of a linkage table that
 ends within a slot

---
 lib/elves.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/elves.c b/lib/elves.c
index b614982..358506d 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -281,7 +281,7 @@ sr_elf_get_procedure_linkage_table(const char *filename,
      *   3463e0103b:   e9 d0 ff ff ff          jmpq   3463e01010 <_init+0x18>
      */
     struct sr_elf_plt_entry *result = NULL, *last = NULL;
-    for (unsigned plt_offset = 16; plt_offset < plt_data->d_size; plt_offset += 16)
+    for (size_t plt_offset = 16; plt_offset + 16 <= plt_data->d_size; plt_offset += 16)
     {
         uint32_t *plt_index = (uint32_t*)(plt_data->d_buf + plt_offset + 7);
 
-- 
2.43.0


From e217076191fd8a3781fcf9549df3ac994b85bbb4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:27 +0000
Subject: [PATCH 70/86] fix: fail when the symbol name of a linkage table entry
 cannot be read

---
 lib/elves.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 358506d..8a656c4 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -311,10 +311,21 @@ sr_elf_get_procedure_linkage_table(const char *filename,
             return NULL;
         }
 
-        struct sr_elf_plt_entry *entry = g_malloc(sizeof(*entry));
-        entry->symbol_name = g_strdup(elf_strptr(elf, stringtable,
-                                                  symb.st_name));
+        const char *symbol_name = elf_strptr(elf, stringtable, symb.st_name);
+        if (!symbol_name)
+        {
+            *error_message = g_strdup_printf("elf_strptr failed for %s: %s",
+                                         filename,
+                                         elf_errmsg(-1));
 
+            sr_elf_procedure_linkage_table_free(result);
+            elf_end(elf);
+            close(fd);
+            return NULL;
+        }
+
+        struct sr_elf_plt_entry *entry = g_malloc(sizeof(*entry));
+        entry->symbol_name = g_strdup(symbol_name);
         entry->address = (uint64_t)(plt_base + plt_offset);
         entry->next = NULL;
 
-- 
2.43.0


From 064356a1f42c9c63c5669a4e30ba0e9765c17aef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:57 +0000
Subject: [PATCH 71/86] fix: decode PC-relative addresses of frame entries with
 an extended length

---
 lib/elves.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 8a656c4..082dcc3 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -752,13 +752,10 @@ sr_elf_get_eh_frame(const char *filename,
 
             if (cie->pcrel)
             {
-                /* We need to determine how long is the 'length' (and
-                 * consequently CIE id) field of this FDE -- it can be
-                 * either 4 or 12 bytes long. */
-                uint64_t length = fde_read_address(section_data->d_buf + cfi_offset, 4);
-                uint64_t skip = (length == 0xffffffffUL ? 12 : 4);
+                /* The value is relative to the place it is stored at. */
                 uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_offset + cfi_offset + 2 * skip;
+                initial_location += shdr.sh_offset +
+                    (cfi.fde.start - (const uint8_t *)section_data->d_buf);
                 initial_location &= mask;
             }
             else
-- 
2.43.0


From e6473d934f5f09c774df20b6a37245959c99f176 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:57 +0000
Subject: [PATCH 72/86] fix: do not read past the end of a frame entry that is
 too short

---
 lib/elves.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 082dcc3..6b3e9c1 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -740,6 +740,19 @@ sr_elf_get_eh_frame(const char *filename,
                 return NULL;
             }
 
+            if (cfi.fde.end - cfi.fde.start < 2 * cie->ptr_len)
+            {
+                *error_message = g_strdup_printf("FDE %jx in %s is too short",
+                                             (uintmax_t)cfi_offset,
+                                             filename);
+
+                cie_free(cie_list);
+                sr_elf_eh_frame_free(result);
+                elf_end(elf);
+                close(fd);
+                return NULL;
+            }
+
             /* Read the two numbers we need and if they are PC-relative,
              * compute the offset from VMA base
              */
-- 
2.43.0


From 1ccf3cd5ce3565000f2f5508cd61065ba8b7263d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:57 +0000
Subject: [PATCH 73/86] fix: do not read past the end of the augmentation data
 of a frame section

---
 lib/elves.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/elves.c b/lib/elves.c
index 6b3e9c1..5582d3d 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -440,11 +440,20 @@ read_cie(Dwarf_CFI_Entry *cfi,
      */
     const char *augmentation = cfi->cie.augmentation;
     const uint8_t *augmentation_data = cfi->cie.augmentation_data;
+    const uint8_t *augmentation_end = cfi->cie.initial_instructions_end;
     if (*augmentation == 'z')
         ++augmentation;
 
     while (*augmentation != '\0')
     {
+        if (!augmentation_data || augmentation_data >= augmentation_end)
+        {
+            *error_message = g_strdup_printf("Augmentation data too short (CIE %jx)",
+                                         (uintmax_t)cfi_offset);
+            g_free(cie);
+            return NULL;
+        }
+
         switch (*augmentation)
         {
         case 'R':
@@ -476,7 +485,10 @@ read_cie(Dwarf_CFI_Entry *cfi,
                 return NULL;
             }
 
-            augmentation_data += size + 1;
+            if (size + 1 > augmentation_end - augmentation_data)
+                augmentation_data = augmentation_end;
+            else
+                augmentation_data += size + 1;
             break;
         }
         default:
-- 
2.43.0


From 519528dbbd10aeb613b4081e9120bc55b879a7eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:28:57 +0000
Subject: [PATCH 74/86] fix: give frame entries the right address in files
 whose executable segment does not start the file

---
 lib/elves.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 5582d3d..4499289 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -618,7 +618,8 @@ sr_elf_get_eh_frame(const char *filename,
 
         if (phdr.p_type == PT_LOAD && phdr.p_flags & PF_X)
         {
-            exec_base = phdr.p_vaddr;
+            /* The segment need not start at the beginning of the file. */
+            exec_base = phdr.p_vaddr - phdr.p_offset;
             break;
         }
     }
@@ -779,7 +780,7 @@ sr_elf_get_eh_frame(const char *filename,
             {
                 /* The value is relative to the place it is stored at. */
                 uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_offset +
+                initial_location += shdr.sh_addr - exec_base +
                     (cfi.fde.start - (const uint8_t *)section_data->d_buf);
                 initial_location &= mask;
             }
-- 
2.43.0


From 794f2ce1fcaca029437cd2c32955144b85b7d18f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:13:10 +0000
Subject: [PATCH 75/86] fix: let ELF inspection work in a process that has not
 initialized libelf

---
 lib/elves.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 4499289..8dee90b 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -129,6 +129,14 @@ sr_elf_get_procedure_linkage_table(const char *filename,
                                    char **error_message)
 {
 #ifdef WITH_ELFUTILS
+    /* Initialize libelf, it refuses to work otherwise. */
+    if (elf_version(EV_CURRENT) == EV_NONE)
+    {
+        *error_message = g_strdup_printf("elf_version failed: %s",
+                                     elf_errmsg(-1));
+        return NULL;
+    }
+
     /* Open the input file. */
     int fd = open(filename, O_RDONLY);
     if (fd < 0)
@@ -533,6 +541,14 @@ sr_elf_get_eh_frame(const char *filename,
                     char **error_message)
 {
 #ifdef WITH_ELFUTILS
+    /* Initialize libelf, it refuses to work otherwise. */
+    if (elf_version(EV_CURRENT) == EV_NONE)
+    {
+        *error_message = g_strdup_printf("elf_version failed: %s",
+                                     elf_errmsg(-1));
+        return NULL;
+    }
+
     /* Open the input file. */
     int fd = open(filename, O_RDONLY);
     if (fd < 0)
-- 
2.43.0


From a7acf94c21482393645ed5d4affd6325621a52fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:20 +0000
Subject: [PATCH 76/86] fix: compare threads of every type, and all frames of
 Java threads

---
 lib/generic_thread.c    | 22 ++++++++++++++++++++++
 lib/generic_thread.h    |  4 ++++
 lib/java_thread.c       | 12 +-----------
 lib/js_stacktrace.c     | 13 ++++++++++++-
 lib/koops_stacktrace.c  | 13 ++++++++++++-
 lib/python_stacktrace.c | 13 ++++++++++++-
 lib/ruby_stacktrace.c   | 13 ++++++++++++-
 7 files changed, 75 insertions(+), 15 deletions(-)

diff --git a/lib/generic_thread.c b/lib/generic_thread.c
index 4d2fc96..19b2bf6 100644
--- a/lib/generic_thread.c
+++ b/lib/generic_thread.c
@@ -46,6 +46,28 @@ thread_frame_count(struct sr_thread *thread)
     return count;
 }
 
+int
+thread_cmp_frames(struct sr_thread *t1, struct sr_thread *t2)
+{
+    struct sr_frame *frame1 = sr_thread_frames(t1),
+        *frame2 = sr_thread_frames(t2);
+
+    while (frame1 && frame2)
+    {
+        int frames = sr_frame_cmp(frame1, frame2);
+        if (frames != 0)
+            return frames;
+
+        frame1 = sr_frame_next(frame1);
+        frame2 = sr_frame_next(frame2);
+    }
+
+    if (frame1)
+        return 1;
+
+    return frame2 ? -1 : 0;
+}
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame)
 {
diff --git a/lib/generic_thread.h b/lib/generic_thread.h
index 93d71ca..5fa4987 100644
--- a/lib/generic_thread.h
+++ b/lib/generic_thread.h
@@ -77,6 +77,10 @@ extern struct thread_methods core_thread_methods, python_thread_methods,
 int
 thread_frame_count(struct sr_thread *thread);
 
+/* Compares just the frames of the threads. */
+int
+thread_cmp_frames(struct sr_thread *t1, struct sr_thread *t2);
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame);
 
diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..3086a1d 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -124,17 +124,7 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     if (res)
         return res;
 
-    struct sr_java_frame *frame1 = thread1->frames;
-    struct sr_java_frame *frame2 = thread2->frames;
-
-    if (frame1 && !frame2)
-        return 1;
-    else if (frame2 && !frame1)
-        return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
-
-    return 0;
+    return thread_cmp_frames((struct sr_thread *)thread1, (struct sr_thread *)thread2);
 }
 
 struct sr_java_thread *
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 1e770c9..afaf86e 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -42,11 +42,22 @@ DEFINE_FRAMES_FUNC(js_frames, struct sr_js_stacktrace)
 DEFINE_SET_FRAMES_FUNC(js_set_frames, struct sr_js_stacktrace)
 DEFINE_PARSE_WRAPPER_FUNC(js_parse, SR_REPORT_JAVASCRIPT)
 
+static int
+js_cmp(struct sr_js_stacktrace *stacktrace1, struct sr_js_stacktrace *stacktrace2)
+{
+    int exception_name = g_strcmp0(stacktrace1->exception_name, stacktrace2->exception_name);
+    if (exception_name != 0)
+        return exception_name;
+
+    return thread_cmp_frames((struct sr_thread *)stacktrace1,
+                             (struct sr_thread *)stacktrace2);
+}
+
 struct thread_methods js_thread_methods =
 {
     .frames = (frames_fn_t) js_frames,
     .set_frames = (set_frames_fn_t) js_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) js_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index bb14160..a657600 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -66,11 +66,22 @@ DEFINE_FRAMES_FUNC(koops_frames, struct sr_koops_stacktrace)
 DEFINE_SET_FRAMES_FUNC(koops_set_frames, struct sr_koops_stacktrace)
 DEFINE_PARSE_WRAPPER_FUNC(koops_parse, SR_REPORT_KERNELOOPS)
 
+static int
+koops_cmp(struct sr_koops_stacktrace *stacktrace1, struct sr_koops_stacktrace *stacktrace2)
+{
+    int version = g_strcmp0(stacktrace1->version, stacktrace2->version);
+    if (version != 0)
+        return version;
+
+    return thread_cmp_frames((struct sr_thread *)stacktrace1,
+                             (struct sr_thread *)stacktrace2);
+}
+
 struct thread_methods koops_thread_methods =
 {
     .frames = (frames_fn_t) koops_frames,
     .set_frames = (set_frames_fn_t) koops_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) koops_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..4fd7ba3 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -41,11 +41,22 @@ DEFINE_FRAMES_FUNC(python_frames, struct sr_python_stacktrace)
 DEFINE_SET_FRAMES_FUNC(python_set_frames, struct sr_python_stacktrace)
 DEFINE_PARSE_WRAPPER_FUNC(python_parse, SR_REPORT_PYTHON)
 
+static int
+python_cmp(struct sr_python_stacktrace *stacktrace1, struct sr_python_stacktrace *stacktrace2)
+{
+    int exception_name = g_strcmp0(stacktrace1->exception_name, stacktrace2->exception_name);
+    if (exception_name != 0)
+        return exception_name;
+
+    return thread_cmp_frames((struct sr_thread *)stacktrace1,
+                             (struct sr_thread *)stacktrace2);
+}
+
 struct thread_methods python_thread_methods =
 {
     .frames = (frames_fn_t) python_frames,
     .set_frames = (set_frames_fn_t) python_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) python_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 4ded3d5..ffdc497 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -40,11 +40,22 @@ DEFINE_FRAMES_FUNC(ruby_frames, struct sr_ruby_stacktrace)
 DEFINE_SET_FRAMES_FUNC(ruby_set_frames, struct sr_ruby_stacktrace)
 DEFINE_PARSE_WRAPPER_FUNC(ruby_parse, SR_REPORT_RUBY)
 
+static int
+ruby_cmp(struct sr_ruby_stacktrace *stacktrace1, struct sr_ruby_stacktrace *stacktrace2)
+{
+    int exception_name = g_strcmp0(stacktrace1->exception_name, stacktrace2->exception_name);
+    if (exception_name != 0)
+        return exception_name;
+
+    return thread_cmp_frames((struct sr_thread *)stacktrace1,
+                             (struct sr_thread *)stacktrace2);
+}
+
 struct thread_methods ruby_thread_methods =
 {
     .frames = (frames_fn_t) ruby_frames,
     .set_frames = (set_frames_fn_t) ruby_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) ruby_cmp,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
-- 
2.43.0


From 30934843b8dcdac3bf020f8010369ad2860b5be1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:22 +0000
Subject: [PATCH 77/86] fix: find the crash frame in a stack trace whose
 threads have no frames

---
 lib/gdb_stacktrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..6d563dc 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -426,7 +426,8 @@ sr_gdb_stacktrace_get_crash_frame(struct sr_gdb_stacktrace *stacktrace)
 
     sr_normalize_gdb_stacktrace(stacktrace);
     struct sr_gdb_frame *crash_frame = crash_thread->frames;
-    crash_frame = sr_gdb_frame_dup(crash_frame, false);
+    if (crash_frame)
+        crash_frame = sr_gdb_frame_dup(crash_frame, false);
     sr_gdb_stacktrace_free(stacktrace);
     return crash_frame;
 }
-- 
2.43.0


From fc0b3c56907127bcb86f57e970ed19475b533cb3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 78/86] fix: refuse attribute values in Python that the C
 structure cannot hold

---
 python/py_common.c | 35 ++++++++++++++++++++++++++++++-----
 python/py_common.h |  3 +++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 40129b3..bbed541 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -50,10 +50,17 @@ sr_py_setter_string(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    const char *newvalue = PyUnicode_AsUTF8(rhs);
+    Py_ssize_t size;
+    const char *newvalue = PyUnicode_AsUTF8AndSize(rhs, &size);
     if (!newvalue)
         return -1;
 
+    if (strlen(newvalue) != (size_t)size)
+    {
+        PyErr_SetString(PyExc_ValueError, "Embedded null character.");
+        return -1;
+    }
+
     char *str = MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset);
     g_free(str);
     MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = g_strdup(newvalue);
@@ -118,9 +125,9 @@ sr_py_setter_uint32(PyObject *self, PyObject *rhs, void *data)
     if (PyErr_Occurred())
         return -1;
 
-    if (newvalue < 0)
+    if (newvalue < 0 || newvalue > UINT32_MAX)
     {
-        PyErr_SetString(PyExc_ValueError, "Value must not be negative.");
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
         return -1;
     }
 
@@ -149,7 +156,10 @@ sr_py_setter_bool(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    bool newvalue = PyObject_IsTrue(rhs);
+    int newvalue = PyObject_IsTrue(rhs);
+    if (newvalue < 0)
+        return -1;
+
     MEMB_T(bool, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = newvalue;
 
     return 0;
@@ -188,7 +198,12 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     }
     else
     {
-        newvalue = (uint64_t)PyInt_AsUnsignedLongLongMask(rhs);
+        PyObject *index = PyNumber_Index(rhs);
+        if (!index)
+            return -1;
+
+        newvalue = PyLong_AsUnsignedLongLong(index);
+        Py_DECREF(index);
         if (PyErr_Occurred())
             return -1;
     }
@@ -205,6 +220,16 @@ sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data)
     return -1;
 }
 
+int
+sr_py_check_list(PyObject *object, const char *name)
+{
+    if (object && PyList_Check(object))
+        return 0;
+
+    PyErr_Format(PyExc_TypeError, "Attribute '%s' is not a list.", name);
+    return -1;
+}
+
 int
 normalize_cmp(int n)
 {
diff --git a/python/py_common.h b/python/py_common.h
index f8bd726..c3f01e2 100644
--- a/python/py_common.h
+++ b/python/py_common.h
@@ -132,6 +132,9 @@ int sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data);
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data);
 
+/* Returns -1 and sets an exception if the object is NULL or not a list. */
+int sr_py_check_list(PyObject *object, const char *name);
+
 /*
  * Satyr's comparison functions return arbitrary numbers, while python
  * requires the result to be in {-1, 0, 1}.
-- 
2.43.0


From a5d3ed321dd442036539025937889fbf3043451a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:25 +0000
Subject: [PATCH 79/86] fix: release Python frame objects whose construction
 failed

---
 python/py_core_frame.c   |  2 ++
 python/py_gdb_frame.c    |  6 ++++++
 python/py_java_frame.c   |  9 ++++++++-
 python/py_js_frame.c     |  6 ++++++
 python/py_koops_frame.c  | 11 +++++++++++
 python/py_python_frame.c |  6 ++++++
 python/py_ruby_frame.c   |  6 ++++++
 7 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/python/py_core_frame.c b/python/py_core_frame.c
index fa68df7..c669406 100644
--- a/python/py_core_frame.c
+++ b/python/py_core_frame.c
@@ -129,6 +129,8 @@ sr_py_core_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     fo->frame = sr_core_frame_new();
 
     return (PyObject*)fo;
diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 647b509..25461b5 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -182,9 +182,14 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        Py_DECREF(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -195,6 +200,7 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            Py_DECREF(fo);
             return NULL;
         }
     }
diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index 271d937..535b30b 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -131,9 +131,14 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        Py_DECREF(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -144,6 +149,7 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            Py_DECREF(fo);
             return NULL;
         }
     }
@@ -171,7 +177,8 @@ sr_py_java_frame_str(PyObject *self)
 
     if (this->frame->is_exception)
     {
-        g_string_append(buf, this->frame->name);
+        if (this->frame->name)
+            g_string_append(buf, this->frame->name);
         if (this->frame->message)
             g_string_append_printf(buf, ": %s", this->frame->message);
     }
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index bb1534b..4b908bb 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -124,9 +124,14 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        Py_DECREF(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -137,6 +142,7 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            Py_DECREF(fo);
             return NULL;
         }
     }
diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index b564f9f..5c061fb 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -143,13 +143,24 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        Py_DECREF(fo);
         return NULL;
+    }
 
     if (str)
     {
         fo->frame = sr_koops_frame_parse(&str);
+        if (!fo->frame)
+        {
+            PyErr_SetString(PyExc_ValueError, "Failed to parse the frame.");
+            Py_DECREF(fo);
+            return NULL;
+        }
     }
     else
         fo->frame = sr_koops_frame_new();
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 15a3353..85be78c 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -128,9 +128,14 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        Py_DECREF(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +146,7 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            Py_DECREF(fo);
             return NULL;
         }
     }
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index 1a92d66..b60c181 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -128,9 +128,14 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (!fo)
         return PyErr_NoMemory();
 
+    fo->frame = NULL;
+
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        Py_DECREF(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -142,6 +147,7 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             g_free((void *)location.message);
+            Py_DECREF(fo);
             return NULL;
         }
     }
-- 
2.43.0


From d357bc4f39c9bd820149850387b4c49d8ee96bcc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:26 +0000
Subject: [PATCH 80/86] fix: release Python packages and operating systems
 whose construction failed, initialize the epoch

---
 python/py_operating_system.c | 3 +++
 python/py_rpm_package.c      | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/py_operating_system.c b/python/py_operating_system.c
index 9a9981c..ba1985e 100644
--- a/python/py_operating_system.c
+++ b/python/py_operating_system.c
@@ -111,7 +111,10 @@ sr_py_operating_system_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *name = NULL, *version = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sss", &name, &version, &arch))
+    {
+        Py_DECREF(os);
         return NULL;
+    }
 
     if (name)
         os->operating_system->name = g_strdup(name);
diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 3bd907a..c788279 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -122,10 +122,13 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch;
+    unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
+    {
+        Py_DECREF(rpm);
         return NULL;
+    }
 
     if (name)
         rpm->rpm_package->name = g_strdup(name);
-- 
2.43.0


From b7a5888fa21ff816940a6604f40dd65b4b7d319d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:27 +0000
Subject: [PATCH 81/86] fix: keep Python stack trace, thread and frame objects
 consistent with their C structures

---
 python/py_base_stacktrace.c   | 250 ++++++++++++++++++-------
 python/py_base_stacktrace.h   |   4 +
 python/py_base_thread.c       | 212 +++++++++++++++++----
 python/py_base_thread.h       |   8 +
 python/py_core_stacktrace.c   |  78 +++++++-
 python/py_core_stacktrace.h   |   3 +
 python/py_core_thread.c       |  40 +---
 python/py_gdb_stacktrace.c    | 342 ++++++++++++++++++----------------
 python/py_gdb_stacktrace.h    |   3 +
 python/py_gdb_thread.c        |  70 +++----
 python/py_java_stacktrace.c   |  29 +--
 python/py_java_thread.c       |  60 ++----
 python/py_js_stacktrace.c     |  26 +--
 python/py_koops_stacktrace.c  |  54 +++---
 python/py_python_stacktrace.c |  26 +--
 python/py_ruby_stacktrace.c   |  26 +--
 16 files changed, 733 insertions(+), 498 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index a2f60ad..d801484 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -20,6 +20,8 @@
 #include <glib.h>
 #include "py_common.h"
 #include "py_base_stacktrace.h"
+#include "py_core_stacktrace.h"
+#include "py_gdb_stacktrace.h"
 
 #include "stacktrace.h"
 #include "thread.h"
@@ -181,56 +183,99 @@ PyTypeObject sr_py_multi_stacktrace_type = {
 int
 threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
 {
-    int i;
-    PyObject *item;
-    struct sr_py_base_thread *current = NULL, *prev = NULL;
+    Py_ssize_t i, count;
+    struct sr_py_base_thread *item;
+    struct sr_thread *thread = NULL;
 
-    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
-    {
-        item = PyList_GetItem(stacktrace->threads, i);
-        if (!item)
-            return -1;
+    if (sr_py_check_list(stacktrace->threads, "threads") < 0)
+        return -1;
 
-        Py_INCREF(item);
-        if (!PyObject_TypeCheck(item, stacktrace->thread_type))
+    count = PyList_Size(stacktrace->threads);
+    for (i = 0; i < count; ++i)
+    {
+        if (!PyObject_TypeCheck(PyList_GetItem(stacktrace->threads, i), stacktrace->thread_type))
         {
-            Py_XDECREF(current);
-            Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError,
                          "threads must be a list of %s objects",
                          stacktrace->thread_type->tp_name);
             return -1;
         }
+    }
+
+    sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+    for (i = 0; i < count; ++i)
+    {
+        item = (struct sr_py_base_thread*)PyList_GetItem(stacktrace->threads, i);
 
         /* Note: this line is not present in frames_prepare_linked_list. */
-        current = (struct sr_py_base_thread*)item;
-        if (frames_prepare_linked_list(current) < 0)
+        if (frames_prepare_linked_list(item) < 0)
+        {
+            sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
             return -1;
+        }
 
         if (i == 0)
-            sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
+            sr_stacktrace_set_threads(stacktrace->stacktrace, item->thread);
         else
-            sr_thread_set_next(prev->thread, current->thread);
+            sr_thread_set_next(thread, item->thread);
 
-        Py_XDECREF(prev);
-        prev = current;
+        thread = item->thread;
     }
 
-    if (current)
+    if (thread)
+        sr_thread_set_next(thread, NULL);
+
+    /* An object cannot be in a linked list twice, or in two linked lists. */
+    thread = sr_stacktrace_threads(stacktrace->stacktrace);
+    for (i = 0; i < count; ++i)
     {
-        sr_thread_set_next(current->thread, NULL);
-        Py_XDECREF(current);
+        item = (struct sr_py_base_thread*)PyList_GetItem(stacktrace->threads, i);
+        if (item->thread != thread)
+            break;
+
+        if (frames_check_linked_list(item) < 0)
+        {
+            sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+            return -1;
+        }
+
+        thread = sr_thread_next(thread);
     }
 
+    if (i < count || thread)
+    {
+        sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+        PyErr_SetString(PyExc_ValueError, "The same thread is used more than once.");
+        return -1;
+    }
+
+    if (PyObject_TypeCheck((PyObject *)stacktrace, &sr_py_gdb_stacktrace_type)
+        && gdb_stacktrace_prepare_libs((struct sr_py_gdb_stacktrace *)stacktrace) < 0)
+    {
+        return -1;
+    }
+
+    if (PyObject_TypeCheck((PyObject *)stacktrace, &sr_py_core_stacktrace_type))
+        core_stacktrace_prepare_crash_thread((struct sr_py_core_stacktrace *)stacktrace);
+
     return 0;
 }
 
+/* The threads in the list stop owning the C structures. */
+void
+threads_list_disown(PyObject *threads)
+{
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(threads); ++i)
+        thread_disown_python_obj((struct sr_py_base_thread*)PyList_GetItem(threads, i));
+}
+
 PyObject *
 threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_type, PyTypeObject *frame_type)
 {
     PyObject *result = PyList_New(0);
     if (!result)
-        return PyErr_NoMemory();
+        return NULL;
 
     struct sr_thread *thread = sr_stacktrace_threads(stacktrace);
     struct sr_py_base_thread *item;
@@ -238,22 +283,78 @@ threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_ty
     {
         item = PyObject_New(struct sr_py_base_thread, thread_type);
         if (!item)
-            return PyErr_NoMemory();
+            goto error;
 
         /* XXX may need to initialize further */
-        item->thread = thread;
-        item->frames = frames_to_python_list(thread, frame_type);
-        item->frame_type = frame_type;
-        if (!item->frames)
-            return NULL;
+        if (thread_init_python_obj(item, thread, frame_type) < 0)
+        {
+            Py_DECREF(item);
+            goto error;
+        }
 
         if (PyList_Append(result, (PyObject*)item) < 0)
-            return NULL;
+        {
+            thread_disown_python_obj(item);
+            Py_DECREF(item);
+            goto error;
+        }
 
+        /* the list holds its own reference */
+        Py_DECREF(item);
         thread = sr_thread_next(thread);
     }
 
     return result;
+
+error:
+    /* the threads still belong to the stacktrace */
+    threads_list_disown(result);
+    Py_DECREF(result);
+    return NULL;
+}
+
+/* Always takes over the ownership of the stacktrace. */
+PyObject *
+stacktrace_to_python_obj(struct sr_stacktrace *stacktrace, PyTypeObject *type,
+                         PyTypeObject *thread_type, PyTypeObject *frame_type)
+{
+    struct sr_py_multi_stacktrace *result =
+        PyObject_New(struct sr_py_multi_stacktrace, type);
+    if (!result)
+    {
+        sr_stacktrace_free(stacktrace);
+        return NULL;
+    }
+
+    result->thread_type = thread_type;
+    result->frame_type = frame_type;
+    result->stacktrace = NULL;
+    result->threads = threads_to_python_list(stacktrace, thread_type, frame_type);
+    if (!result->threads)
+    {
+        Py_DECREF(result);
+        sr_stacktrace_free(stacktrace);
+        return NULL;
+    }
+
+    result->stacktrace = stacktrace;
+    return (PyObject *)result;
+}
+
+/* destructor */
+void
+stacktrace_free_python_obj(PyObject *object)
+{
+    struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace *)object;
+
+    /* the list will decref all of its elements */
+    Py_XDECREF(this->threads);
+    if (this->stacktrace)
+    {
+        sr_stacktrace_set_threads(this->stacktrace, NULL);
+        sr_stacktrace_free(this->stacktrace);
+    }
+    PyObject_Del(object);
 }
 
 PyObject *
@@ -270,7 +371,10 @@ sr_py_single_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->thread, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -293,7 +397,10 @@ sr_py_multi_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->stacktrace, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -378,12 +485,6 @@ sr_py_multi_stacktrace_get_crash(PyObject *self, void *unused)
     if (crash_thread == NULL)
         Py_RETURN_NONE;
 
-    if (!PyList_Check(this->threads))
-    {
-        PyErr_SetString(PyExc_TypeError, "Attribute 'threads' is not a list.");
-        return NULL;
-    }
-
     int i;
     PyObject *item;
     for (i = 0; i < PyList_Size(this->threads); ++i)
@@ -392,13 +493,6 @@ sr_py_multi_stacktrace_get_crash(PyObject *self, void *unused)
         if (!item)
             return NULL;
 
-        if (!PyObject_TypeCheck(item, this->thread_type))
-        {
-            PyErr_SetString(PyExc_TypeError,
-                            "List of threads contains object that is not a thread.");
-            return NULL;
-        }
-
         struct sr_py_base_thread *thread = (struct sr_py_base_thread *)item;
         if (thread->thread == crash_thread)
         {
@@ -420,28 +514,39 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
         return NULL;
 
     /* Create new stacktrace */
-    PyObject *noargs = PyTuple_New(0);
-    PyObject *result = PyObject_CallObject(class, noargs);
-    Py_DECREF(noargs);
+    PyObject *result = PyObject_CallObject(class, NULL);
+    if (!result)
+        return NULL;
 
-    /* Free the C structure and thread list */
     struct sr_py_base_thread *this = (struct sr_py_base_thread*)result;
     enum sr_report_type type = this->thread->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    sr_thread_set_frames(this->thread, NULL);
-    sr_thread_free(this->thread);
 
     /* Parse json */
-    this->thread = (struct sr_thread*)
-        sr_stacktrace_from_json_text(type, json_str, &error_message);
-
-    if (!this->thread)
+    struct sr_stacktrace *stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
+    if (!stacktrace)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    PyObject *frames = frames_to_python_list((struct sr_thread *)stacktrace, this->frame_type);
+    if (!frames)
+    {
+        sr_stacktrace_free(stacktrace);
+        Py_DECREF(result);
         return NULL;
     }
-    this->frames = frames_to_python_list((struct sr_thread *)this->thread, this->frame_type);
+
+    /* Free the C structure and frame list */
+    /* the list will decref all of its elements */
+    Py_DECREF(this->frames);
+    sr_thread_set_frames(this->thread, NULL);
+    sr_thread_free(this->thread);
+
+    this->thread = (struct sr_thread *)stacktrace;
+    this->frames = frames;
 
     return result;
 }
@@ -454,26 +559,39 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
         return NULL;
 
     /* Create new stacktrace */
-    PyObject *noargs = PyTuple_New(0);
-    PyObject *result = PyObject_CallObject(class, noargs);
-    Py_DECREF(noargs);
+    PyObject *result = PyObject_CallObject(class, NULL);
+    if (!result)
+        return NULL;
 
-    /* Free the C structure and thread list */
     struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace*)result;
     enum sr_report_type type = this->stacktrace->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    sr_stacktrace_set_threads(this->stacktrace, NULL);
-    sr_stacktrace_free(this->stacktrace);
 
     /* Parse json */
-    this->stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
-    if (!this->stacktrace)
+    struct sr_stacktrace *stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
+    if (!stacktrace)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
         return NULL;
     }
-    this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
+
+    PyObject *threads = threads_to_python_list(stacktrace, this->thread_type, this->frame_type);
+    if (!threads)
+    {
+        sr_stacktrace_free(stacktrace);
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    /* Free the C structure and thread list */
+    /* the list will decref all of its elements */
+    Py_DECREF(this->threads);
+    sr_stacktrace_set_threads(this->stacktrace, NULL);
+    sr_stacktrace_free(this->stacktrace);
+
+    this->stacktrace = stacktrace;
+    this->threads = threads;
 
     return result;
 }
diff --git a/python/py_base_stacktrace.h b/python/py_base_stacktrace.h
index 3be2a91..b99ff6f 100644
--- a/python/py_base_stacktrace.h
+++ b/python/py_base_stacktrace.h
@@ -51,6 +51,10 @@ struct sr_py_multi_stacktrace
 int threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace);
 PyObject *threads_to_python_list(struct sr_stacktrace *stacktrace,
                                  PyTypeObject *thread_type, PyTypeObject *frame_type);
+void threads_list_disown(PyObject *threads);
+PyObject *stacktrace_to_python_obj(struct sr_stacktrace *stacktrace, PyTypeObject *type,
+                                   PyTypeObject *thread_type, PyTypeObject *frame_type);
+void stacktrace_free_python_obj(PyObject *object);
 
 /* methods */
 PyObject *sr_py_single_stacktrace_to_short_text(PyObject *self, PyObject *args);
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index a61348d..90dcd36 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -115,46 +115,80 @@ sr_py_base_thread_type =
 int
 frames_prepare_linked_list(struct sr_py_base_thread *thread)
 {
-    int i;
-    PyObject *item;
-    struct sr_py_base_frame *current = NULL, *prev = NULL;
-
-    for (i = 0; i < PyList_Size(thread->frames); ++i)
-    {
-        item = PyList_GetItem(thread->frames, i);
-        if (!item)
-            return -1;
+    Py_ssize_t i, count;
+    struct sr_py_base_frame *item;
+    struct sr_frame *frame = NULL;
 
-        Py_INCREF(item);
+    if (sr_py_check_list(thread->frames, "frames") < 0)
+        return -1;
 
-        if (!PyObject_TypeCheck(item, thread->frame_type))
+    count = PyList_Size(thread->frames);
+    for (i = 0; i < count; ++i)
+    {
+        if (!PyObject_TypeCheck(PyList_GetItem(thread->frames, i), thread->frame_type))
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError, "frames must be a list of %s objects",
                          thread->frame_type->tp_name);
             return -1;
         }
+    }
+
+    sr_thread_set_frames(thread->thread, NULL);
+    for (i = 0; i < count; ++i)
+    {
+        item = (struct sr_py_base_frame*)PyList_GetItem(thread->frames, i);
 
-        current = (struct sr_py_base_frame*)item;
         if (i == 0)
-            sr_thread_set_frames(thread->thread, current->frame);
+            sr_thread_set_frames(thread->thread, item->frame);
         else
-            sr_frame_set_next(prev->frame, current->frame);
+            sr_frame_set_next(frame, item->frame);
+
+        frame = item->frame;
+    }
+
+    if (frame)
+        sr_frame_set_next(frame, NULL);
+
+    return frames_check_linked_list(thread);
+}
+
+/* An object cannot be in a linked list twice, or in two linked lists. */
+int
+frames_check_linked_list(struct sr_py_base_thread *thread)
+{
+    Py_ssize_t i;
+    struct sr_frame *frame = sr_thread_frames(thread->thread);
+
+    for (i = 0; i < PyList_Size(thread->frames); ++i)
+    {
+        struct sr_py_base_frame *item =
+            (struct sr_py_base_frame*)PyList_GetItem(thread->frames, i);
 
-        Py_XDECREF(prev);
-        prev = current;
+        if (item->frame != frame)
+            break;
+
+        frame = sr_frame_next(frame);
     }
 
-    if (current)
+    if (i < PyList_Size(thread->frames) || frame)
     {
-        sr_frame_set_next(current->frame, NULL);
-        Py_DECREF(current);
+        sr_thread_set_frames(thread->thread, NULL);
+        PyErr_SetString(PyExc_ValueError, "The same frame is used more than once.");
+        return -1;
     }
 
     return 0;
 }
 
+/* The frames in the list stop owning the C structures. */
+static void
+frames_list_disown(PyObject *frames)
+{
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(frames); ++i)
+        ((struct sr_py_base_frame*)PyList_GetItem(frames, i))->frame = NULL;
+}
+
 PyObject *
 frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
 {
@@ -164,11 +198,12 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
 
     struct sr_frame *frame = sr_thread_frames(thread);
     struct sr_py_base_frame *item;
+
     while (frame)
     {
         item = PyObject_New(struct sr_py_base_frame, frame_type);
         if (!item)
-            return PyErr_NoMemory();
+            goto error;
 
         /* XXX may need to initialize item further */
         /* It would be a good idea to have a common code that is executed each
@@ -177,32 +212,123 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
          * directly. */
         item->frame = frame;
         if (PyList_Append(result, (PyObject *)item) < 0)
-            return NULL;
+        {
+            item->frame = NULL;
+            Py_DECREF(item);
+            goto error;
+        }
 
+        /* the list holds its own reference */
+        Py_DECREF(item);
         frame = sr_frame_next(frame);
     }
 
     return result;
+
+error:
+    /* the frames still belong to the thread */
+    frames_list_disown(result);
+    Py_DECREF(result);
+    return NULL;
+}
+
+/* Fill in a newly created Python object. If it fails, the thread still belongs
+ * to the caller. */
+int
+thread_init_python_obj(struct sr_py_base_thread *object, struct sr_thread *thread,
+                       PyTypeObject *frame_type)
+{
+    object->frame_type = frame_type;
+    object->thread = NULL;
+    object->frames = frames_to_python_list(thread, frame_type);
+    if (!object->frames)
+        return -1;
+
+    object->thread = thread;
+    return 0;
+}
+
+void
+thread_disown_python_obj(struct sr_py_base_thread *object)
+{
+    frames_list_disown(object->frames);
+    object->thread = NULL;
+}
+
+/* Always takes over the ownership of the thread. */
+PyObject *
+thread_to_python_obj(struct sr_thread *thread, PyTypeObject *thread_type, PyTypeObject *frame_type)
+{
+    struct sr_py_base_thread *result = PyObject_New(struct sr_py_base_thread, thread_type);
+    if (!result)
+    {
+        sr_thread_free(thread);
+        return NULL;
+    }
+
+    if (thread_init_python_obj(result, thread, frame_type) < 0)
+    {
+        Py_DECREF(result);
+        sr_thread_free(thread);
+        return NULL;
+    }
+
+    return (PyObject *)result;
+}
+
+/* destructor */
+void
+thread_free_python_obj(PyObject *object)
+{
+    struct sr_py_base_thread *this = (struct sr_py_base_thread *)object;
+
+    /* the list will decref all of its elements */
+    Py_XDECREF(this->frames);
+    if (this->thread)
+    {
+        sr_thread_set_frames(this->thread, NULL);
+        sr_thread_free(this->thread);
+    }
+    PyObject_Del(object);
+}
+
+/* A copy of the thread; NULL and an exception if its list of frames is wrong.
+ * Another thread might share frames with this one, and a frame cannot be in two
+ * linked lists at the same time. */
+struct sr_thread *
+thread_prepare_copy(struct sr_py_base_thread *thread)
+{
+    if (frames_prepare_linked_list(thread) < 0)
+        return NULL;
+
+    return sr_thread_dup(thread->thread);
 }
 
 /* comparison */
 static int
-sr_py_base_thread_cmp(struct sr_py_base_thread *self, struct sr_py_base_thread *other)
+sr_py_base_thread_cmp(struct sr_py_base_thread *self, struct sr_py_base_thread *other,
+                      int *result)
 {
     if (Py_TYPE(self) != Py_TYPE(other))
     {
         /* distinct types must be unequal */
-        return normalize_cmp(Py_TYPE(self) - Py_TYPE(other));
+        *result = normalize_cmp(Py_TYPE(self) - Py_TYPE(other));
+        return 0;
     }
 
-    if (frames_prepare_linked_list(self) < 0
-        || frames_prepare_linked_list(other) < 0)
+    struct sr_thread *copy = thread_prepare_copy(self);
+    if (!copy)
+        return -1;
+
+    if (frames_prepare_linked_list(other) < 0)
     {
-        /* exception is already set */
+        sr_thread_free(copy);
         return -1;
     }
 
-    return normalize_cmp(sr_thread_cmp(self->thread, other->thread));
+    *result = normalize_cmp(sr_thread_cmp(copy, other->thread));
+    sr_thread_free(copy);
+    return 0;
 }
 
 PyObject *
@@ -213,8 +339,15 @@ sr_py_base_thread_equals(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &sr_py_base_thread_type, &other))
         return NULL;
 
+    int cmp;
     if (sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
-                              (struct sr_py_base_thread *)other) == 0)
+                              (struct sr_py_base_thread *)other, &cmp) < 0)
+    {
+        /* exception is already set */
+        return NULL;
+    }
+
+    if (cmp == 0)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
@@ -235,12 +368,6 @@ sr_py_base_thread_distance(PyObject *self, PyObject *args, PyObject *kwds)
     struct sr_py_base_thread *t1 = (struct sr_py_base_thread *)self;
     struct sr_py_base_thread *t2 = (struct sr_py_base_thread *)other;
 
-    if (frames_prepare_linked_list(t1) < 0)
-        return NULL;
-
-    if (frames_prepare_linked_list(t2) < 0)
-        return NULL;
-
     if (Py_TYPE(self) != Py_TYPE(other))
     {
         PyErr_SetString(PyExc_TypeError, "Both threads must have the same type");
@@ -253,7 +380,18 @@ sr_py_base_thread_distance(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
-    float dist = sr_distance(dist_type, t1->thread, t2->thread);
+    struct sr_thread *copy = thread_prepare_copy(t1);
+    if (!copy)
+        return NULL;
+
+    if (frames_prepare_linked_list(t2) < 0)
+    {
+        sr_thread_free(copy);
+        return NULL;
+    }
+
+    float dist = sr_distance(dist_type, copy, t2->thread);
+    sr_thread_free(copy);
     return PyFloat_FromDouble((double)dist);
 }
 
diff --git a/python/py_base_thread.h b/python/py_base_thread.h
index 95cce02..c5b1d55 100644
--- a/python/py_base_thread.h
+++ b/python/py_base_thread.h
@@ -44,7 +44,15 @@ struct sr_py_base_thread
 
 /* helpers */
 int frames_prepare_linked_list(struct sr_py_base_thread *thread);
+int frames_check_linked_list(struct sr_py_base_thread *thread);
 PyObject *frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type);
+int thread_init_python_obj(struct sr_py_base_thread *object, struct sr_thread *thread,
+                           PyTypeObject *frame_type);
+void thread_disown_python_obj(struct sr_py_base_thread *object);
+PyObject *thread_to_python_obj(struct sr_thread *thread, PyTypeObject *thread_type,
+                               PyTypeObject *frame_type);
+void thread_free_python_obj(PyObject *object);
+struct sr_thread *thread_prepare_copy(struct sr_py_base_thread *thread);
 
 PyObject *sr_py_base_thread_equals(PyObject *self, PyObject *args);
 
diff --git a/python/py_core_stacktrace.c b/python/py_core_stacktrace.c
index 1feea4c..38d349f 100644
--- a/python/py_core_stacktrace.c
+++ b/python/py_core_stacktrace.c
@@ -37,11 +37,16 @@
                   "Clones the stacktrace object. All new structures are independent " \
                   "of the original object."
 
+#define b_from_json_doc "Usage: CoreStacktrace.from_json(json_string) (class method)\n\n" \
+                        "Returns: satyr.CoreStacktrace - stacktrace deserialized from json_string\n\n" \
+                        "json_string: string - json input"
+
 static PyMethodDef
 core_stacktrace_methods[] =
 {
     /* methods */
-    { "dup", sr_py_core_stacktrace_dup, METH_NOARGS, b_dup_doc },
+    { "dup",       sr_py_core_stacktrace_dup,       METH_NOARGS,             b_dup_doc       },
+    { "from_json", sr_py_core_stacktrace_from_json, METH_VARARGS|METH_CLASS, b_from_json_doc },
     { NULL },
 };
 
@@ -112,23 +117,66 @@ PyTypeObject sr_py_core_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
+/* The crash thread is known to the C structure only by its address. Hold the
+ * Python object, so that the address stays valid when it is removed from the
+ * list of threads. */
+static void
+core_stacktrace_remember_crash_thread(struct sr_py_core_stacktrace *stacktrace)
+{
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
+    {
+        PyObject *item = PyList_GetItem(stacktrace->threads, i);
+        if (((struct sr_py_core_thread *)item)->thread == stacktrace->stacktrace->crash_thread)
+        {
+            Py_INCREF(item);
+            stacktrace->crash_thread = item;
+            break;
+        }
+    }
+}
+
+/* Only a thread that is in the list can be the crash thread. */
+void
+core_stacktrace_prepare_crash_thread(struct sr_py_core_stacktrace *stacktrace)
+{
+    Py_ssize_t i;
+    stacktrace->stacktrace->crash_thread = NULL;
+    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
+    {
+        PyObject *item = PyList_GetItem(stacktrace->threads, i);
+        if (item == stacktrace->crash_thread)
+            stacktrace->stacktrace->crash_thread = ((struct sr_py_core_thread *)item)->thread;
+    }
+}
+
 PyObject *
 core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace)
 {
     struct sr_py_core_stacktrace *bo = PyObject_New(struct sr_py_core_stacktrace,
                                                     &sr_py_core_stacktrace_type);
+
     if (!bo)
-        return PyErr_NoMemory();
+    {
+        sr_core_stacktrace_free(stacktrace);
+        return NULL;
+    }
 
     bo->thread_type = &sr_py_core_thread_type;
     bo->frame_type = &sr_py_core_frame_type;
-
-    bo->stacktrace = stacktrace;
-    bo->threads = threads_to_python_list((struct sr_stacktrace *)bo->stacktrace,
+    bo->crash_thread = NULL;
+    bo->stacktrace = NULL;
+    bo->threads = threads_to_python_list((struct sr_stacktrace *)stacktrace,
                                          bo->thread_type, bo->frame_type);
     if (!bo->threads)
+    {
+        Py_DECREF(bo);
+        sr_core_stacktrace_free(stacktrace);
         return NULL;
+    }
 
+    bo->stacktrace = stacktrace;
+    core_stacktrace_remember_crash_thread(bo);
     return (PyObject *)bo;
 }
 
@@ -166,11 +214,8 @@ void
 sr_py_core_stacktrace_free(PyObject *object)
 {
     struct sr_py_core_stacktrace *this = (struct sr_py_core_stacktrace*)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    this->stacktrace->threads = NULL;
-    sr_core_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    Py_XDECREF(this->crash_thread);
+    stacktrace_free_python_obj(object);
 }
 
 /* str */
@@ -178,6 +223,9 @@ PyObject *
 sr_py_core_stacktrace_str(PyObject *self)
 {
     struct sr_py_core_stacktrace *this = (struct sr_py_core_stacktrace *)self;
+    if (sr_py_check_list(this->threads, "threads") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Core stacktrace with %zd threads",
                            (ssize_t)(PyList_Size(this->threads)));
@@ -201,3 +249,13 @@ sr_py_core_stacktrace_dup(PyObject *self, PyObject *args)
 
     return core_stacktrace_to_python_obj(stacktrace);
 }
+
+PyObject *
+sr_py_core_stacktrace_from_json(PyObject *class, PyObject *args)
+{
+    PyObject *result = sr_py_multi_stacktrace_from_json(class, args);
+    if (result)
+        core_stacktrace_remember_crash_thread((struct sr_py_core_stacktrace *)result);
+
+    return result;
+}
diff --git a/python/py_core_stacktrace.h b/python/py_core_stacktrace.h
index 6d91e40..563cbc8 100644
--- a/python/py_core_stacktrace.h
+++ b/python/py_core_stacktrace.h
@@ -47,10 +47,12 @@ struct sr_py_core_stacktrace
     PyObject *threads;
     PyTypeObject *thread_type;
     PyTypeObject *frame_type;
+    PyObject *crash_thread; /* NULL if it is not known */
 };
 
 /* helpers */
 PyObject *core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace);
+void core_stacktrace_prepare_crash_thread(struct sr_py_core_stacktrace *stacktrace);
 
 /* constructor */
 PyObject *sr_py_core_stacktrace_new(PyTypeObject *object,
@@ -65,6 +67,7 @@ PyObject *sr_py_core_stacktrace_str(PyObject *self);
 
 /* methods */
 PyObject *sr_py_core_stacktrace_dup(PyObject *self, PyObject *args);
+PyObject *sr_py_core_stacktrace_from_json(PyObject *cls, PyObject *args);
 PyObject *sr_py_core_stacktrace_normalize(PyObject *self, PyObject *args);
 
 #ifdef __cplusplus
diff --git a/python/py_core_thread.c b/python/py_core_thread.c
index f583f22..df957d8 100644
--- a/python/py_core_thread.c
+++ b/python/py_core_thread.c
@@ -94,36 +94,24 @@ PyTypeObject sr_py_core_thread_type =
 PyObject *
 sr_py_core_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_core_thread *to = (struct sr_py_core_thread*)
-        PyObject_New(struct sr_py_core_thread,
-                     &sr_py_core_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_core_frame_type;
-    to->frames = PyList_New(0);
-    to->thread = sr_core_thread_new();
-
-    return (PyObject *)to;
+    return thread_to_python_obj((struct sr_thread *)sr_core_thread_new(),
+                                &sr_py_core_thread_type, &sr_py_core_frame_type);
 }
 
 /* destructor */
 void
 sr_py_core_thread_free(PyObject *object)
 {
-    struct sr_py_core_thread *this = (struct sr_py_core_thread *)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->thread->frames = NULL;
-    sr_core_thread_free(this->thread);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 PyObject *
 sr_py_core_thread_str(PyObject *self)
 {
     struct sr_py_core_thread *this = (struct sr_py_core_thread *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Thread with %zd frames", (ssize_t)(PyList_Size(this->frames)));
 
@@ -141,18 +129,6 @@ sr_py_core_thread_dup(PyObject *self, PyObject *args)
     if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
         return NULL;
 
-    struct sr_py_core_thread *to = (struct sr_py_core_thread*)
-        PyObject_New(struct sr_py_core_thread, &sr_py_core_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_core_frame_type;
-    to->thread = sr_core_thread_dup(this->thread, false);
-    if (!to->thread)
-        return NULL;
-
-    to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
-
-    return (PyObject *)to;
+    return thread_to_python_obj((struct sr_thread *)sr_core_thread_dup(this->thread, false),
+                                &sr_py_core_thread_type, &sr_py_core_frame_type);
 }
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 35d9d65..5aebd48 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -138,137 +138,170 @@ PyTypeObject sr_py_gdb_stacktrace_type = {
 };
 
 /* helpers */
-static int
-gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
+int
+gdb_stacktrace_prepare_libs(struct sr_py_gdb_stacktrace *stacktrace)
 {
-    if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *) stacktrace) < 0)
+    Py_ssize_t i, count;
+    struct sr_py_gdb_sharedlib *item;
+    struct sr_gdb_sharedlib *lib = NULL;
+
+    if (sr_py_check_list(stacktrace->libs, "libs") < 0)
         return -1;
 
-    /* sharedlib */
-    int i;
-    PyObject *item;
-    struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
-    for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
+    count = PyList_Size(stacktrace->libs);
+    for (i = 0; i < count; ++i)
     {
-        item = PyList_GetItem(stacktrace->libs, i);
-        if (!item)
-            return -1;
-
-        Py_INCREF(item);
-        if (!PyObject_TypeCheck(item, &sr_py_gdb_sharedlib_type))
+        if (!PyObject_TypeCheck(PyList_GetItem(stacktrace->libs, i), &sr_py_gdb_sharedlib_type))
         {
-            Py_XDECREF(currentlib);
-            Py_XDECREF(prevlib);
             PyErr_SetString(PyExc_TypeError,
                             "libs must be a list of satyr.Sharedlib objects");
             return -1;
         }
+    }
+
+    stacktrace->stacktrace->libs = NULL;
+    for (i = 0; i < count; ++i)
+    {
+        item = (struct sr_py_gdb_sharedlib*)PyList_GetItem(stacktrace->libs, i);
 
-        currentlib = (struct sr_py_gdb_sharedlib*)item;
         if (i == 0)
-            stacktrace->stacktrace->libs = currentlib->sharedlib;
+            stacktrace->stacktrace->libs = item->sharedlib;
         else
-            prevlib->sharedlib->next = currentlib->sharedlib;
+            lib->next = item->sharedlib;
 
-        Py_XDECREF(prevlib);
-        prevlib = currentlib;
+        lib = item->sharedlib;
     }
 
-    if (currentlib)
+    if (lib)
+        lib->next = NULL;
+
+    /* An object cannot be in the linked list twice. */
+    lib = stacktrace->stacktrace->libs;
+    for (i = 0; i < count; ++i)
     {
-        currentlib->sharedlib->next = NULL;
-        Py_XDECREF(currentlib);
+        item = (struct sr_py_gdb_sharedlib*)PyList_GetItem(stacktrace->libs, i);
+        if (item->sharedlib != lib)
+        {
+            stacktrace->stacktrace->libs = NULL;
+            PyErr_SetString(PyExc_ValueError, "The same library is used more than once.");
+            return -1;
+        }
+
+        lib = lib->next;
     }
 
     return 0;
 }
 
-PyObject *
-thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
+static int
+gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
 {
-    PyObject *result = PyList_New(0);
-    if (!result)
-        return PyErr_NoMemory();
-
-    struct sr_gdb_thread *thread = stacktrace->threads;
-    struct sr_py_gdb_thread *item;
-    while (thread)
-    {
-        item = (struct sr_py_gdb_thread*)
-            PyObject_New(struct sr_py_gdb_thread, &sr_py_gdb_thread_type);
-
-        item->frame_type = &sr_py_gdb_frame_type;
-        item->thread = thread;
-        item->frames = frames_to_python_list((struct sr_thread *)thread,
-                                             &sr_py_gdb_frame_type);
-        if (!item->frames)
-            return NULL;
-
-        if (PyList_Append(result, (PyObject*)item) < 0)
-            return NULL;
-
-        thread = thread->next;
-    }
+    /* calls gdb_stacktrace_prepare_libs */
+    return threads_prepare_linked_list((struct sr_py_multi_stacktrace *) stacktrace);
+}
 
-    return result;
+static PyObject *
+thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
+{
+    return threads_to_python_list((struct sr_stacktrace *)stacktrace,
+                                  &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
 }
 
-PyObject *
+static PyObject *
 sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
 {
     PyObject *result = PyList_New(0);
     if (!result)
-        return PyErr_NoMemory();
+        return NULL;
 
+    Py_ssize_t i;
     struct sr_gdb_sharedlib *sharedlib = stacktrace->libs;
     struct sr_py_gdb_sharedlib *item;
     while (sharedlib)
     {
         item = (struct sr_py_gdb_sharedlib*)
             PyObject_New(struct sr_py_gdb_sharedlib, &sr_py_gdb_sharedlib_type);
+        if (!item)
+            goto error;
 
         item->sharedlib = sharedlib;
         if (PyList_Append(result, (PyObject *)item) < 0)
-            return NULL;
+        {
+            item->sharedlib = NULL;
+            Py_DECREF(item);
+            goto error;
+        }
 
+        /* the list holds its own reference */
+        Py_DECREF(item);
         sharedlib = sharedlib->next;
     }
 
     return result;
+
+error:
+    /* the libraries still belong to the stacktrace */
+    for (i = 0; i < PyList_Size(result); ++i)
+        ((struct sr_py_gdb_sharedlib*)PyList_GetItem(result, i))->sharedlib = NULL;
+    Py_DECREF(result);
+    return NULL;
 }
 
-/* XXX Why GDB stacktrace needs this function while other types do not? Is it
- * because the methods here modify the linked lists and other types have no
- * such methods? Shouldn't we do a copy of the linked list *before* we call the
- * C function on it?
- */
-int
-stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
+/* Always takes over the ownership of the stacktrace. */
+static struct sr_py_gdb_stacktrace *
+gdb_stacktrace_to_python_obj(struct sr_gdb_stacktrace *stacktrace)
 {
-    struct sr_gdb_thread *newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
-    if (!newlinkedlist)
-        return -1;
+    struct sr_py_gdb_stacktrace *bo = (struct sr_py_gdb_stacktrace*)
+        PyObject_New(struct sr_py_gdb_stacktrace,
+                     &sr_py_gdb_stacktrace_type);
 
-    /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->threads);
+    if (!bo)
+    {
+        sr_gdb_stacktrace_free(stacktrace);
+        return NULL;
+    }
 
-    stacktrace->stacktrace->threads = newlinkedlist;
-    stacktrace->threads = threads_to_python_list((struct sr_stacktrace *)stacktrace->stacktrace,
-                                                 &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
-    return 0;
+    bo->thread_type = &sr_py_gdb_thread_type;
+    bo->frame_type = &sr_py_gdb_frame_type;
+    Py_INCREF(Py_None);
+    bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    bo->stacktrace = NULL;
+    bo->libs = NULL;
+    bo->threads = thread_linked_list_to_python_list(stacktrace);
+    if (bo->threads)
+        bo->libs = sharedlib_linked_list_to_python_list(stacktrace);
+
+    if (!bo->libs)
+    {
+        if (bo->threads)
+            threads_list_disown(bo->threads);
+        Py_DECREF(bo);
+        sr_gdb_stacktrace_free(stacktrace);
+        return NULL;
+    }
+
+    bo->stacktrace = stacktrace;
+    return bo;
 }
 
-int
-stacktrace_rebuild_sharedlib_python_list(struct sr_py_gdb_stacktrace *stacktrace)
+/* Make the object use the threads of another stacktrace, which is freed. */
+static int
+gdb_stacktrace_take_threads(struct sr_py_gdb_stacktrace *stacktrace,
+                            struct sr_gdb_stacktrace *other)
 {
-    struct sr_gdb_sharedlib *newlinkedlist = sr_gdb_sharedlib_dup(stacktrace->stacktrace->libs, true);
-    if (!newlinkedlist)
+    PyObject *threads = thread_linked_list_to_python_list(other);
+    if (!threads)
+    {
+        sr_gdb_stacktrace_free(other);
         return -1;
+    }
 
     /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->libs);
-    stacktrace->stacktrace->libs = newlinkedlist;
-    stacktrace->libs = sharedlib_linked_list_to_python_list(stacktrace->stacktrace);
+    Py_DECREF(stacktrace->threads);
+    stacktrace->threads = threads;
+    stacktrace->stacktrace->threads = other->threads;
+    other->threads = NULL;
+    sr_gdb_stacktrace_free(other);
     return 0;
 }
 
@@ -278,46 +311,27 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
                           PyObject *args,
                           PyObject *kwds)
 {
-    struct sr_py_gdb_stacktrace *bo = (struct sr_py_gdb_stacktrace*)
-        PyObject_New(struct sr_py_gdb_stacktrace,
-                     &sr_py_gdb_stacktrace_type);
-
-    if (!bo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
-    bo->thread_type = &sr_py_gdb_thread_type;
-    bo->frame_type = &sr_py_gdb_frame_type;
-    bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    struct sr_gdb_stacktrace *stacktrace;
     if (str)
     {
         /* ToDo parse */
         struct sr_location location;
         sr_location_init(&location);
-        bo->stacktrace = sr_gdb_stacktrace_parse(&str, &location);
-        if (!bo->stacktrace)
+        stacktrace = sr_gdb_stacktrace_parse(&str, &location);
+        if (!stacktrace)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
-        bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
-        if (!bo->threads)
-            return NULL;
-        bo->libs = sharedlib_linked_list_to_python_list(bo->stacktrace);
-        if (!bo->libs)
-            return NULL;
     }
     else
-    {
-        bo->threads = PyList_New(0);
-        bo->stacktrace = sr_gdb_stacktrace_new();
-        bo->libs = PyList_New(0);
-    }
+        stacktrace = sr_gdb_stacktrace_new();
 
-    return (PyObject *)bo;
+    return (PyObject *)gdb_stacktrace_to_python_obj(stacktrace);
 }
 
 /* destructor */
@@ -326,12 +340,11 @@ sr_py_gdb_stacktrace_free(PyObject *object)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)object;
     /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    Py_DECREF(this->libs);
-    this->stacktrace->threads = NULL;
-    this->stacktrace->libs = NULL;
-    sr_gdb_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    Py_XDECREF(this->libs);
+    Py_XDECREF(this->crashframe);
+    if (this->stacktrace)
+        this->stacktrace->libs = NULL;
+    stacktrace_free_python_obj(object);
 }
 
 /* str */
@@ -339,6 +352,9 @@ PyObject *
 sr_py_gdb_stacktrace_str(PyObject *self)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace *)self;
+    if (sr_py_check_list(this->threads, "threads") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Stacktrace with %zd threads",
                            (ssize_t)(PyList_Size(this->threads)));
@@ -356,35 +372,26 @@ sr_py_gdb_stacktrace_dup(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    struct sr_py_gdb_stacktrace *bo = (struct sr_py_gdb_stacktrace*)
-        PyObject_New(struct sr_py_gdb_stacktrace,
-                     &sr_py_gdb_stacktrace_type);
-
-    if (!bo)
+    struct sr_gdb_stacktrace *stacktrace = sr_gdb_stacktrace_dup(this->stacktrace);
+    if (!stacktrace)
         return PyErr_NoMemory();
 
-    bo->thread_type = &sr_py_gdb_thread_type;
-    bo->frame_type = &sr_py_gdb_frame_type;
-    bo->stacktrace = sr_gdb_stacktrace_dup(this->stacktrace);
-    if (!bo->stacktrace)
-        return NULL;
-
-    bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
-    if (!bo->threads)
-        return NULL;
-
-    bo->libs = sharedlib_linked_list_to_python_list(bo->stacktrace);
-    if (!bo->libs)
+    struct sr_py_gdb_stacktrace *bo = gdb_stacktrace_to_python_obj(stacktrace);
+    if (!bo)
         return NULL;
 
     if (PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
     {
-        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_thread_dup((PyObject*)this->crashframe, PyTuple_New(0));
-        if (!bo->crashframe)
+        PyObject *crashframe = sr_py_gdb_frame_dup((PyObject*)this->crashframe, NULL);
+        if (!crashframe)
+        {
+            Py_DECREF(bo);
             return NULL;
+        }
+
+        Py_DECREF(bo->crashframe);
+        bo->crashframe = (struct sr_py_gdb_frame*)crashframe;
     }
-    else
-        bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
 
     return (PyObject*)bo;
 }
@@ -396,7 +403,6 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
     struct sr_gdb_frame *frame = sr_gdb_stacktrace_get_crash_frame(this->stacktrace);
     if (!frame)
     {
@@ -414,14 +420,11 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     }
 
     result->frame = frame;
-    this->crashframe = result;
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-    {
-        sr_gdb_frame_free(frame);
-        Py_DECREF(result);
-        return NULL;
-    }
+    struct sr_py_gdb_frame *old = this->crashframe;
+    Py_INCREF(result);
+    this->crashframe = result;
+    Py_DECREF(old);
 
     return (PyObject *)result;
 }
@@ -430,16 +433,23 @@ PyObject *
 sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
-    if (gdb_prepare_linked_lists(this) < 0)
-        return NULL;
-
     int depth;
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
+    if (depth <= 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "Depth must be positive.");
+        return NULL;
+    }
+
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
     /* destroys linked list - need to rebuild python list */
-    sr_gdb_stacktrace_limit_frame_depth(this->stacktrace, depth);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
+    if (gdb_stacktrace_take_threads(this, tmp) < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -473,11 +483,20 @@ PyObject *
 sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
-    if (gdb_prepare_linked_lists(this) < 0)
+    PyObject *arg;
+    if (!PyArg_ParseTuple(args, "O", &arg))
         return NULL;
 
-    unsigned long long address;
-    if (!PyArg_ParseTuple(args, "l", &address))
+    PyObject *index = PyNumber_Index(arg);
+    if (!index)
+        return NULL;
+
+    unsigned long long address = PyLong_AsUnsignedLongLong(index);
+    Py_DECREF(index);
+    if (PyErr_Occurred())
+        return NULL;
+
+    if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
     if (address == (unsigned long long) -1)
@@ -509,9 +528,9 @@ sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* does not destroy the linked list */
-    sr_gdb_stacktrace_set_libnames(this->stacktrace);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_set_libnames(tmp);
+    if (gdb_stacktrace_take_threads(this, tmp) < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -528,19 +547,19 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
     /* need to rebuild python list manually */
     struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
     sr_normalize_gdb_stacktrace(tmp);
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-
-    this->stacktrace->threads = tmp->threads;
-    this->stacktrace->crash = tmp->crash;
-    this->stacktrace->crash_tid = tmp->crash_tid;
-    tmp->threads = NULL;
+    /* gdb_stacktrace_take_threads frees what is left in tmp */
+    struct sr_gdb_frame *crash = tmp->crash;
+    uint32_t crash_tid = tmp->crash_tid;
     tmp->crash = NULL;
-    sr_gdb_stacktrace_free(tmp);
-
-    this->threads = thread_linked_list_to_python_list(this->stacktrace);
-    if (!this->threads)
+    if (gdb_stacktrace_take_threads(this, tmp) < 0)
+    {
+        sr_gdb_frame_free(crash);
         return NULL;
+    }
+
+    sr_gdb_frame_free(this->stacktrace->crash);
+    this->stacktrace->crash = crash;
+    this->stacktrace->crash_tid = crash_tid;
 
     Py_RETURN_NONE;
 }
@@ -549,13 +568,13 @@ PyObject *
 sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
-    if (gdb_prepare_linked_lists(this) < 0)
-        return NULL;
-
     int max_frames = 0;
     if (!PyArg_ParseTuple(args, "|i", &max_frames))
         return NULL;
 
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
     char *text =
         sr_gdb_stacktrace_to_short_text(this->stacktrace, max_frames);
     if (!text)
@@ -564,9 +583,6 @@ sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
         return NULL;
     }
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
-
     PyObject *result = PyString_FromString(text);
 
     g_free(text);
diff --git a/python/py_gdb_stacktrace.h b/python/py_gdb_stacktrace.h
index 6c977be..5246abf 100644
--- a/python/py_gdb_stacktrace.h
+++ b/python/py_gdb_stacktrace.h
@@ -51,6 +51,9 @@ struct sr_py_gdb_stacktrace
     PyObject *libs;
 };
 
+/* helpers */
+int gdb_stacktrace_prepare_libs(struct sr_py_gdb_stacktrace *stacktrace);
+
 /* constructor */
 PyObject *sr_py_gdb_stacktrace_new(PyTypeObject *object,
                                    PyObject *args,
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6201738..8375a4e 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -109,28 +109,20 @@ PyTypeObject sr_py_gdb_thread_type =
 PyObject *
 sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_gdb_thread *to = (struct sr_py_gdb_thread*)
-        PyObject_New(struct sr_py_gdb_thread,
-                     &sr_py_gdb_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_gdb_frame_type;
-
     const char *str = NULL;
     int only_funs = 0;
     if (!PyArg_ParseTuple(args, "|si", &str, &only_funs))
         return NULL;
 
+    struct sr_gdb_thread *thread;
     if (str)
     {
         if (!only_funs)
         {
             struct sr_location location;
             sr_location_init(&location);
-            to->thread = sr_gdb_thread_parse(&str, &location);
-            if (!to->thread)
+            thread = sr_gdb_thread_parse(&str, &location);
+            if (!thread)
             {
                 PyErr_SetString(PyExc_ValueError, location.message);
                 return NULL;
@@ -138,38 +130,35 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         }
         else
         {
-            to->thread = sr_gdb_thread_parse_funs(str);
+            thread = sr_gdb_thread_parse_funs(str);
+            if (!thread)
+            {
+                PyErr_SetString(PyExc_ValueError, "Failed to parse the functions.");
+                return NULL;
+            }
         }
-        to->frames = frames_to_python_list((struct sr_thread*)to->thread,
-                                           to->frame_type);
-        if (!to->frames)
-            return NULL;
     }
     else
-    {
-        to->frames = PyList_New(0);
-        to->thread = sr_gdb_thread_new();
-    }
+        thread = sr_gdb_thread_new();
 
-    return (PyObject *)to;
+    return thread_to_python_obj((struct sr_thread *)thread,
+                                &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
 }
 
 /* destructor */
 void
 sr_py_gdb_thread_free(PyObject *object)
 {
-    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->thread->frames = NULL;
-    sr_gdb_thread_free(this->thread);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 PyObject *
 sr_py_gdb_thread_str(PyObject *self)
 {
     struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Thread #%u with %zd frames",
                            this->thread->number,
@@ -188,22 +177,8 @@ sr_py_gdb_thread_dup(PyObject *self, PyObject *args)
     if (frames_prepare_linked_list((struct sr_py_base_thread*) this) < 0)
         return NULL;
 
-    struct sr_py_gdb_thread *to = (struct sr_py_gdb_thread*)
-        PyObject_New(struct sr_py_gdb_thread, &sr_py_gdb_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_gdb_frame_type;
-
-    to->thread = sr_gdb_thread_dup(this->thread, false);
-    if (!to->thread)
-        return NULL;
-
-    to->frames = frames_to_python_list((struct sr_thread*)to->thread,
-                                       to->frame_type);
-
-    return (PyObject *)to;
+    return thread_to_python_obj((struct sr_thread *)sr_gdb_thread_dup(this->thread, false),
+                                &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
 }
 
 PyObject *
@@ -231,5 +206,12 @@ sr_py_gdb_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_gdb_thread_format_funs(((struct sr_py_gdb_thread *)self)->thread));
+    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *str = sr_gdb_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", str);
+    g_free(str);
+    return result;
 }
diff --git a/python/py_java_stacktrace.c b/python/py_java_stacktrace.c
index aef1689..3913c0e 100644
--- a/python/py_java_stacktrace.c
+++ b/python/py_java_stacktrace.c
@@ -1,4 +1,5 @@
 #include "py_base_stacktrace.h"
+#include "py_common.h"
 #include "py_java_stacktrace.h"
 #include "py_java_thread.h"
 #include "py_java_frame.h"
@@ -77,21 +78,9 @@ PyTypeObject sr_py_java_stacktrace_type = {
 PyObject *
 java_stacktrace_to_python_obj(struct sr_java_stacktrace *stacktrace)
 {
-    struct sr_py_java_stacktrace *bo = PyObject_New(struct sr_py_java_stacktrace,
-                                                    &sr_py_java_stacktrace_type);
-    if (!bo)
-        return PyErr_NoMemory();
-
-    bo->thread_type = &sr_py_java_thread_type;
-    bo->frame_type = &sr_py_java_frame_type;
-
-    bo->stacktrace = stacktrace;
-    bo->threads = threads_to_python_list((struct sr_stacktrace *)bo->stacktrace,
-                                         bo->thread_type, bo->frame_type);
-    if (!bo->threads)
-        return NULL;
-
-    return (PyObject *)bo;
+    return stacktrace_to_python_obj((struct sr_stacktrace *)stacktrace,
+                                    &sr_py_java_stacktrace_type,
+                                    &sr_py_java_thread_type, &sr_py_java_frame_type);
 }
 
 /* constructor */
@@ -127,12 +116,7 @@ sr_py_java_stacktrace_new(PyTypeObject *object,
 void
 sr_py_java_stacktrace_free(PyObject *object)
 {
-    struct sr_py_java_stacktrace *this = (struct sr_py_java_stacktrace*)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    this->stacktrace->threads = NULL;
-    sr_java_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    stacktrace_free_python_obj(object);
 }
 
 /* str */
@@ -140,6 +124,9 @@ PyObject *
 sr_py_java_stacktrace_str(PyObject *self)
 {
     struct sr_py_java_stacktrace *this = (struct sr_py_java_stacktrace *)self;
+    if (sr_py_check_list(this->threads, "threads") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Java stacktrace with %zd threads",
                            (ssize_t)(PyList_Size(this->threads)));
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 99d44f7..dc94323 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -109,58 +109,43 @@ PyTypeObject sr_py_java_thread_type =
 PyObject *
 sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_java_thread *to = (struct sr_py_java_thread*)
-        PyObject_New(struct sr_py_java_thread,
-                     &sr_py_java_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_java_frame_type;
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_java_thread *thread;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        to->thread = sr_java_thread_parse(&str, &location);
-        if (!to->thread)
+        thread = sr_java_thread_parse(&str, &location);
+        if (!thread)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
-        to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
-        if (!to->frames)
-            return NULL;
     }
     else
-    {
-        to->frames = PyList_New(0);
-        to->thread = sr_java_thread_new();
-    }
+        thread = sr_java_thread_new();
 
-    return (PyObject *)to;
+    return thread_to_python_obj((struct sr_thread *)thread,
+                                &sr_py_java_thread_type, &sr_py_java_frame_type);
 }
 
 /* destructor */
 void
 sr_py_java_thread_free(PyObject *object)
 {
-    struct sr_py_java_thread *this = (struct sr_py_java_thread *)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->thread->frames = NULL;
-    sr_java_thread_free(this->thread);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 PyObject *
 sr_py_java_thread_str(PyObject *self)
 {
     struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append(buf, "Thread");
     if (this->thread->name)
@@ -181,20 +166,8 @@ sr_py_java_thread_dup(PyObject *self, PyObject *args)
     if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
         return NULL;
 
-    struct sr_py_java_thread *to = (struct sr_py_java_thread*)
-        PyObject_New(struct sr_py_java_thread, &sr_py_java_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_java_frame_type;
-    to->thread = sr_java_thread_dup(this->thread, false);
-    if (!to->thread)
-        return NULL;
-
-    to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
-
-    return (PyObject *)to;
+    return thread_to_python_obj((struct sr_thread *)sr_java_thread_dup(this->thread, false),
+                                &sr_py_java_thread_type, &sr_py_java_frame_type);
 }
 
 PyObject *
@@ -222,5 +195,12 @@ sr_py_java_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_java_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_java_thread_format_funs(((struct sr_py_java_thread *)self)->thread));
+    struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *str = sr_java_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", str);
+    g_free(str);
+    return result;
 }
diff --git a/python/py_js_stacktrace.c b/python/py_js_stacktrace.c
index 5027dcf..591289d 100644
--- a/python/py_js_stacktrace.c
+++ b/python/py_js_stacktrace.c
@@ -113,20 +113,8 @@ PyTypeObject sr_py_js_stacktrace_type = {
 PyObject *
 js_stacktrace_to_python_obj(struct sr_js_stacktrace *stacktrace)
 {
-    struct sr_py_js_stacktrace *bo = PyObject_New(struct sr_py_js_stacktrace,
-                                                  &sr_py_js_stacktrace_type);
-    if (!bo)
-        return PyErr_NoMemory();
-
-    bo->frame_type = &sr_py_js_frame_type;
-
-    bo->stacktrace = stacktrace;
-    bo->frames = frames_to_python_list((struct sr_thread *)bo->stacktrace,
-                                       bo->frame_type);
-    if (!bo->frames)
-        return NULL;
-
-    return (PyObject *)bo;
+    return thread_to_python_obj((struct sr_thread *)stacktrace,
+                                &sr_py_js_stacktrace_type, &sr_py_js_frame_type);
 }
 
 /* constructor */
@@ -162,12 +150,7 @@ sr_py_js_stacktrace_new(PyTypeObject *object,
 void
 sr_py_js_stacktrace_free(PyObject *object)
 {
-    struct sr_py_js_stacktrace *this = (struct sr_py_js_stacktrace*)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->stacktrace->frames = NULL;
-    sr_js_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 /* str */
@@ -175,6 +158,9 @@ PyObject *
 sr_py_js_stacktrace_str(PyObject *self)
 {
     struct sr_py_js_stacktrace *this = (struct sr_py_js_stacktrace *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "JavaScript stacktrace with %zd frames",
                          (ssize_t)(PyList_Size(this->frames)));
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 0faa5a7..79ef0b9 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -115,7 +115,14 @@ sr_py_koops_stacktrace_get_modules(PyObject *self, void *data)
 
     while(iter && *iter)
     {
-      PyList_Append(result, Py_BuildValue("s", *iter++));
+      PyObject *module = Py_BuildValue("s", *iter++);
+      if (!module || PyList_Append(result, module) < 0)
+      {
+          Py_XDECREF(module);
+          Py_DECREF(result);
+          return NULL;
+      }
+      Py_DECREF(module);
     }
 
     return result;
@@ -133,13 +140,19 @@ sr_py_koops_stacktrace_get_taint_flags(PyObject *self, void *data)
 {
     struct sr_koops_stacktrace *st = ((struct sr_py_koops_stacktrace*)self)->stacktrace;
     PyObject *flags = PyDict_New();
+    if (!flags)
+        return NULL;
+
 
     struct sr_taint_flag *f;
     for (f = sr_flags; f->letter; f++)
     {
         PyObject *val = MEMB_T(bool, st, f->member_offset) ? Py_True : Py_False;
         if (PyDict_SetItemString(flags, f->name, val) == -1)
+        {
+            Py_DECREF(flags);
             return NULL;
+        }
     }
 
     return flags;
@@ -155,20 +168,8 @@ sr_py_koops_stacktrace_set_taint_flags(PyObject *self, PyObject *rhs, void *data
 PyObject *
 koops_stacktrace_to_python_obj(struct sr_koops_stacktrace *stacktrace)
 {
-    struct sr_py_koops_stacktrace *bo = PyObject_New(struct sr_py_koops_stacktrace,
-                                                    &sr_py_koops_stacktrace_type);
-    if (!bo)
-        return PyErr_NoMemory();
-
-    bo->frame_type = &sr_py_koops_frame_type;
-
-    bo->stacktrace = stacktrace;
-    bo->frames = frames_to_python_list((struct sr_thread *)bo->stacktrace,
-                                       bo->frame_type);
-    if (!bo->frames)
-        return NULL;
-
-    return (PyObject *)bo;
+    return thread_to_python_obj((struct sr_thread *)stacktrace,
+                                &sr_py_koops_stacktrace_type, &sr_py_koops_frame_type);
 }
 
 /* constructor */
@@ -204,12 +205,7 @@ sr_py_koops_stacktrace_new(PyTypeObject *object,
 void
 sr_py_koops_stacktrace_free(PyObject *object)
 {
-    struct sr_py_koops_stacktrace *this = (struct sr_py_koops_stacktrace*)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->stacktrace->frames = NULL;
-    sr_koops_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 /* str */
@@ -217,6 +213,9 @@ PyObject *
 sr_py_koops_stacktrace_str(PyObject *self)
 {
     struct sr_py_koops_stacktrace *this = (struct sr_py_koops_stacktrace *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Kerneloops with %zd frames",
                            (ssize_t)(PyList_Size(this->frames)));
@@ -252,16 +251,21 @@ sr_py_koops_stacktrace_normalize(PyObject *self, PyObject *args)
     /* need to rebuild python list manually */
     struct sr_koops_stacktrace *tmp = sr_koops_stacktrace_dup(this->stacktrace);
     sr_normalize_koops_stacktrace(tmp);
+
+    PyObject *frames = frames_to_python_list((struct sr_thread *)tmp, this->frame_type);
+    if (!frames)
+    {
+        sr_koops_stacktrace_free(tmp);
+        return NULL;
+    }
+
     /* the list will decref all of its elements */
     Py_DECREF(this->frames);
+    this->frames = frames;
 
     this->stacktrace->frames = tmp->frames;
     tmp->frames = NULL;
     sr_koops_stacktrace_free(tmp);
 
-    this->frames = frames_to_python_list((struct sr_thread *)this->stacktrace, this->frame_type);
-    if (!this->frames)
-        return NULL;
-
     Py_RETURN_NONE;
 }
diff --git a/python/py_python_stacktrace.c b/python/py_python_stacktrace.c
index 30e0169..083ffd1 100644
--- a/python/py_python_stacktrace.c
+++ b/python/py_python_stacktrace.c
@@ -98,20 +98,8 @@ PyTypeObject sr_py_python_stacktrace_type = {
 PyObject *
 python_stacktrace_to_python_obj(struct sr_python_stacktrace *stacktrace)
 {
-    struct sr_py_python_stacktrace *bo = PyObject_New(struct sr_py_python_stacktrace,
-                                                      &sr_py_python_stacktrace_type);
-    if (!bo)
-        return PyErr_NoMemory();
-
-    bo->frame_type = &sr_py_python_frame_type;
-
-    bo->stacktrace = stacktrace;
-    bo->frames = frames_to_python_list((struct sr_thread *)bo->stacktrace,
-                                       bo->frame_type);
-    if (!bo->frames)
-        return NULL;
-
-    return (PyObject *)bo;
+    return thread_to_python_obj((struct sr_thread *)stacktrace,
+                                &sr_py_python_stacktrace_type, &sr_py_python_frame_type);
 }
 
 /* constructor */
@@ -147,12 +135,7 @@ sr_py_python_stacktrace_new(PyTypeObject *object,
 void
 sr_py_python_stacktrace_free(PyObject *object)
 {
-    struct sr_py_python_stacktrace *this = (struct sr_py_python_stacktrace*)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->stacktrace->frames = NULL;
-    sr_python_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 /* str */
@@ -160,6 +143,9 @@ PyObject *
 sr_py_python_stacktrace_str(PyObject *self)
 {
     struct sr_py_python_stacktrace *this = (struct sr_py_python_stacktrace *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Python stacktrace with %zd frames",
                            (ssize_t)(PyList_Size(this->frames)));
diff --git a/python/py_ruby_stacktrace.c b/python/py_ruby_stacktrace.c
index c03ab10..14b53c5 100644
--- a/python/py_ruby_stacktrace.c
+++ b/python/py_ruby_stacktrace.c
@@ -93,20 +93,8 @@ PyTypeObject sr_py_ruby_stacktrace_type = {
 PyObject *
 ruby_stacktrace_to_python_obj(struct sr_ruby_stacktrace *stacktrace)
 {
-    struct sr_py_ruby_stacktrace *bo = PyObject_New(struct sr_py_ruby_stacktrace,
-                                                    &sr_py_ruby_stacktrace_type);
-    if (!bo)
-        return PyErr_NoMemory();
-
-    bo->frame_type = &sr_py_ruby_frame_type;
-
-    bo->stacktrace = stacktrace;
-    bo->frames = frames_to_python_list((struct sr_thread *)bo->stacktrace,
-                                       bo->frame_type);
-    if (!bo->frames)
-        return NULL;
-
-    return (PyObject *)bo;
+    return thread_to_python_obj((struct sr_thread *)stacktrace,
+                                &sr_py_ruby_stacktrace_type, &sr_py_ruby_frame_type);
 }
 
 /* constructor */
@@ -142,12 +130,7 @@ sr_py_ruby_stacktrace_new(PyTypeObject *object,
 void
 sr_py_ruby_stacktrace_free(PyObject *object)
 {
-    struct sr_py_ruby_stacktrace *this = (struct sr_py_ruby_stacktrace*)object;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    this->stacktrace->frames = NULL;
-    sr_ruby_stacktrace_free(this->stacktrace);
-    PyObject_Del(object);
+    thread_free_python_obj(object);
 }
 
 /* str */
@@ -155,6 +138,9 @@ PyObject *
 sr_py_ruby_stacktrace_str(PyObject *self)
 {
     struct sr_py_ruby_stacktrace *this = (struct sr_py_ruby_stacktrace *)self;
+    if (sr_py_check_list(this->frames, "frames") < 0)
+        return NULL;
+
     GString *buf = g_string_new(NULL);
     g_string_append_printf(buf, "Ruby stacktrace with %zd frames",
                          (ssize_t)(PyList_Size(this->frames)));
-- 
2.43.0


From 904046513527b25c954c8c9848f653d25f6c2271 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:28 +0000
Subject: [PATCH 82/86] fix: check the arguments of Python distance matrices
 and release what they allocate

---
 python/py_metrics.c | 247 ++++++++++++++++++++++++++++----------------
 1 file changed, 158 insertions(+), 89 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 5eb09a9..503c7f3 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -3,6 +3,7 @@
 #include "py_common.h"
 #include "utils.h"
 #include "distance.h"
+#include "thread.h"
 #include <glib.h>
 
 #define distances_doc "satyr.Distances - class representing distances between objects\n\n" \
@@ -186,11 +187,24 @@ validate_distance_params(int m, int n, int dist_type)
     return false;
 }
 
-static bool
-prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
+static void
+free_thread_array(struct sr_thread **threads, Py_ssize_t n)
+{
+    Py_ssize_t i;
+    for (i = 0; i < n; i++)
+        sr_thread_free(threads[i]);
+
+    g_free(threads);
+}
+
+/* The array contains copies of the threads: the same thread can be in the list
+ * several times, and several threads can contain the same frame. */
+static struct sr_thread **
+prepare_thread_array(PyObject *thread_list, Py_ssize_t n)
 {
-    int i;
+    Py_ssize_t i;
     PyTypeObject *thread_type = NULL;
+    struct sr_thread **threads = g_malloc0_n(n + 1, sizeof(*threads));
 
     for (i = 0; i < n; i++)
     {
@@ -198,37 +212,65 @@ prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
         if (!PyObject_TypeCheck(obj, &sr_py_base_thread_type))
         {
             PyErr_SetString(PyExc_TypeError, "Must be a list of satyr.BaseThread objects");
-            return false;
+            goto error;
         }
 
         /* check that the type is the same as in the previous thread */
         if (thread_type && obj->ob_type != thread_type)
         {
             PyErr_SetString(PyExc_TypeError, "All threads in the list must have the same type");
-            return false;
+            goto error;
         }
         thread_type = obj->ob_type;
 
-        struct sr_py_base_thread *to = (struct sr_py_base_thread*)obj;
-        if (frames_prepare_linked_list(to) < 0)
-            return false;
+        threads[i] = thread_prepare_copy((struct sr_py_base_thread*)obj);
+        if (!threads[i])
+            goto error;
+    }
+
+    return threads;
+
+error:
+    free_thread_array(threads, i);
+    return NULL;
+}
 
-        threads[i] = (struct sr_thread*)to->thread;
+/* Always takes over the ownership of the distances. */
+static PyObject *
+distances_to_python_obj(struct sr_distances *distances)
+{
+    struct sr_py_distances *o = PyObject_New(struct sr_py_distances, &sr_py_distances_type);
+    if (!o)
+    {
+        sr_distances_free(distances);
+        return NULL;
     }
 
-    return true;
+    o->distances = distances;
+    return (PyObject *)o;
+}
+
+/* Always takes over the ownership of the part. */
+static PyObject *
+distances_part_to_python_obj(struct sr_distances_part *part)
+{
+    struct sr_py_distances_part *o =
+        PyObject_New(struct sr_py_distances_part, &sr_py_distances_part_type);
+    if (!o)
+    {
+        sr_distances_part_free(part, false);
+        return NULL;
+    }
+
+    o->distances_part = part;
+    return (PyObject *)o;
 }
 
 /* constructor */
 PyObject *
 sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_distances *o = (struct sr_py_distances*)
-        PyObject_New(struct sr_py_distances, &sr_py_distances_type);
-
-    if (!o)
-        return PyErr_NoMemory();
-
+    struct sr_distances *distances;
     PyObject *thread_list;
     int m, n;
     int dist_type = SR_DISTANCE_LEVENSHTEIN;
@@ -238,31 +280,33 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
                                     &PyList_Type, &thread_list, &m, &dist_type))
     {
         n = PyList_Size(thread_list);
-        struct sr_thread *threads[n];
 
         if (!validate_distance_params(m, n, dist_type))
             return NULL;
 
-        if (!prepare_thread_array(thread_list, threads, n))
+        struct sr_thread **threads = prepare_thread_array(thread_list, n);
+        if (!threads)
             return NULL;
 
-        o->distances = sr_threads_compare(threads, m, n, dist_type);
+        distances = sr_threads_compare(threads, m, n, dist_type);
+        free_thread_array(threads, n);
     }
-    else if (PyArg_ParseTuple(args, "ii", &m, &n))
+    else
     {
         PyErr_Clear();
+        if (!PyArg_ParseTuple(args, "ii", &m, &n))
+            return NULL;
+
         if (m < 1 || n < 2)
         {
             PyErr_SetString(PyExc_ValueError, "Distance matrix must have at least 1 row and 2 columns");
             return NULL;
         }
 
-        o->distances = sr_distances_new(m, n);
+        distances = sr_distances_new(m, n);
     }
-    else
-        return NULL;
 
-    return (PyObject *)o;
+    return distances_to_python_obj(distances);
 }
 
 /* destructor */
@@ -336,61 +380,49 @@ PyObject *
 sr_py_distances_dup(PyObject *self, PyObject *args)
 {
     struct sr_py_distances *this = (struct sr_py_distances*)self;
-    struct sr_py_distances *o = (struct sr_py_distances*)
-        PyObject_New(struct sr_py_distances, &sr_py_distances_type);
-
-    if (!o)
-        return PyErr_NoMemory();
-
-    o->distances = sr_distances_dup(this->distances);
-    if (!o->distances)
-        return NULL;
-
-    return (PyObject*)o;
+    return distances_to_python_obj(sr_distances_dup(this->distances));
 }
 
 static struct sr_distances_part*
 parts_prepare_linked_list(PyObject *part_list)
 {
-    int i;
-    PyObject *item;
-    struct sr_py_distances_part *current = NULL, *prev = NULL;
+    Py_ssize_t i, count = PyList_Size(part_list);
+    struct sr_distances_part *part = NULL;
 
-    for (i = 0; i < PyList_Size(part_list); ++i)
+    if (count < 1)
     {
-        item = PyList_GetItem(part_list, i);
-        if (!item)
-            return NULL;
-
-        Py_INCREF(item);
+        PyErr_SetString(PyExc_ValueError, "The list of distance matrix parts is empty");
+        return NULL;
+    }
 
-        if (!PyObject_TypeCheck(item, &sr_py_distances_part_type))
+    for (i = 0; i < count; ++i)
+    {
+        if (!PyObject_TypeCheck(PyList_GetItem(part_list, i), &sr_py_distances_part_type))
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
             PyErr_SetString(PyExc_TypeError,
                     "argument must be a list of satyr.DistancePart objects");
             return NULL;
         }
-
-        current = (struct sr_py_distances_part*)item;
-        if (i != 0)
-            prev->distances_part->next = current->distances_part;
-
-        Py_XDECREF(prev);
-        prev = current;
     }
 
-    if (current)
+    for (i = count - 1; i >= 0; --i)
     {
-        current->distances_part->next = NULL;
-        Py_DECREF(current);
+        struct sr_distances_part *it, *current =
+            ((struct sr_py_distances_part*)PyList_GetItem(part_list, i))->distances_part;
+
+        /* The same part may be in the list several times, it is enough to merge
+         * it once. */
+        for (it = part; it != NULL && it != current; it = it->next)
+            continue;
+
+        if (it)
+            continue;
+
+        current->next = part;
+        part = current;
     }
 
-    if (PyList_Size(part_list) > 0)
-        return ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
-    else
-        return NULL;
+    return part;
 }
 
 PyObject *
@@ -411,12 +443,7 @@ sr_py_distances_merge_parts(PyObject *self, PyObject *args)
         return NULL;
     }
 
-    struct sr_py_distances *o = PyObject_New(struct sr_py_distances, &sr_py_distances_type);
-    if (!o)
-        return PyErr_NoMemory();
-
-    o->distances = dist;
-    return (PyObject *)o;
+    return distances_to_python_obj(dist);
 }
 
 /* constructor */
@@ -433,6 +460,31 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
                           &checksum, &dist_list))
         return NULL;
 
+    if (!validate_distance_params(m, n, dist_type))
+        return NULL;
+
+    /* number of matrix elements from the first element of the part on */
+    unsigned long long available = 0;
+    if (m < n && m_begin >= 0 && m_begin < m && n_begin > m_begin && n_begin < n)
+    {
+        int i;
+        available = n - n_begin;
+        for (i = m_begin + 1; i < m; i++)
+            available += n - 1 - i;
+    }
+
+    if (len > available)
+    {
+        PyErr_SetString(PyExc_ValueError, "The part does not fit in the distance matrix");
+        return NULL;
+    }
+
+    if (PyList_Check(dist_list) && (unsigned long long)PyList_Size(dist_list) != len)
+    {
+        PyErr_SetString(PyExc_ValueError, "Wrong number of distances provided");
+        return NULL;
+    }
+
     struct sr_distances_part *part = sr_distances_part_new(m, n, dist_type, m_begin, n_begin,
                                                            (size_t)len);
     part->checksum = (uint32_t)checksum;
@@ -440,14 +492,20 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (PyList_Check(dist_list))
     {
         part->distances = g_malloc_n(sizeof(float), part->len);
-        int i;
-        for (i = 0; i < PyList_Size(dist_list); i++)
+        unsigned long long i;
+        for (i = 0; i < len; i++)
         {
-            PyObject *item = PyList_GetItem(dist_list, i);
-            if (!item)
+            /* converting an item to a number might change the list */
+            if (PyList_Size(dist_list) <= (Py_ssize_t)i)
+            {
+                PyErr_SetString(PyExc_ValueError, "Wrong number of distances provided");
                 goto error;
+            }
 
+            PyObject *item = PyList_GetItem(dist_list, i);
+            Py_INCREF(item);
             double d = PyFloat_AsDouble(item);
+            Py_DECREF(item);
             if (PyErr_Occurred())
                 goto error;
 
@@ -460,11 +518,7 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         goto error;
     }
 
-    struct sr_py_distances_part *py_part =
-        PyObject_New(struct sr_py_distances_part, &sr_py_distances_part_type);
-    py_part->distances_part = part;
-
-    return (PyObject *)py_part;
+    return distances_part_to_python_obj(part);
 error:
     sr_distances_part_free(part, false);
     return NULL;
@@ -514,9 +568,11 @@ sr_py_distances_part_reduce(PyObject *self, PyObject *args)
                 return NULL;
             }
 
-            if (PyList_Append(dist_list, f) != 0)
+            int failed = PyList_Append(dist_list, f);
+            /* the list holds its own reference */
+            Py_DECREF(f);
+            if (failed != 0)
             {
-                Py_XDECREF(f);
                 Py_XDECREF(dist_list);
                 return NULL;
             }
@@ -551,6 +607,12 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
     if (!validate_distance_params(m, n, dist_type))
         return NULL;
 
+    if (nparts < 1)
+    {
+        PyErr_SetString(PyExc_ValueError, "Number of parts must be positive");
+        return NULL;
+    }
+
     struct sr_distances_part *parts = sr_distances_part_create(m, n, dist_type, nparts);
     if (parts == NULL)
     {
@@ -559,19 +621,25 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *part_list = PyList_New(0);
-    struct sr_distances_part *it;
-    for (it = parts; it != NULL; it = it->next)
+    struct sr_distances_part *it, *next;
+    for (it = parts; it != NULL; it = next)
     {
-        struct sr_py_distances_part *py_part =
-            PyObject_New(struct sr_py_distances_part, &sr_py_distances_part_type);
+        next = it->next;
+        it->next = NULL;
 
-        py_part->distances_part = it;
-        if (PyList_Append(part_list, (PyObject*)py_part) != 0)
+        PyObject *py_part = part_list ? distances_part_to_python_obj(it) : NULL;
+        if (!part_list)
+            sr_distances_part_free(it, false);
+
+        int failed = !py_part || PyList_Append(part_list, py_part) != 0;
+        /* the list holds its own reference */
+        Py_XDECREF(py_part);
+        if (failed)
         {
             /* Decrementing list refcount should free all its elements. */
             Py_XDECREF(part_list);
             /* This ought to free unprocessed elements. */
-            sr_distances_part_free(it, true);
+            sr_distances_part_free(next, true);
             return NULL;
         }
     }
@@ -588,18 +656,19 @@ sr_py_distances_part_compute(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &PyList_Type, &thread_list))
         return NULL;
 
-    int n = PyList_Size(thread_list);
-    struct sr_thread *threads[n];
-
-    if (!prepare_thread_array(thread_list, threads, n))
+    Py_ssize_t n = PyList_Size(thread_list);
+    struct sr_thread **threads = prepare_thread_array(thread_list, n);
+    if (!threads)
         return NULL;
 
     if (n != this->distances_part->n)
     {
+        free_thread_array(threads, n);
         PyErr_SetString(PyExc_ValueError, "Wrong number of threads provided");
         return NULL;
     }
 
     sr_distances_part_compute(this->distances_part, threads);
+    free_thread_array(threads, n);
     Py_RETURN_NONE;
 }
-- 
2.43.0


From fbb8bf3177257962907ee8b2352817de2a10b738 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:29 +0000
Subject: [PATCH 83/86] fix: check the merge level index of Python dendrograms
 and release the clusters

---
 python/py_cluster.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 30cdce1..bba5791 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -88,17 +88,17 @@ sr_py_dendrogram_new(PyTypeObject *object,
                      PyObject *args,
                      PyObject *kwds)
 {
+    struct sr_py_distances *distances;
+
+    if (!PyArg_ParseTuple(args, "O!", &sr_py_distances_type, &distances))
+        return NULL;
+
     struct sr_py_dendrogram *o = (struct sr_py_dendrogram*)
         PyObject_New(struct sr_py_dendrogram, &sr_py_dendrogram_type);
 
     if (!o)
         return PyErr_NoMemory();
 
-    struct sr_py_distances *distances;
-
-    if (!PyArg_ParseTuple(args, "O!", &sr_py_distances_type, &distances))
-        return NULL;
-
     o->dendrogram = sr_distances_cluster_objects(distances->distances);
 
     return (PyObject*)o;
@@ -159,7 +159,7 @@ sr_py_dendrogram_get_merge_level(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &i))
         return NULL;
 
-    if (i < 0 || i > this->dendrogram->size)
+    if (i < 0 || i >= this->dendrogram->size - 1)
     {
         PyErr_SetString(PyExc_ValueError, "Merge level position out of range");
         return NULL;
@@ -182,14 +182,28 @@ sr_py_dendrogram_cut(PyObject *self, PyObject *args)
     struct sr_cluster *cl, *cluster = sr_dendrogram_cut(this->dendrogram,
                                                           level, min_size);
 
-    PyObject *list = PyList_New(0), *listc;
+    PyObject *list = PyList_New(0);
 
     while (cluster)
     {
-        listc = PyList_New(0);
-        for (i = 0; i < cluster->size; i++)
-            PyList_Append(listc, PyInt_FromLong(cluster->objects[i]));
-        PyList_Append(list, listc);
+        PyObject *listc = list ? PyList_New(cluster->size) : NULL;
+        for (i = 0; listc && i < cluster->size; i++)
+        {
+            PyObject *item = PyInt_FromLong(cluster->objects[i]);
+            if (item)
+                PyList_SET_ITEM(listc, i, item);
+            else
+                Py_CLEAR(listc);
+        }
+
+        /* the list holds its own reference */
+        if (listc && PyList_Append(list, listc) < 0)
+            Py_CLEAR(listc);
+
+        if (listc)
+            Py_DECREF(listc);
+        else
+            Py_CLEAR(list);
 
         cl = cluster;
         cluster = cluster->next;
-- 
2.43.0


From 905a1a5f953aeb21d7a274ada9184ddd4da2e337 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:01:30 +0000
Subject: [PATCH 84/86] fix: serialize what the objects of a Python report
 contain, and keep JavaScript stack traces

---
 python/py_report.c | 211 +++++++++++++++++++++++++++++++++------------
 1 file changed, 154 insertions(+), 57 deletions(-)

diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..5d7a9ee 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -29,8 +29,10 @@
 #include "py_koops_stacktrace.h"
 #include "py_java_stacktrace.h"
 #include "py_ruby_stacktrace.h"
+#include "py_js_stacktrace.h"
 
 #include "report.h"
+#include "stacktrace.h"
 #include "operating_system.h"
 #include "rpm.h"
 #include <glib.h>
@@ -145,75 +147,93 @@ sr_py_report_type =
 static PyObject *
 rpms_to_python_list(struct sr_rpm_package *rpm)
 {
+    Py_ssize_t i;
     PyObject *result = PyList_New(0);
     if (!result)
-        return PyErr_NoMemory();
+        return NULL;
 
     struct sr_py_rpm_package *item;
     while (rpm)
     {
         item = PyObject_New(struct sr_py_rpm_package, &sr_py_rpm_package_type);
         if (!item)
-            return PyErr_NoMemory();
+            goto error;
 
         item->rpm_package = rpm;
         if (PyList_Append(result, (PyObject *)item) < 0)
-            return NULL;
+        {
+            item->rpm_package = NULL;
+            Py_DECREF(item);
+            goto error;
+        }
 
+        /* the list holds its own reference */
+        Py_DECREF(item);
         rpm = rpm->next;
     }
 
     return result;
+
+error:
+    /* the packages still belong to the caller */
+    for (i = 0; i < PyList_Size(result); ++i)
+        ((struct sr_py_rpm_package *)PyList_GetItem(result, i))->rpm_package = NULL;
+
+    Py_DECREF(result);
+    return NULL;
 }
 
 int
 rpms_prepare_linked_list(struct sr_py_report *report)
 {
-    if (!PyList_Check(report->packages))
-    {
-        PyErr_SetString(PyExc_TypeError, "Attribute 'packages' is not a list.");
-        return -1;
-    }
+    Py_ssize_t i, count;
+    struct sr_rpm_package *it, *current;
 
-    int i;
-    PyObject *item;
-    struct sr_py_rpm_package *current = NULL, *prev = NULL;
+    if (sr_py_check_list(report->packages, "packages") < 0)
+        return -1;
 
-    for (i = 0; i < PyList_Size(report->packages); ++i)
+    count = PyList_Size(report->packages);
+    for (i = 0; i < count; ++i)
     {
-        item = PyList_GetItem(report->packages, i);
-        if (!item)
-            return -1;
-
-        Py_INCREF(item);
-
-        if (!PyObject_TypeCheck(item, &sr_py_rpm_package_type))
+        if (!PyObject_TypeCheck(PyList_GetItem(report->packages, i), &sr_py_rpm_package_type))
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
             PyErr_SetString(PyExc_TypeError, "packages must be a list of RpmPackage objects");
             return -1;
         }
-
-        current = (struct sr_py_rpm_package*)item;
-        if (i == 0)
-            report->report->rpm_packages = current->rpm_package;
-        else
-            prev->rpm_package->next = current->rpm_package;
-
-        Py_XDECREF(prev);
-        prev = current;
     }
 
-    if (current)
+    report->report->rpm_packages = NULL;
+    for (i = count - 1; i >= 0; --i)
     {
-        current->rpm_package->next = NULL;
-        Py_DECREF(current);
+        current = ((struct sr_py_rpm_package*)PyList_GetItem(report->packages, i))->rpm_package;
+
+        /* An object cannot be in the linked list twice. */
+        for (it = report->report->rpm_packages; it != NULL; it = it->next)
+        {
+            if (it != current)
+                continue;
+
+            report->report->rpm_packages = NULL;
+            PyErr_SetString(PyExc_ValueError, "The same package is used more than once.");
+            return -1;
+        }
+
+        current->next = report->report->rpm_packages;
+        report->report->rpm_packages = current;
     }
 
     return 0;
 }
 
+/* The C structures of the subobjects belong to their Python objects. */
+static void
+report_release_subobjects(struct sr_py_report *report)
+{
+    report->report->rpm_packages = NULL;
+    report->report->operating_system = NULL;
+    report->report->stacktrace = NULL;
+}
+
 static int
 stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_thread)
 {
@@ -225,11 +245,17 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 
     if (multi_thread)
     {
+        if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             ((struct sr_py_multi_stacktrace *)report->stacktrace)->stacktrace;
     }
     else
     {
+        if (frames_prepare_linked_list((struct sr_py_base_thread *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             (struct sr_stacktrace *)((struct sr_py_base_thread *)report->stacktrace)->thread;
     }
@@ -240,6 +266,18 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 static int
 report_prepare_subobjects(struct sr_py_report *report)
 {
+    if (!report->report->reporter_name || !report->report->reporter_version)
+    {
+        PyErr_SetString(PyExc_ValueError, "reporter_name and reporter_version must be set");
+        return -1;
+    }
+
+    if (!report->operating_system || !report->stacktrace)
+    {
+        PyErr_SetString(PyExc_TypeError, "operating_system and stacktrace must not be deleted");
+        return -1;
+    }
+
     /* packages */
     if (rpms_prepare_linked_list(report) < 0)
         return -1;
@@ -290,6 +328,10 @@ report_prepare_subobjects(struct sr_py_report *report)
             if (stacktrace_prepare(report, &sr_py_ruby_stacktrace_type, false) < 0)
                 return -1;
             break;
+        case SR_REPORT_JAVASCRIPT:
+            if (stacktrace_prepare(report, &sr_py_js_stacktrace_type, false) < 0)
+                return -1;
+            break;
         default:
             report->report->stacktrace = NULL;
             break;
@@ -299,15 +341,45 @@ report_prepare_subobjects(struct sr_py_report *report)
     return 0;
 }
 
+/* sr_report_init() uses string literals, the setters need to free the strings. */
+static void
+report_own_reporter(struct sr_report *report)
+{
+    struct sr_report defaults;
+    sr_report_init(&defaults);
+
+    if (report->reporter_name == defaults.reporter_name)
+        report->reporter_name = g_strdup(defaults.reporter_name);
+
+    if (report->reporter_version == defaults.reporter_version)
+        report->reporter_version = g_strdup(defaults.reporter_version);
+}
+
+static void
+report_free(struct sr_report *report)
+{
+    g_free(report->reporter_name);
+    g_free(report->reporter_version);
+    sr_report_free(report);
+}
+
+/* Always takes over the ownership of the report. */
 PyObject *
 report_to_python_obj(struct sr_report *report)
 {
     struct sr_py_report *ro =
         PyObject_New(struct sr_py_report, &sr_py_report_type);
+    report_own_reporter(report);
     if (!ro)
-        return PyErr_NoMemory();
+    {
+        report_free(report);
+        return NULL;
+    }
 
     ro->report = report;
+    ro->operating_system = NULL;
+    ro->packages = NULL;
+    ro->stacktrace = NULL;
 
     /* wrap operating system in a python object */
     if (report->operating_system)
@@ -315,9 +387,10 @@ report_to_python_obj(struct sr_report *report)
         struct sr_py_operating_system *os =
             PyObject_New(struct sr_py_operating_system, &sr_py_operating_system_type);
         if (!os)
-            return NULL;
+            goto error;
 
         os->operating_system = report->operating_system;
+        report->operating_system = NULL;
         ro->operating_system = (PyObject *)os;
     }
     else
@@ -329,42 +402,54 @@ report_to_python_obj(struct sr_report *report)
     /* packages */
     ro->packages = rpms_to_python_list(report->rpm_packages);
     if (ro->packages == NULL)
-        return NULL;
+        goto error;
+
+    report->rpm_packages = NULL;
 
     /* stacktrace */
     /* XXX: this could be rewritten in a generic way */
     if (report->stacktrace != NULL)
     {
+        /* the new object takes over the ownership of the stacktrace, even when
+         * it cannot be created */
+        struct sr_stacktrace *stacktrace = report->stacktrace;
+        report->stacktrace = NULL;
+
         switch (report->report_type)
         {
         case SR_REPORT_CORE:
             ro->stacktrace = core_stacktrace_to_python_obj(
-                    (struct sr_core_stacktrace *)report->stacktrace);
+                    (struct sr_core_stacktrace *)stacktrace);
             break;
         case SR_REPORT_JAVA:
             ro->stacktrace = java_stacktrace_to_python_obj(
-                    (struct sr_java_stacktrace *)report->stacktrace);
+                    (struct sr_java_stacktrace *)stacktrace);
             break;
         case SR_REPORT_PYTHON:
             ro->stacktrace = python_stacktrace_to_python_obj(
-                    (struct sr_python_stacktrace *)report->stacktrace);
+                    (struct sr_python_stacktrace *)stacktrace);
             break;
         case SR_REPORT_KERNELOOPS:
             ro->stacktrace = koops_stacktrace_to_python_obj(
-                    (struct sr_koops_stacktrace *)report->stacktrace);
+                    (struct sr_koops_stacktrace *)stacktrace);
             break;
         case SR_REPORT_RUBY:
             ro->stacktrace = ruby_stacktrace_to_python_obj(
-                    (struct sr_ruby_stacktrace *)report->stacktrace);
+                    (struct sr_ruby_stacktrace *)stacktrace);
+            break;
+        case SR_REPORT_JAVASCRIPT:
+            ro->stacktrace = js_stacktrace_to_python_obj(
+                    (struct sr_js_stacktrace *)stacktrace);
             break;
         default:
+            sr_stacktrace_free(stacktrace);
             Py_INCREF(Py_None);
             ro->stacktrace = Py_None;
             break;
         }
 
         if (ro->stacktrace == NULL)
-            return NULL;
+            goto error;
     }
     else
     {
@@ -373,6 +458,10 @@ report_to_python_obj(struct sr_report *report)
     }
 
     return (PyObject *)ro;
+
+error:
+    Py_DECREF(ro);
+    return NULL;
 }
 
 /* constructor */
@@ -387,11 +476,11 @@ sr_py_report_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     if (report_json)
     {
-        char *error_msg;
+        char *error_msg = NULL;
         report = sr_report_from_json_text(report_json, &error_msg);
         if (!report)
         {
-            PyErr_SetString(PyExc_ValueError, error_msg);
+            PyErr_SetString(PyExc_ValueError, error_msg ? error_msg : "Invalid report");
             g_free(error_msg);
             return NULL;
         }
@@ -414,16 +503,11 @@ sr_py_report_free(PyObject *object)
     /* python will free the subordinate objects once their refcount reaches zero */
     /* XXX: is this correct wrt the warning on
      * http://docs.python.org/2.7/c-api/refcounting.html?highlight=py_decref#Py_DECREF ? */
-    Py_DECREF(this->packages);
-    Py_DECREF(this->operating_system);
-    Py_DECREF(this->stacktrace);
-
-    /* if there was no other reference, these structs are free'd by now */
-    this->report->rpm_packages = NULL;
-    this->report->operating_system = NULL;
-    this->report->stacktrace = NULL;
+    Py_XDECREF(this->packages);
+    Py_XDECREF(this->operating_system);
+    Py_XDECREF(this->stacktrace);
 
-    sr_report_free(this->report);
+    report_free(this->report);
     PyObject_Del(object);
 }
 
@@ -495,11 +579,18 @@ sr_py_report_to_json(PyObject *self, PyObject *args)
 {
     struct sr_py_report *this = (struct sr_py_report *)self;
     if (report_prepare_subobjects(this) < 0)
+    {
+        report_release_subobjects(this);
         return NULL;
+    }
 
     char *json = sr_report_to_json(this->report);
+    report_release_subobjects(this);
     if (!json)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "cannot serialize the report");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(json);
     g_free(json);
@@ -513,14 +604,20 @@ sr_py_report_get_auth(PyObject *self, void *data)
     struct sr_report_custom_entry *ae;
 
     PyObject *auth = PyDict_New();
+    if (!auth)
+        return NULL;
+
     for (ae = report->auth_entries; ae; ae = ae->next)
     {
         PyObject *val = PyString_FromString(ae->value);
-        if (!val)
-            return NULL;
-
-        if (PyDict_SetItemString(auth, ae->key, val) == -1)
+        int failed = !val || PyDict_SetItemString(auth, ae->key, val) == -1;
+        /* the dictionary holds its own reference */
+        Py_XDECREF(val);
+        if (failed)
+        {
+            Py_DECREF(auth);
             return NULL;
+        }
     }
 
     return auth;
-- 
2.43.0


From e21d604d6d2a5930b096f05fc34578dd902bb632 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:02:14 +0000
Subject: [PATCH 85/86] fix: refuse Python distance matrices whose positions do
 not fit an int

---
 python/py_metrics.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 503c7f3..94f57ce 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -172,12 +172,29 @@ sr_py_distances_part_type =
     NULL,                       /* tp_weaklist */
 };
 
+/* Element positions are computed in ints. */
+#define MAX_MATRIX_COLUMNS 46340
+
 static bool
-validate_distance_params(int m, int n, int dist_type)
+validate_distance_size(int m, int n)
 {
     if (m < 1 || n < 2)
         PyErr_SetString(PyExc_ValueError, "Distance matrix must have at least 1 row and 2 columns");
-    else if (dist_type < 0 || dist_type >= SR_DISTANCE_NUM)
+    else if (n > MAX_MATRIX_COLUMNS)
+        PyErr_SetString(PyExc_ValueError, "Distance matrix is too large");
+    else
+        return true;
+
+    return false;
+}
+
+static bool
+validate_distance_params(int m, int n, int dist_type)
+{
+    if (!validate_distance_size(m, n))
+        return false;
+
+    if (dist_type < 0 || dist_type >= SR_DISTANCE_NUM)
         PyErr_SetString(PyExc_ValueError, "Invalid distance type");
     else if (dist_type == SR_DISTANCE_JARO_WINKLER)
         PyErr_SetString(PyExc_ValueError, "Cannot use DISTANCE_JARO_WINKLER as it is not a metric");
@@ -297,11 +314,8 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!PyArg_ParseTuple(args, "ii", &m, &n))
             return NULL;
 
-        if (m < 1 || n < 2)
-        {
-            PyErr_SetString(PyExc_ValueError, "Distance matrix must have at least 1 row and 2 columns");
+        if (!validate_distance_size(m, n))
             return NULL;
-        }
 
         distances = sr_distances_new(m, n);
     }
-- 
2.43.0


From 0001f665affc6a2d43741acbbe869bafaaaa2104 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:05:23 +0000
Subject: [PATCH 86/86] fix: compare 64-bit offsets and addresses of core and
 kernel oops frames in full

---
 lib/core_frame.c  |  8 ++++----
 lib/koops_frame.c | 30 ++++++++++++------------------
 2 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..395ebe4 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,9 +166,8 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
-    if (build_id_offset != 0)
-        return build_id_offset;
+    if (frame1->build_id_offset != frame2->build_id_offset)
+        return frame1->build_id_offset < frame2->build_id_offset ? -1 : 1;
 
     /* Function name. */
     int function_name = g_strcmp0(frame1->function_name,
@@ -203,7 +202,8 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = (frame1->build_id_offset > frame2->build_id_offset) -
+                          (frame1->build_id_offset < frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..f98e294 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,9 +127,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
-    if (address != 0)
-        return address;
+    if (frame1->address != frame2->address)
+        return frame1->address < frame2->address ? 1 : -1;
 
     /* Reliable. */
     int reliable = (int)frame2->reliable - (int)frame1->reliable;
@@ -144,14 +143,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
-    if (function_offset != 0)
-        return function_offset;
+    if (frame1->function_offset != frame2->function_offset)
+        return frame1->function_offset < frame2->function_offset ? 1 : -1;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
-    if (function_length != 0)
-        return function_length;
+    if (frame1->function_length != frame2->function_length)
+        return frame1->function_length < frame2->function_length ? 1 : -1;
 
     /* Module name. */
     int module_name = g_strcmp0(frame1->module_name,
@@ -161,9 +158,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
-    if (from_address != 0)
-        return from_address;
+    if (frame1->from_address != frame2->from_address)
+        return frame1->from_address < frame2->from_address ? 1 : -1;
 
     /* From function name. */
     int from_function_name = g_strcmp0(frame1->from_function_name,
@@ -173,14 +169,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
-    if (from_function_offset != 0)
-        return from_function_offset;
+    if (frame1->from_function_offset != frame2->from_function_offset)
+        return frame1->from_function_offset < frame2->from_function_offset ? 1 : -1;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
-    if (from_function_length != 0)
-        return from_function_length;
+    if (frame1->from_function_length != frame2->from_function_length)
+        return frame1->from_function_length < frame2->from_function_length ? 1 : -1;
 
     /* From module name. */
     int from_module_name = g_strcmp0(frame1->from_module_name,
-- 
2.43.0

