From 798aae56d34885fa4617e4a5c232d05e21dd602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:30 +0000
Subject: [PATCH 01/33] fix: reject definitions whose right-hand side cannot be
 evaluated

The result of arith_simplify was not checked (left_tree was tested instead),
so a definition like a=1/0 dereferenced a null tree.
---
 src/client/commands/cmd_definition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -145,7 +145,7 @@ static bool add_function(char *name, char *left, char *right, bool is_constant)
 
     // Since right expression was parsed raw to detect recursive definitions, do post processing
     right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
+    if (right_tree == NULL)
     {
         goto error;
     }
-- 
2.43.0


From 16949cd8ce83fec1ec406731749eed52e0d0165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:30 +0000
Subject: [PATCH 02/33] fix: report a delimiter inside nested parentheses
 instead of crashing

The entry below the innermost opening parenthesis may itself be an opening
parenthesis (null operator), e.g. in ((1,2)).
---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 81c4ef27a86220c377adbed66fee30f8ce72465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:50 +0000
Subject: [PATCH 03/33] fix: never hand out an operator id twice

The id was the current operator count, so defining a function after another
one had been cleared could duplicate the id of a function still in use;
expressions were then evaluated with the wrong definition.
---
 src/engine/parsing/context.c | 5 +++--
 src/engine/parsing/context.h | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..4a5bb6e 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -13,7 +13,8 @@ ParsingContext ctx_create()
     ParsingContext res = {
         .op_list       = list_create(sizeof(Operator)),
         .keywords_trie = trie_create(0),
-        .glue_op       = NULL
+        .glue_op       = NULL,
+        .next_id       = 0
     };
 
     for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
@@ -94,7 +95,7 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    op.id = ctx->next_id++;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
diff --git a/src/engine/parsing/context.h b/src/engine/parsing/context.h
index 372fb4b..a7e9394 100644
--- a/src/engine/parsing/context.h
+++ b/src/engine/parsing/context.h
@@ -10,6 +10,7 @@ typedef struct
     LinkedList op_list;               // List of operators (payload: Operator)
     Trie op_tries[OP_NUM_PLACEMENTS]; // Tries for fast operator lookup (payload: *ListNode)
     Trie keywords_trie;               // Contains all names for keyword lookup in tokenizer (no payload)
+    size_t next_id;                   // ID of next operator to be added (never reused after deletion)
 } ParsingContext;
 
 ParsingContext ctx_create();
-- 
2.43.0


From 9a42f6de3ccce7d13bb5e1c7194e7379ddca7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:50 +0000
Subject: [PATCH 04/33] fix: keep keyword of operators that share the name of a
 removed function

Clearing a user-defined function named like a built-in infix operator (e.g. C)
removed the name from the tokenizer's keywords, so 5C3 was no longer recognized.
---
 src/engine/parsing/context.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 4a5bb6e..70db16a 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -112,8 +112,14 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
         list_delete_node(&ctx->op_list, *node);
-        trie_remove_str(&ctx->keywords_trie, name);
         trie_remove_str(&ctx->op_tries[placement], name);
+
+        // Keep keyword when there is still an operator of same name with different placement
+        for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
+        {
+            if (ctx_lookup_op(ctx, name, i) != NULL) return true;
+        }
+        trie_remove_str(&ctx->keywords_trie, name);
         return true;
     }
     else
-- 
2.43.0


From e1a044b887b882a72cd47527b312c16fecaedaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:04 +0000
Subject: [PATCH 05/33] fix: keep last character of input that does not end
 with a newline

ask_input_getline unconditionally removed the last character of a line, so
the final line of a file or pipe without trailing newline was truncated
(1+23 was read as 1+2) and a line starting with NUL was written out of bounds.
---
 src/util/console_util.c | 408 ++++++++++++++++++++--------------------
 1 file changed, 204 insertions(+), 204 deletions(-)

diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..6eb03f5 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,204 +1,204 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (last line of file does not need to have one)
+    (*out_input)[strcspn(*out_input, "\n")] = '\0';
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From dd5ef324089cdfc18b7e2035a9e3d72291138974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:28 +0000
Subject: [PATCH 06/33] fix: keep ruleset parser within its buffers

* Two further RULESET lines after the last expected one wrote past the
  array of rulesets
* A malformed rule left an uninitialized rule behind in its ruleset
* The last character of a file without trailing newline was cut off
---
 src/engine/transformation/rule_parsing.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..d6a9b8d 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,28 +197,28 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        line[strcspn(line, "\n")] = '\0'; // Overwrite newline char (missing when file does not end with one)
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
         {
-            if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
+            RewriteRule rule;
+            if (parse_rule(line, ctx, &rule))
+            {
+                add_to_ruleset(&out_rulesets[curr_ruleset], rule);
+            }
+            else
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
                 goto error;
-- 
2.43.0


From bfd2096a13bbacb67086b5be4655d953954f2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:28 +0000
Subject: [PATCH 07/33] fix: reject rules with too many constraints

Constraints beyond MATCHING_MAX_CONSTRAINTS were silently dropped, so such a
rule was applied where its author excluded it.
---
 src/engine/transformation/rule_parsing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index d6a9b8d..d1aca49 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -60,14 +60,17 @@ bool parse_constraints(const char *string,
             next_and += strlen(AND);
         }
 
+        if (*num_constraints == buffer_size)
+        {
+            report_pattern_errcode(MATCHING_MAX_CONSTRAINTS_EXCEEDED);
+            goto error;
+        }
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
         str = next_and;
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From 45d268df897b81de68a0e4eabf7ae453a383d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:29 +0000
Subject: [PATCH 08/33] fix: free trees of a pattern that could not be parsed

---
 src/engine/transformation/rule_parsing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index d1aca49..453753d 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -86,6 +86,7 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
     strcpy(str_cpy, string);
 
     char *where_pos = strstr(str, WHERE); // Optional
+    Node *pattern = NULL;
     size_t num_constrs = MATCHING_MAX_CONSTRAINTS;
     Node *constrs[MATCHING_MAX_CONSTRAINTS];
     if (where_pos != NULL)
@@ -98,7 +99,7 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
         goto error;
     }
 
-    Node *pattern = parse_easy(ctx, str); // Gives error message
+    pattern = parse_easy(ctx, str); // Gives error message
     if (pattern == NULL)
     {
         goto error;
@@ -115,6 +116,8 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
 
     error:
     free(str_cpy);
+    free_tree(pattern);
+    for (size_t i = 0; i < num_constrs; i++) free_tree(constrs[i]);
     return false;
 }
 
-- 
2.43.0


From a25bdc3e54f7ede3a17b175e6690a5c7ba682d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:48 +0000
Subject: [PATCH 09/33] fix: release file and rulesets when a ruleset file is
 malformed

---
 src/client/simplification/simplification.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..133249d 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -82,16 +82,19 @@ ssize_t init_simplification(const char *ruleset_path)
         rulesets[i] = get_empty_ruleset();
     }
     ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
-    {
-        return -2;
-    }
+    fclose(ruleset_file);
     if (num_rulesets != NUM_RULESETS)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        if (num_rulesets != -1)
+        {
+            report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        }
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&rulesets[i]);
+        }
         return -2;
     }
-    fclose(ruleset_file);
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
-- 
2.43.0


From 0f66f79f7dafe8d5d857b78f282c8a1ab66a586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:49 +0000
Subject: [PATCH 10/33] fix: let load command fail when the loaded content does

A malformed ruleset was announced as 'Successfully loaded simplification
(-2 rules)' and errors in loaded files did not affect the exit status.
---
 src/client/commands/cmd_load.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..49d1822 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -32,6 +32,11 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            // Error message has already been given while parsing the file
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
@@ -51,9 +56,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool res = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return res;
     }
 }
-- 
2.43.0


From 7a31beb166e67266463113ee6a5b681bab1e8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:06 +0000
Subject: [PATCH 11/33] fix: add negative results to history when
 simplification is loaded

Simplification turns a negative constant into a negation node, which was not
recognized as a constant result, so ans kept its previous value.
---
 src/client/commands/cmd_evaluation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..c3f71fa 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,11 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Simplification represents negative constants as negated positive ones, hence it's not enough to check for NTYPE_CONSTANT
+    double result;
+    if (tree_reduce(node, arith_op_evaluate, &result, NULL) == LISTENERERR_SUCCESS)
     {
-        history_add(get_const_value(node));
+        history_add(result);
     }
     free_tree(node);
     return true;
-- 
2.43.0


From a515692aae04e689ef658bfc7ef8016e22bfaa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:07 +0000
Subject: [PATCH 12/33] fix: only reject powers of negative bases with
 non-integer exponents

(-2)^(-1) was rejected as complex although it is -0.5, and (-8)^1.5 was
printed as nan although it is complex.
---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..0e2dc0a 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -154,7 +154,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && trunc(args[1]) != args[1]) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From d53987e9164fdd792fdfb86bf329072db32b82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:08 +0000
Subject: [PATCH 13/33] fix: let binomial coefficient be 0 when k exceeds n

---
 src/client/core/arith_evaluation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 0e2dc0a..41b1e23 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -59,6 +59,7 @@ static double binomial(double n, double k)
     n = fabs(trunc(n));
     k = fabs(trunc(k));
 
+    if (k > n) return 0;
     if (k == 0) return 1;
     if ((2 * k) > n) k = n - k;
     
-- 
2.43.0


From 866b16f8cf74ca142acdde2c0c3a4af50306f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:38 +0000
Subject: [PATCH 14/33] fix: do not match bound list variables beyond the end
 of a parameter list

A list variable bound earlier could be placed where fewer children remained
than the list has elements; the number of remaining children then wrapped
around and the tree was read out of bounds.
---
 src/engine/transformation/matching.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..43d4f48 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -128,17 +128,20 @@ static void match_parameter_lists(
             {
                 // Current pattern-child is list-variable
                 NodeList *list = &matching.mapped_nodes[get_id(pattern_children[curr.distance])];
-                if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
+                if (list->nodes != NULL)
                 {
                     // List is already bound, thus also its length is bound
-                    VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
-                        .first_match_index = SIZE_MAX,
-                        .num_matchings     = 0,
-                        .label             = list->size,
-                        .sum               = new_sum,
-                        .distance          = curr.distance + 1,
-                        .parent_index      = curr_index
-                    }));
+                    if (new_sum + list->size <= num_tree_children)
+                    {
+                        VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
+                            .first_match_index = SIZE_MAX,
+                            .num_matchings     = 0,
+                            .label             = list->size,
+                            .sum               = new_sum,
+                            .distance          = curr.distance + 1,
+                            .parent_index      = curr_index
+                        }));
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 1c780db3e71b9d1143c93f7e4441138799f649ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:28 +0000
Subject: [PATCH 15/33] fix: keep string helpers within their strings

---
 src/util/string_util.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..4160e0c 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -94,31 +94,20 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     }
 
     // Search for start of line
-    if (line_index > 0)
+    while (line_index > 0 && *string != '\0')
     {
-        while (*string != '\0')
-        {
-            string++;
-            if (*string == '\n')
-            {
-                line_index--;
-                if (line_index == 0)
-                {
-                    string++;
-                    break;
-                }
-            }
-        }
+        if (*string == '\n') line_index--;
+        string++;
     }
 
+    *out_start = (char*)string;
+
     // String does not have that much lines
     if (line_index != 0)
     {
         return 0;
     }
 
-    *out_start = (char*)string;
-
     // Count length of line
     size_t count = 0;
     while (string[count] != '\0' && string[count] != '\n')
@@ -132,11 +121,11 @@ char *skip_ansi(const char *str)
 {
     if (*str == ESC_START)
     {
-        while (*str != ESC_END)
+        while (*str != '\0' && *str != ESC_END)
         {
             str++;
         }
-        str++;
+        if (*str != '\0') str++;
     }
     return (char*)str;
 }
@@ -149,7 +138,7 @@ char *strip(char *str)
     char *res = str;
     while (*res == ' ') res++;
     str = &str[len - 1];
-    while (*str == ' ')
+    while (str >= res && *str == ' ')
     {
         *str = '\0';
         str--;
-- 
2.43.0


From a1463382f8bfd4b140ae2a07ed9252ba843c3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:38 +0000
Subject: [PATCH 16/33] fix: do not print missing rows in list of commands

---
 src/client/commands/cmd_help.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_help.c b/src/client/commands/cmd_help.c
index 30a26c9..e772c3e 100644
--- a/src/client/commands/cmd_help.c
+++ b/src/client/commands/cmd_help.c
@@ -37,7 +37,7 @@ static const char *LICENSE =
     "You should have received a copy of the GNU General Public License\n"
     "along with this program.  If not, see <https://www.gnu.org/licenses/>.\n";
 
-#define NUM_COMMANDS 9
+#define NUM_COMMANDS 7
 static const char *COMMAND_TABLE[NUM_COMMANDS][2] = {
     { "<func|const> = <after>",                  "Adds function or constant" },
     { "table <expr> ; <from> ; <to> ; <step>  \n"
-- 
2.43.0


From 914f7758566064845cb1a47d0443793e96970227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:44 +0000
Subject: [PATCH 17/33] fix: pass operator name as data and match format to
 argument type

---
 src/client/commands/cmd_definition.c | 2 +-
 src/engine/tree/tree_to_string.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index f78014e..2a6f098 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -53,7 +53,7 @@ static bool do_left_checks(Node *left_n, int strlen)
         size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
         if (!sufficient_buff)
         {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %d.", MAX_MAPPED_VARS);
             return false;
         }
         if (num_vars != num_children)
diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 1284fc6..80b61d8 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, get_op(node)->name);
+    strbuilder_append(builder, "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
-- 
2.43.0


From 015ecaf98b62561c1119cefdf2a0f4c47132d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 18/33] fix: report failing constant subexpressions before
 rewrite rules can drop them

---
 src/client/simplification/simplification.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 133249d..41aef9c 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -207,6 +207,9 @@ ListenerError simplify(Node **tree, const Node **errnode)
     // It's okay if simplification module is not initialized, just return without doing much
     if (!initialized) return res;
 
+    // Don't let rules eliminate a subtree whose evaluation failed (derivatives can't be evaluated yet)
+    if (res != LISTENERERR_SUCCESS && res != LISTENERERR_IMPOSSIBLE_DERIV) return res;
+
     // Apply elimination rules
     simplify_without_derivative(tree);
     res = apply_derivatives(tree, errnode);
-- 
2.43.0


From 27568ce608c2b070071e0ff14a5317d5e5258eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:07 +0000
Subject: [PATCH 19/33] fix: reject parameter lists that end with an operator

---
 src/engine/parsing/parser.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 16b416b..08a081d 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -209,14 +209,16 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // An operator still awaits its operand, e.g. '(2+)'
+            if (!await_infix && op_peek(&state) != NULL && op_peek(&state)->op != NULL)
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-                if (!op_pop_and_insert(&state))
-                {
-                    state.curr_tok = i;
-                    ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
-                }
+                if (!op_pop_and_insert(&state)) goto exit;
             }
             
             if (op_peek(&state) != NULL)
-- 
2.43.0


From 35de6213c4c1114f797c1fc9d3205b1e0316f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:57 +0000
Subject: [PATCH 20/33] fix: print parentheses around a postfix operator of
 same precedence

---
 src/engine/tree/tree_to_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 80b61d8..28c2859 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -109,10 +109,12 @@ static void infix_to_str(StringBuilder *builder, bool color, const Node *node, b
     strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s " : "%s", get_op(node)->name);
     
     // Checks if right operand of infix operator needs to be wrapped in parentheses (see analog case for left operand)
+    // A postfix operator of same precedence always needs to be wrapped, it would be applied to the whole expression otherwise
     if (get_type(childR) == NTYPE_OPERATOR
         && (get_op(childR)->precedence < get_op(node)->precedence
             || (get_op(childR)->precedence == get_op(node)->precedence
-                && get_op(node)->assoc == OP_ASSOC_LEFT)))
+                && (get_op(node)->assoc == OP_ASSOC_LEFT
+                    || get_op(childR)->placement == OP_PLACE_POSTFIX))))
     {
         p_open(builder);
         to_str(builder, color, childR, false, false);
-- 
2.43.0


From 09b9182925a36eeff01b6567bb540e85f7495c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:21 +0000
Subject: [PATCH 21/33] fix: evaluate count in rule conditions instead of
 terminating

---
 src/client/simplification/propositional_evaluation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/propositional_evaluation.c b/src/client/simplification/propositional_evaluation.c
index 3a69afb..8ff08a0 100644
--- a/src/client/simplification/propositional_evaluation.c
+++ b/src/client/simplification/propositional_evaluation.c
@@ -58,6 +58,9 @@ ListenerError prop_op_evaluate(const Operator *op, size_t num_args, const double
         case NUM_ARITH_OPS + 14: // !
             *out = (args[0] != EVAL_FALSE) ? EVAL_FALSE : EVAL_TRUE;
             return LISTENERERR_SUCCESS;
+        case NUM_ARITH_OPS + 15: // count
+            *out = num_args;
+            return LISTENERERR_SUCCESS;
     }
 
     software_defect("[Prop] No reduction possible for operator %s.\n", op->name);
-- 
2.43.0


From e16ce242419cb09362a023c07f8409fae63082a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:26 +0000
Subject: [PATCH 22/33] fix: reject table commands whose step vanishes in
 rounding instead of looping forever

---
 src/client/commands/cmd_table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..bae3993 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -112,6 +112,13 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         goto exit;
     }
 
+    // If step vanishes in rounding, the end would never be reached
+    if (start_val + step_val == start_val || end_val + step_val == end_val)
+    {
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' is too small\n");
+        goto exit;
+    }
+
     // Optionally: Parse part of command after "fold"
     double fold_val = 0;
     if (num_args == 6)
-- 
2.43.0


From 0f3cc4d26b7474c73016dc81d153143c1d4ddf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:46:26 +0000
Subject: [PATCH 23/33] fix: report a fold expression that fails instead of
 continuing with 0

---
 src/client/commands/cmd_table.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index bae3993..b2e50ed 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -121,6 +121,7 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
 
     // Optionally: Parse part of command after "fold"
     double fold_val = 0;
+    ListenerError fold_err = LISTENERERR_SUCCESS;
     if (num_args == 6)
     {
         // Parse initial fold-value
@@ -188,14 +189,14 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         {
             add_cell_fmt(table, " " DOUBLE_FMT " ", result);
 
-            if (num_args == 6)
+            if (num_args == 6 && fold_err == LISTENERERR_SUCCESS)
             {
                 Node *current_fold = tree_copy(fold_expr);
                 Node *current_fold_x = malloc_constant_node(fold_val, 0);
                 Node *current_fold_y = malloc_constant_node(result, 0);
                 replace_variable_nodes(&current_fold, current_fold_x, FOLD_VAR_1);
                 replace_variable_nodes(&current_fold, current_fold_y, FOLD_VAR_2);
-                fold_val = arith_evaluate(current_fold);
+                fold_err = tree_reduce(current_fold, arith_op_evaluate, &fold_val, NULL);
                 free_tree(current_fold);
                 free_tree(current_fold_x);
                 free_tree(current_fold_y);
@@ -216,6 +217,12 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
     print_table(table);
     free_table(table);
 
+    if (fold_err != LISTENERERR_SUCCESS)
+    {
+        report_error("Error: Fold expression could not be evaluated\n");
+        goto exit;
+    }
+
     if (num_args == 6) // Contains fold expression
     {
         printf("Fold result: " CONSTANT_TYPE_FMT "\n", fold_val);
-- 
2.43.0


From 2fc90ad24abe514a13163c113f4c23e844182471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:42 +0000
Subject: [PATCH 24/33] fix: end the argument list in str_split

---
 src/util/string_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 4160e0c..3616d89 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -80,6 +80,7 @@ size_t str_split(char *str, char **out_strs, size_t num_delimiters, ...)
         }
     }
 
+    va_end(args);
     out_strs[res - 1] = str;
     return res;
 }
-- 
2.43.0


From b64886fc8cd129dbc96ff8daacbe8cdf28b9f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:45:33 +0000
Subject: [PATCH 25/33] fix: keep the remaining factors when a sum is
 multiplied out with a power

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index e2732be..babc076 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -130,7 +130,7 @@ RULESET
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
-    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), x^sum(y,z))
+    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), prod([xs], [ys], x^sum(y,z), [zs]))
 
     # Trigonometrics
     sum([xs], cos(x)^2, [ys], sin(x)^2, [zs])   -> sum(1, [xs], [ys], [zs])
-- 
2.43.0


From 09d5cbba8aaddb51f2d6ceda149705a92ed66367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:45:47 +0000
Subject: [PATCH 26/33] fix: keep the sign of the first summand of a negated
 sum

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index babc076..2bcd924 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -176,7 +176,7 @@ RULESET
     x^(-y)        -> 1/(x^y)
     x^0.5         -> sqrt(x)
     x^1           -> x
-    -(x+y)        -> x-y
+    -(x+y)        -> -x-y
     (-1)*x        -> -x
 
     x*(y/z)       -> (y*x)/z       WHERE type(y) == CONST
-- 
2.43.0


From 75cc2a88aaf6e34c5ca1a5f009753004228a0f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:45:59 +0000
Subject: [PATCH 27/33] fix: multiply nested exponents only where the base
 keeps its sign

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index 2bcd924..f8ebd2a 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -120,7 +120,7 @@ RULESET
     # Powers
     x^0                              -> 1
     x^1                              -> x
-    (x^y)^z                          -> x^prod(y, z)
+    (x^y)^z                          -> x^prod(y, z) WHERE (y mod 2) != 0 || (z mod 1) == 0
 
     prod([xs], x^cy, [ys], x^cz, [zs]) -> prod([xs], x^sum(cy,cz), [ys], [zs]) WHERE type(cy)==CONST ; type(cz)==CONST
     prod([xs], cy^x, [ys], cz^x, [zs]) -> prod([xs], (cy*cz)^x, [ys], [zs]) WHERE type(cy)==CONST ; type(cz)==CONST
-- 
2.43.0


From 574dbe294ecf9fdf3decaabcea33c800c74fa8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 28/33] fix: width of a spanning table cell counted the lines
 of the wrong columns

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From 7f99f5ec3bcaaaead34fd39322f28e2d1c9374b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 29/33] fix: a spanning table cell meeting set cells was drawn
 wrong or endlessly

---
 src/table/table.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..b4ad84a 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -950,6 +950,20 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     assert(cell->span_x == 1);
     assert(cell->span_y == 1);
 
+    // Truncate span when it clashes with already set cells, first its columns, then its rows
+    size_t free_x = 1;
+    while (free_x < span_x && !table->curr_row->cells[cell->x + free_x].is_set) free_x++;
+    span_x = free_x;
+
+    size_t free_y = 1;
+    for (struct Row *row = table->curr_row->next_row; row != NULL && free_y < span_y; row = row->next_row)
+    {
+        size_t i = 0;
+        while (i < span_x && !row->cells[cell->x + i].is_set) i++;
+        if (i < span_x) span_y = free_y;
+        else free_y++;
+    }
+
     cell->span_x = span_x;
     cell->span_y = span_y;
     table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
@@ -962,29 +976,18 @@ void set_span(Table *table, size_t span_x, size_t span_y)
         {
             if (i == 0 && j == 0) continue;
             struct Cell *child = &row->cells[cell->x + j];
+            child->is_set = true;
+            child->parent = cell;
 
-            if (!child->is_set)
+            if (j != 0)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
-                {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
-                }
-                if (i != 0)
-                {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
-                }
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
             }
-            else
+            if (i != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
-- 
2.43.0


From f72d26712e1e13f745e37caa7ca5a40926122956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 30/33] fix: table cells with UTF-8 text were one column short
 per extra byte

---
 src/table/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index b4ad84a..20bc93b 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -117,8 +117,9 @@ size_t console_strlen(const char *str)
     str = skip_ansi(str);
     while (*str != '\0' && *str != '\n')
     {
+        // Continuation bytes of UTF-8 characters take no column of their own
+        if ((*str & 0xC0) != 0x80) res++;
         str = skip_ansi(str + 1);
-        res++;
     }
     return res;
 }
-- 
2.43.0


From c093d73f6c6d7c365a8fdaa4f6a4cc593f32d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 31/33] fix: of several escape sequences in a row only the
 first was skipped

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 3616d89..7d90b3c 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -120,7 +120,7 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    while (*str == ESC_START)
     {
         while (*str != '\0' && *str != ESC_END)
         {
-- 
2.43.0


From 9db3c00df209289211749bc2b8e9aab85b5525e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 32/33] fix: spanning table cells lost a line when a line
 crossing them is removed on printing

---
 src/table/table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 20bc93b..85f2a06 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -1053,7 +1053,9 @@ void fprint_table(Table *table, FILE *stream)
     size_t *row_heights = malloc_wrapper(table->num_rows * sizeof(size_t));
     get_dimensions(table, col_widths, row_heights);
     override_superfluous_lines(table, col_widths[table->num_cols - 1], row_heights[table->num_rows - 1]);
-    
+    // Lines that were removed don't give room to spanning cells any more
+    get_dimensions(table, col_widths, row_heights);
+
     #ifdef DEBUG
     print_debug(table);
     #endif
-- 
2.43.0


From db556a945ef804c8e1ae1c561af29396ed1f4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 33/33] fix: restore the line endings of console_util.c,
 changed with the last repair of it

---
 src/util/console_util.c | 408 ++++++++++++++++++++--------------------
 1 file changed, 204 insertions(+), 204 deletions(-)

diff --git a/src/util/console_util.c b/src/util/console_util.c
index 6eb03f5..9d3f4c1 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,204 +1,204 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char (last line of file does not need to have one)
-    (*out_input)[strcspn(*out_input, "\n")] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (last line of file does not need to have one)
+    (*out_input)[strcspn(*out_input, "\n")] = '\0';
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0

