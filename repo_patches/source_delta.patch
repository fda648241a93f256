From ee81099b37d50cc138c1cceeec26afc91b9d6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 01/66] fix: let errors reported in the second pass show in the
 exit status

---
 errors.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/errors.cpp b/errors.cpp
index a67300a..8bfcf2d 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -38,6 +38,13 @@ static void PrintSPASMError(const LPERRORINSTANCE lpError)
 	assert(lpError != NULL);
 	if ((lpError->dwErrorCode != SPASM_ERR_SUCCESS) || (lpError->lpszErrorText != NULL))
 	{
+		//anything that gets reported has to show in the exit status
+		EXIT_STATUS status = lpError->fIsWarning ? EXIT_WARNINGS : EXIT_ERRORS;
+		if (exit_code < status)
+		{
+			exit_code = status;
+		}
+
 		WORD orig_attributes = save_console_attributes();
 		set_console_attributes(lpError->fIsWarning ? COLOR_YELLOW : COLOR_RED);
 		if (lpError->lpszAnnotation != NULL)
-- 
2.43.0


From c6dca4ab76d761ff988c28a1b95483b2255d0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 02/66] fix: accept a valid RST vector given by a forward
 reference

---
 pass_two.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index 7b94102..dd24297 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -162,27 +162,9 @@ void run_second_pass () {
 			//if that was successful, then write it to the file
 			if (mode & MODE_LIST)
 				listing_offset = expr_list->listing_offset;
-			if (expr_list->type == ARG_RST) {
-				switch (value) {
-					case 0x00:
-					case 0x08:
-					case 0x10:
-					case 0x18:
-					case 0x20:
-					case 0x28:
-					case 0x30:
-					case 0x38:
-						write_arg(value + 0xC7, expr_list->type, expr_list->inst_size, expr_list->or_value);
-						break;
-					default:
-						SetLastSPASMError(SPASM_ERR_INVALID_RST_OPERANDS);
-						break;
-				}
-			} else {
-				out_ptr = expr_list->out_ptr;
-				listing_on = expr_list->listing_on;
-				write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
-			}
+			out_ptr = expr_list->out_ptr;
+			listing_on = expr_list->listing_on;
+			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
 		old_expr = expr_list;
-- 
2.43.0


From 5a3c7b4e1e175a9a81d9ba71ef867a5f3c42ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 03/66] fix: echo values of forward references from the second
 pass

---
 directive.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8584e1c..6ae8933 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -292,21 +292,10 @@ addinstr_fail:
 				int session = StartSPASMErrorSession();
 				parse_emit_string (expr, ES_ECHO, NULL);
 
-				if (IsSPASMErrorSessionFatal(session) == true)
+				if (GetSPASMErrorSessionErrorCount(session) > 0)
 				{
 					add_pass_two_output (expr, OUTPUT_ECHO);
 				}
-				else if (GetSPASMErrorSessionErrorCount(session) > 0)
-				{
-					WORD orig_attributes = save_console_attributes();
-					set_console_attributes(COLOR_GREEN);
-					int internal_session = StartSPASMErrorSession();
-					parse_emit_string (expr, ES_ECHO, stdout);
-					restore_console_attributes(orig_attributes);
-					EndSPASMErrorSession(internal_session);
-
-					ReplaySPASMErrorSession(session);
-				}
 				else
 				{
 					expand_buf_t *echo = eb_init(256);
-- 
2.43.0


From 889435c81fab015c5c9bb6ba493b53c5ac94d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:10 +0000
Subject: [PATCH 04/66] fix: leave the conditional when skipping ends at its
 #endif

---
 preop.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index 8c33b0d..c217e89 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -17,6 +17,7 @@ static char *handle_preop_include (char *ptr);
 char *handle_preop_import (char *ptr);
 char *handle_preop_if (char *ptr);
 static char *skip_until (char *ptr, int *line, int argc, ...);
+static void close_skipped_if (char *ptr);
 
 extern bool case_sensitive;
 static define_t *last_define = NULL;
@@ -88,6 +89,7 @@ char *handle_preop (char *ptr) {
 				int session = StartSPASMErrorSession();
 				ptr = skip_until(ptr, &line_num, 1, "#endif");
 				EndSPASMErrorSession(session);
+				close_skipped_if(ptr);
 				break;
 			}
 		case 3: //IFDEF
@@ -147,6 +149,7 @@ char *handle_preop (char *ptr) {
 				int session = StartSPASMErrorSession();
 				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
 				EndSPASMErrorSession(session);
+				close_skipped_if(ptr);
 			}
 			break;
 		}
@@ -611,6 +614,20 @@ char *handle_preop_import (char *ptr) {
 }
 
 
+/*
+ * Leaves the current #IF block if
+ * skipping ended at its #ENDIF, which
+ * won't be handled like other preops
+ */
+
+static void close_skipped_if (char *ptr)
+{
+	if (nIfLevel > 0 && line_has_word(ptr, _T("#endif"), 6))
+	{
+		nIfLevel--;
+	}
+}
+
 /*
  * Handles #IF statement,
  * returns pointer to new
@@ -665,6 +682,10 @@ char *do_if (char *ptr, int condition)
 		{
 			result = handle_preop_if(skip_whitespace(result) + 5);
 		}
+		else
+		{
+			close_skipped_if(result);
+		}
 		return result;
 	}
 }
-- 
2.43.0


From ff7df9f87132e11667fa7541577b1ddc971647e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 05/66] fix: evaluate macro arguments in the caller's scope

---
 utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 60c5e22..36f0412 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -13,6 +13,8 @@
 #include "errors.h"
 
 
+extern list_t *arg_list;
+
 static void destroy_char_value (label_t *label) {
 	if (label->name)
 		free (label->name);
@@ -294,8 +296,13 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 				}
 				else
 				{
-					label_t *label = search_labels(define->name);
-					add_arg(strdup(define->args[num_args++]), eval(word), *curr_arg_set);
+					//arguments belong to the caller, so they can't use the ones bound so far
+					list_t *callee_args = arg_list;
+					arg_list = callee_args->next;
+					char *value = eval(word);
+					arg_list = callee_args;
+
+					add_arg(strdup(define->args[num_args++]), value, *curr_arg_set);
 					//free(evald_word);
 				}
 
-- 
2.43.0


From 8ebcf32ea78cd02d142ee124a2615b394cad994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:14 +0000
Subject: [PATCH 06/66] fix: diagnose self-referential function-like defines
 instead of crashing

---
 parser.cpp |  4 +++-
 preop.cpp  |  2 ++
 utils.cpp  | 12 ++++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index ea53f75..c742949 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -116,8 +116,10 @@ bool parse_num (const char *expr, int *value) {
 	if (value == NULL)
 		value = &fake_value;
 
-	parse_depth = 0;
+	//expressions evaluated on behalf of another one count towards its depth
+	int saved_depth = parse_depth;
 	result = parse_num_full (expr, value, 0);
+	parse_depth = saved_depth;
 
 	if (!result)
 		*value = 0;
diff --git a/preop.cpp b/preop.cpp
index c217e89..d533621 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -326,6 +326,8 @@ char *handle_preop_define (const char *ptr) {
 				eval_ptr++;
 			read_expr (&eval_ptr, expr, ")");
 			new_value = eval (expr);
+			if (new_value == NULL)
+				return skip_to_line_end (ptr);
 			set_define (define, new_value, -1, redefined);
 			free (new_value);
 			if (*eval_ptr == ')')
diff --git a/utils.cpp b/utils.cpp
index 36f0412..de19318 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -236,7 +236,13 @@ char *eval (const char *expr)
 
 	int session = StartSPASMErrorSession();
 	bool fResult = parse_num (expr, &value);
+	bool fTooDeep = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
 	EndSPASMErrorSession(session);
+	if (fTooDeep)
+	{
+		SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+		return NULL;
+	}
 	if (fResult)
 	{
 		const char *sign = "";
@@ -302,6 +308,12 @@ char *parse_args (const char *ptr, define_t *define, list_t **curr_arg_set) {
 					char *value = eval(word);
 					arg_list = callee_args;
 
+					if (value == NULL)
+					{
+						remove_arg_set(*curr_arg_set);
+						*curr_arg_set = NULL;
+						return NULL;
+					}
 					add_arg(strdup(define->args[num_args++]), value, *curr_arg_set);
 					//free(evald_word);
 				}
-- 
2.43.0


From 5553477699196c76cb6878438865ea5cbb627191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 07/66] fix: report an unterminated false #if only once

---
 preop.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preop.cpp b/preop.cpp
index d533621..047f130 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -675,7 +675,10 @@ char *do_if (char *ptr, int condition)
 	}
 	else
 	{
+		// A missing endif was already reported above
+		int session = StartSPASMErrorSession();
 		char *result = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
+		EndSPASMErrorSession(session);
 		if (line_has_word(result, _T("#else"), 5))
 		{
 			result = next_code_line(result) - 1;
-- 
2.43.0


From 26ff3877963e90c1806247cf9f5156ed9dd0ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 08/66] fix: keep known operands of deferred expressions single
 values

---
 pass_two.cpp |  4 ++--
 utils.cpp    | 51 +++++++++++++++++++++++++++++++++++++++++++--------
 utils.h      |  2 +-
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index dd24297..e0bcdf9 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -64,7 +64,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		   expression for the second pass */
 
 		//store the contents of the expanded expression for the second pass
-		new_expr->expr = expand_expr (expr);
+		new_expr->expr = expand_expr (expr, true, true);
 
 		//and write a blank value in its place
 		if (type == ARG_ADDR_OFFSET) {
@@ -111,7 +111,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	if (type == OUTPUT_SHOW)
 		new_output->expr = strdup (expr);
 	else
-		new_output->expr = expand_expr (expr);
+		new_output->expr = expand_expr (expr, true, true);
 
 	if (output_list_tail)
 		output_list_tail->next = new_output;
diff --git a/utils.cpp b/utils.cpp
index de19318..91247e8 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -255,7 +255,7 @@ char *eval (const char *expr)
 	}
 	else
 	{
-		expr_value = expand_expr (expr);
+		expr_value = expand_expr (expr, true, true);
 	}
 	return expr_value;
 }
@@ -806,7 +806,44 @@ int strnlen (const char *str, int maxlen) {
  * text replacements
  */
 
-static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local) {
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool values);
+
+static void append_value (expand_buf *new_expr, int value, bool in_parens) {
+	char buf[16];
+
+	snprintf (buf, sizeof(buf), in_parens ? "(%d)" : "%d", value);
+	eb_append (new_expr, buf, -1);
+}
+
+/*
+ * Expands the contents of a define in an expression,
+ * keeping it a single value if it can be one
+ */
+
+static void expand_define (define_t *define, expand_buf *new_expr, int depth, bool search_local, bool values) {
+	if (values) {
+		int value;
+
+		int session = StartSPASMErrorSession();
+		bool is_known = parse_num (define->contents, &value);
+		bool is_value = is_known || !IsSPASMErrorSessionFatal(session);
+		EndSPASMErrorSession(session);
+
+		if (is_known) {
+			append_value (new_expr, value, true);
+			return;
+		} else if (is_value) {
+			eb_append (new_expr, "(", 1);
+			expand_expr_full (define->contents, new_expr, depth + 1, search_local, values);
+			eb_append (new_expr, ")", 1);
+			return;
+		}
+	}
+
+	expand_expr_full (define->contents, new_expr, depth + 1, search_local, values);
+}
+
+static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool values) {
 	const char *block_start;
 	char *name;
 	static char separators[] = "=+-*<>|&/%^()\\, \t\r";
@@ -853,7 +890,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				expand_expr_full (define->contents, new_expr, depth + 1, search_local);
+				expand_define (define, new_expr, depth, search_local, values);
 				remove_arg_set (args);
 				if (error_occurred) {
 					free(name);
@@ -861,9 +898,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				}
 			//if it's a label, write its value
 			} else if ((label = search_labels (name))) {
-				char buf[10];
-				snprintf (buf, sizeof(buf), "%d", label->value);
-				eb_append (new_expr, buf, -1);
+				append_value (new_expr, label->value, values);
 				expr += name_len;
 			//otherwise, it might be a forward ref, so just write the name
 			} else {
@@ -889,13 +924,13 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 }
 
 
-char *expand_expr (const char *expr, bool search_local) {
+char *expand_expr (const char *expr, bool search_local, bool values) {
 	expand_buf *new_expr;
 	char *new_expr_text;
 
 	new_expr = eb_init(strlen(expr) * 2);
 
-	expand_expr_full (expr, new_expr, 0, search_local);
+	expand_expr_full (expr, new_expr, 0, search_local, values);
 	new_expr_text = eb_extract (new_expr);
 	eb_free (new_expr);
 
diff --git a/utils.h b/utils.h
index 2d25844..d584c5b 100644
--- a/utils.h
+++ b/utils.h
@@ -50,7 +50,7 @@ bool define_with_value (const char *name, const int value);
 int strnlen (const char *str, int maxlen);
 #endif
 
-char *expand_expr (const char *expr, bool search_local = true);
+char *expand_expr (const char *expr, bool search_local = true, bool values = false);
 
 extern char *curr_input_file;
 extern int line_num;
-- 
2.43.0


From a5e619c31c92d8c6e6938f0acf1a1e439651d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 09/66] fix: don't expand names inside literals of deferred
 expressions

---
 utils.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/utils.cpp b/utils.cpp
index 91247e8..46db31e 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -870,6 +870,25 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			eb_append (new_expr, block_start, expr - block_start);
 		}
 
+		//literals aren't names, even if they look like one
+		if (*expr == '$' && isxdigit ((unsigned char) expr[1])) {
+			block_start = expr++;
+			while (isalnum ((unsigned char) *expr))
+				expr++;
+
+			eb_append (new_expr, block_start, expr - block_start);
+		} else if (*expr == '\'') {
+			block_start = expr++;
+			if (*expr == '\\')
+				expr++;
+			if (*expr)
+				expr++;
+			if (*expr == '\'')
+				expr++;
+
+			eb_append (new_expr, block_start, expr - block_start);
+		}
+
 		//get the next name and look it up
 		name = skip_to_name_end (expr);
 		name_len = name - expr;
-- 
2.43.0


From a085bd388d6fa816202f812ac82922dcf61a5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 10/66] fix: diagnose endless macro recursion instead of
 crashing

---
 pass_one.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 3dc4340..b03a99b 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -19,6 +19,9 @@
 static expand_buf_t* fcreate_bufs[MAX_BUFFERS];
 #endif
 
+//max depth of macros invoking macros
+#define MAX_MACRO_DEPTH 512
+
 char *run_first_pass_line (char *ptr);
 char *run_first_pass_line_sec (char *ptr);
 char *handle_opcode_or_macro (char *ptr);
@@ -437,7 +440,13 @@ char *handle_opcode_or_macro (char *ptr) {
 			
 			ptr = args_end;
 
-			if (!IsSPASMErrorSessionFatal(session))
+			if (in_macro >= MAX_MACRO_DEPTH)
+			{
+				//stop here, or every level would go on and come back this deep
+				SetLastSPASMError(SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
+				error_occurred = true;
+			}
+			else if (!IsSPASMErrorSessionFatal(session))
 			{
 				in_macro++;
 
-- 
2.43.0


From e6e27a2293c18a69104499cc648e347fb94b09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 11/66] fix: write no output after the first pass was given up

---
 main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index 39c3962..0c11bd4 100644
--- a/main.cpp
+++ b/main.cpp
@@ -119,7 +119,10 @@ int run_assembly()
 	run_first_pass ((char *) input_contents);
 	ReplayFatalSPASMErrorSession(first_pass_session);
 	EndSPASMErrorSession(first_pass_session);
-	
+
+	//there's nothing to write if the first pass was given up
+	if (error_occurred)
+		return exit_code;
 	
 	//free include dirs when done
 	if ((mode & MODE_COMMANDLINE) == 0)
-- 
2.43.0


From 2bbb768129b5331a74a481c26ac1ecf90e9737e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:19 +0000
Subject: [PATCH 12/66] fix: report problems in a redefined define at its
 current definition

---
 storage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storage.cpp b/storage.cpp
index ece6b5f..2613814 100644
--- a/storage.cpp
+++ b/storage.cpp
@@ -297,8 +297,9 @@ define_t *add_define (char *name, bool *redefined, bool search_local) {
 		int curr_arg;
 
 		free (name);
-		//define->line_num = line_num;
-		//define->input_file = curr_input_file;
+		define->line_num = line_num;
+		//the old name may still be in use, if this is done by the define itself
+		define->input_file = strdup (curr_input_file);
 		/* Don't clear the contents of the #define, because
 		   if it's being redefined references to itself may
 		   need to be expanded, which will require the original
-- 
2.43.0


From 6357785bf14932a1a9e71769ac4fe84f43c56a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:19 +0000
Subject: [PATCH 13/66] fix: report problems in a define with the file it is in

---
 parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.cpp b/parser.cpp
index c742949..7e5063f 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -392,7 +392,9 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						bool fHasError = false;
 						int old_line_num = line_num;
+						char *old_input_file = curr_input_file;
 						line_num = define->line_num;
+						curr_input_file = define->input_file;
 
 						int session = StartSPASMErrorSession();
 						contents = parse_define (define);
@@ -407,6 +409,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 						}
 
 						line_num = old_line_num;
+						curr_input_file = old_input_file;
 
 						if (GetSPASMErrorSessionErrorCount(session) > 0)
 						{
-- 
2.43.0


From b07452763540e19c65e078162c70784f3b684035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 14/66] fix: keep a line's bytes in its own listing row when it
 invokes macros

---
 pass_one.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index b03a99b..bd4b44b 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -500,12 +500,9 @@ char *handle_opcode_or_macro (char *ptr) {
 							line_num++;
 						}
 
-						if ((mode & MODE_LIST) && listing_on && last_banner != old_filename) {
-							if (mode & MODE_LIST && listing_on && !listing_for_line_done)
-								do_listing_for_line (skip_to_next_line (line_start) );
-
-							listing_for_line_done = true;
-
+						//if another file was listed meanwhile, go back to this one - otherwise
+						// the line isn't over yet and what it emits belongs in its own row
+						if ((mode & MODE_LIST) && listing_on && listing_for_line_done && last_banner != old_filename) {
 							char include_banner[MAX_PATH + 64];
 							snprintf(include_banner, sizeof (include_banner), "Listing for file \"%s\"" NEWLINE, old_filename);
 							listing_offset = eb_insert (listing_buf, listing_offset, include_banner, strlen (include_banner));
-- 
2.43.0


From d9ad67c285d27aa7dc869859d9508034132d6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 15/66] fix: keep the file name of deferred expressions after
 #undef

---
 pass_two.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pass_two.cpp b/pass_two.cpp
index e0bcdf9..439a527 100644
--- a/pass_two.cpp
+++ b/pass_two.cpp
@@ -45,7 +45,7 @@ void add_pass_two_expr (char *expr, arg_type type, int inst_size, int or_value)
 		if (mode & MODE_LIST)
 			new_expr->listing_offset = listing_offset;
 		new_expr->type = type;
-		new_expr->input_file = curr_input_file;
+		new_expr->input_file = strdup (curr_input_file);
 		new_expr->listing_on = listing_on;
 		new_expr->inst_size = inst_size;
 		new_expr->or_value = or_value;
@@ -105,7 +105,7 @@ void add_pass_two_output (char *expr, output_type type) {
 	new_output->curr_reusable = get_curr_reusable();
 #endif
 	new_output->type = type;
-	new_output->input_file = curr_input_file;
+	new_output->input_file = strdup (curr_input_file);
 	new_output->next = NULL;
 
 	if (type == OUTPUT_SHOW)
@@ -167,6 +167,7 @@ void run_second_pass () {
 			write_arg (value, expr_list->type, expr_list->inst_size, expr_list->or_value);
 		}
 		free (expr_list->expr);
+		free (expr_list->input_file);
 		old_expr = expr_list;
 		expr_list = expr_list->next;
 		free (old_expr);
@@ -216,6 +217,7 @@ void run_second_pass () {
 #endif
 
 		free (output_list->expr);
+		free (output_list->input_file);
 		old_output = output_list;
 		output_list = output_list->next;
 		free (old_output);
-- 
2.43.0


From d739202437948578439ef15a963f3f23be47812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 16/66] fix: report errors in the items of a list-valued define

---
 directive.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 6ae8933..cd25e02 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -659,7 +659,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					//handle defines
 					if (define->contents == NULL)
 					{
-						SetLastSPASMError(SPASM_ERR_ARG_USED_WITHOUT_VALUE, name);
+						ReplaySPASMErrorSession(session);
 					}
 					
 					if (*(name_end - 1) == '(') name_end--;
@@ -678,8 +678,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 						if (extract_arg_string(&nested_expr, &nested_context) != NULL)
 						{
-							// if it is, plug it in to the emit string
+							// if it is, plug it in to the emit string and only keep
+							// its errors, not that a list isn't a number
+							EndSPASMErrorSession(session);
+							session = StartSPASMErrorSession();
 							parse_emit_string(expr, type, echo_target);
+							ReplaySPASMErrorSession(session);
 						}
 						else
 						{
-- 
2.43.0


From ee30f1bbd1d4c9284b5f3f0267d6aff941db7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 17/66] fix: assemble what follows an #endif on the same line

---
 preop.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 047f130..0cc004e 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -17,7 +17,7 @@ static char *handle_preop_include (char *ptr);
 char *handle_preop_import (char *ptr);
 char *handle_preop_if (char *ptr);
 static char *skip_until (char *ptr, int *line, int argc, ...);
-static void close_skipped_if (char *ptr);
+static char *close_skipped_if (char *ptr);
 
 extern bool case_sensitive;
 static define_t *last_define = NULL;
@@ -89,7 +89,7 @@ char *handle_preop (char *ptr) {
 				int session = StartSPASMErrorSession();
 				ptr = skip_until(ptr, &line_num, 1, "#endif");
 				EndSPASMErrorSession(session);
-				close_skipped_if(ptr);
+				ptr = close_skipped_if(ptr);
 				break;
 			}
 		case 3: //IFDEF
@@ -149,7 +149,7 @@ char *handle_preop (char *ptr) {
 				int session = StartSPASMErrorSession();
 				ptr = skip_until (ptr, &line_num, 3, "#else", "#elif", "#endif");
 				EndSPASMErrorSession(session);
-				close_skipped_if(ptr);
+				ptr = close_skipped_if(ptr);
 			}
 			break;
 		}
@@ -619,15 +619,18 @@ char *handle_preop_import (char *ptr) {
 /*
  * Leaves the current #IF block if
  * skipping ended at its #ENDIF, which
- * won't be handled like other preops
+ * won't be handled like other preops,
+ * returns where to go on
  */
 
-static void close_skipped_if (char *ptr)
+static char *close_skipped_if (char *ptr)
 {
 	if (nIfLevel > 0 && line_has_word(ptr, _T("#endif"), 6))
 	{
 		nIfLevel--;
+		ptr = skip_whitespace(ptr) + 6;
 	}
+	return ptr;
 }
 
 /*
@@ -689,7 +692,7 @@ char *do_if (char *ptr, int condition)
 		}
 		else
 		{
-			close_skipped_if(result);
+			result = close_skipped_if(result);
 		}
 		return result;
 	}
-- 
2.43.0


From a836b585d21e52d520783857a74225ba4a574d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 18/66] fix: ignore #if in comment blocks

---
 preop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 0cc004e..e34557d 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -748,13 +748,18 @@ char *skip_until (char *ptr, int *pnLine, int argc, ...)
 
 	int line_num_copy = line_num;
 
+	// Text in a comment can't open an #if block
+	va_start(argp, argc);
+	bool nesting = strcasecmp(va_arg(argp, char *), "#endcomment") != 0;
+	va_end(argp);
+
 	while (*ptr && !error_occurred) {
 		char *line = ptr;
 		char *line_end = skip_to_next_line(ptr);
 		
 		do {
 			// Test for nesting (includes #ifdef and #ifndef also)
-			if (line_has_word (line, "#IF", 3)) {
+			if (nesting && line_has_word (line, "#IF", 3)) {
 				level++;
 			} else if (level > 0 && line_has_word (line, "#ENDIF", 6)) {
 				level--;
-- 
2.43.0


From 41e62238d5e13ebf393953b0cacf12dd64467ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 19/66] fix: accept equates in code counter mode

---
 directive.cpp | 8 +++++---
 pass_one.cpp  | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index cd25e02..73f0a00 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -356,9 +356,11 @@ addinstr_fail:
 			read_expr (&ptr, value_str, "");
 			if (!parse_num (value_str, &value) && parser_forward_ref_err) {
 			} else {
-				if (last_label == NULL)
-					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
-				else
+				if (last_label == NULL) {
+					//there are no labels at all in code counter mode
+					if (!(mode & MODE_CODE_COUNTER))
+						SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
+				} else
 					last_label->value = value;
 			}
 			break;
diff --git a/pass_one.cpp b/pass_one.cpp
index bd4b44b..8ce1a73 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -251,7 +251,9 @@ char *run_first_pass_line_sec (char *ptr) {
 		if (parse_num (value_str, &value) == true)
 		{
 			if (last_label == NULL) {
-				SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
+				//there are no labels at all in code counter mode
+				if (!(mode & MODE_CODE_COUNTER))
+					SetLastSPASMError(SPASM_ERR_EQUATE_MISSING_LABEL);
 			} else {
 				last_label->value = value;
 			}
-- 
2.43.0


From 52672968faf7c477284f9864c510d9ee68f6252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 20/66] fix: allow a label on the first line of a macro

---
 pass_one.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index 8ce1a73..59a4958 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -487,6 +487,10 @@ char *handle_opcode_or_macro (char *ptr) {
 						full_macro[0] = ' ';
 						strcpy(&full_macro[1], define->contents);
 
+						//a #macro has lines of its own, so the first one can start with a label
+						if (strpbrk(define->contents, "\r\n") != NULL)
+							curr_line++;
+
 						//char *replace_args_ptr = full_macro;
 						//replace_args_ptr = replace_literal_args(replace_args_ptr, define, &args);
 
-- 
2.43.0


From 110153069f25f9cbfc8580cbf2a29e7a86f8e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 21/66] fix: report undefined symbols in .echo

---
 directive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 73f0a00..8faff4f 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -11,6 +11,8 @@
 #include "expand_buf.h"
 #include "errors.h"
 
+extern bool pass_one;
+
 
 /*
  * Handles a directive, returns the
@@ -607,7 +609,8 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 				ReplaySPASMErrorSession(session);
 			}
-			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE)
+			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE
+				&& (pass_one || type != ES_ECHO))
 			{
 				switch (type) 
 				{
-- 
2.43.0


From fe386ebded8382d176cc352fc3586e3d67503627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 22/66] fix: keep everything given by more than one #defcont

---
 preop.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index e34557d..4f55994 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -249,7 +249,7 @@ char *handle_preop (char *ptr) {
 				break;
 			}
 			char *defcont_start = ptr;
-			ptr = skip_to_next_line(ptr);
+			ptr = skip_to_line_end(ptr);
 			int defcont_len = strlen(last_define->name) + (ptr - defcont_start) + 1;
 			char *new_contents = (char *) malloc(defcont_len + 1);
 			strcpy(new_contents, last_define->name);
@@ -258,7 +258,6 @@ char *handle_preop (char *ptr) {
 			new_contents[defcont_len] = '\0';
 			set_define(last_define, new_contents, -1, true);
 			free(new_contents);
-			ptr--;
 		}
 	}
 
-- 
2.43.0


From 1e61d8693bb576e99f1657082aee9527a9672326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 23/66] fix: don't put a define's leading space into concat()

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 4f55994..87c83fe 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -364,7 +364,7 @@ char *handle_preop_define (const char *ptr) {
 						}
 						else
 						{
-							char *define_buffer = strdup(define->contents);
+							char *define_buffer = strdup(skip_whitespace(define->contents));
 							reduce_string(define_buffer);
 							eb_insert (buffer, -1, define_buffer, -1);
 							free(define_buffer);
-- 
2.43.0


From b72b6404c4d4b5366e2805189b6b11b7ce456b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 24/66] fix: emit zeros in strings and what follows them

---
 directive.cpp |  7 ++++---
 utils.cpp     | 17 +++++++++++++----
 utils.h       |  2 +-
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 8faff4f..61928e0 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -538,19 +538,20 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 			if (*next != '\0') 
 				goto echo_error;
 			
-			reduce_string (word);
+			int word_length;
+			reduce_string (word, &word_length);
 			if (type == ES_ECHO)
 			{
 				if (echo_target != NULL)
 				{
-					fprintf ((FILE *) echo_target, "%s", word);
+					fwrite (word, 1, word_length, (FILE *) echo_target);
 				}
 			}
 			else if (type == ES_FCREATE) {
 				eb_append((expand_buf_t *) echo_target, word, strlen(word));
 			} else {
 				int i;
-				for (i = 0; word[i]; i++) {
+				for (i = 0; i < word_length; i++) {
 					if ((mode & MODE_NORMAL) || (mode & MODE_LIST))
 						write_out (word[i]);
 	                stats_datasize++;
diff --git a/utils.cpp b/utils.cpp
index 46db31e..57ea238 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -558,7 +558,7 @@ char *escape_string(const char *input)
  * and reduces control characters
  */
 
-char* reduce_string (char* input) {
+char* reduce_string (char* input, int *length) {
 	char *output = input;
 
 	int quote_count = 0;
@@ -585,15 +585,24 @@ char* reduce_string (char* input) {
 
 	*output = '\0';
 
+	// The text may contain zeros, so its end isn't the first one
+	int reduced_length = output - input;
+
 	// Count the quotes
 	if (quote_count >= 2)
 	{
-		if (input[0] == '"' && input[strlen(input) - 1] == '"')
+		if (input[0] == '"' && input[reduced_length - 1] == '"')
 		{
-			input[strlen(input) - 1] = '\0';
-			memmove(input, input + 1, strlen(input));
+			reduced_length -= 2;
+			memmove(input, input + 1, reduced_length);
+			input[reduced_length] = '\0';
 		}
 	}
+
+	if (length != NULL)
+	{
+		*length = reduced_length;
+	}
 	
 	return input;
 }
diff --git a/utils.h b/utils.h
index d584c5b..f74038c 100644
--- a/utils.h
+++ b/utils.h
@@ -31,7 +31,7 @@ char *parse_args (const char *ptr, define_t *define, list_t **arg_local_labels);
 char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg_set);
 bool line_has_word (char *ptr, const char *word, int word_len);
 char *escape_string(const char *input);
-char *reduce_string (char* input);
+char *reduce_string (char* input, int *length = NULL);
 char *fix_filename (char *filename);
 bool is_abs_path(const char *filename);
 char *strup (const char *input);
-- 
2.43.0


From b731ac0b36aafbc1c47de1f77aaf27785e1b130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 25/66] fix: don't count parentheses in character literals as
 extra ones

---
 pass_one.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 59a4958..8bc4bd4 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -713,7 +713,9 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 
 				// Search the inner chars
 				while (p < last && level > 0) {
-					if (*p == '(') level++;
+					// a parenthesis in a character literal isn't one
+					if (*p == '\'') p += (p[1] == '\\') ? 3 : 2;
+					else if (*p == '(') level++;
 					else if (*p == ')') level--;
 					p++;
 				}
-- 
2.43.0


From 70717ca1f346de263862edade89ad58028d84943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 26/66] fix: expand lists that begin with a forward reference

---
 directive.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 61928e0..68e100b 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -519,6 +519,25 @@ void show_define (define_t *define) {
  * to the program output
  */
 
+/*
+ * Is this item a use of a define that stands for a list of items?
+ */
+static bool is_list_define (const char *word) {
+	char name[256];
+	char *name_end = (char *) word;
+	const char *contents;
+	define_t *define;
+
+	read_expr (&name_end, name, "(");
+	if ((define = search_defines (name)) == NULL || define->contents == NULL)
+		return false;
+
+	arg_context_t context = ARG_CONTEXT_INITIALIZER;
+	contents = define->contents;
+	return extract_arg_string (&contents, &context) != NULL
+		&& extract_arg_string (&contents, &context) != NULL;
+}
+
 char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 	static int level = 0;
 	char *word = NULL;
@@ -611,7 +630,7 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				ReplaySPASMErrorSession(session);
 			}
 			else if (IsSPASMErrorSessionFatal(session) == false && type != ES_FCREATE
-				&& (pass_one || type != ES_ECHO))
+				&& (pass_one || type != ES_ECHO) && is_list_define(word) == false)
 			{
 				switch (type) 
 				{
-- 
2.43.0


From 1b2112ec13807d8d8c059374453a827212044f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 27/66] fix: don't take ';' and '"' in character literals for
 comments and strings

---
 utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 57ea238..8cf2974 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -100,9 +100,14 @@ char *skip_to_line_end (const char *ptr) {
 		return NULL;
 
 	while (*ptr && *ptr != '\n' && *ptr != '\r' && (*ptr != ';' || in_quotes)) {
-		if (*ptr == '\\') in_escape = true;
-		else if (*ptr == '\"' && !in_escape) in_quotes = !in_quotes;
-		else in_escape = false;
+		if (in_escape) in_escape = false;
+		else if (*ptr == '\\') in_escape = true;
+		else if (*ptr == '\"') in_quotes = !in_quotes;
+		else if (*ptr == '\'' && !in_quotes) {
+			// skip a character literal as a whole
+			if (ptr[1] == '\\' && ptr[2] && ptr[3] == '\'') ptr += 3;
+			else if (ptr[1] && ptr[1] != '\n' && ptr[1] != '\r' && ptr[2] == '\'') ptr += 2;
+		}
 
 		ptr++;
 	}
-- 
2.43.0


From 168ca1d6cc3a0330fd4591e8e1e7e625d4c416c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 28/66] fix: report errors in data items that begin with a
 function-like define

---
 directive.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 68e100b..966f3b0 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -529,6 +529,14 @@ static bool is_list_define (const char *word) {
 	define_t *define;
 
 	read_expr (&name_end, name, "(");
+	if (*name_end == '(') {
+		name_end++;
+		read_expr (&name_end, NULL, ")");
+		if (*name_end == ')')
+			name_end = skip_whitespace (name_end + 1);
+	}
+	if (*name_end != '\0')
+		return false;
 	if ((define = search_defines (name)) == NULL || define->contents == NULL)
 		return false;
 
@@ -672,7 +680,12 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 				read_expr (&name_end, name, "(");
 				//printf("Looking up %s\n", name);
 				next = name_end;
-				read_expr (&next, NULL, ")");
+				if (*next == '(') {
+					next++;
+					read_expr (&next, NULL, ")");
+					if (*next == ')')
+						next = skip_whitespace (next + 1);
+				}
 				
 				if (*next != '\0')
 					goto echo_error;
-- 
2.43.0


From b8518b96ffcf00b3972621d8653e0841bc972891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 29/66] fix: recognise preprocessor commands directly before
 ';' or '\'

---
 preop.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preop.cpp b/preop.cpp
index 87c83fe..4b1dd16 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -37,7 +37,7 @@ char *handle_preop (char *ptr) {
 
 	//first get the name
 	name_end = ptr;
-	while (*name_end != 0 && !isspace(*name_end))
+	while (!is_end_of_code_line (name_end) && !isspace(*name_end))
 		name_end++;
 	name = strndup (ptr, name_end - ptr);
 
-- 
2.43.0


From 0f524adde95b3d2878866e1920e08b148df0b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 30/66] fix: don't let the quote of AF' hide the '\' after it

---
 utils.cpp | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 8cf2974..dcdac89 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -93,6 +93,17 @@ char *skip_to_name_end (const char *ptr) {
 	return (char *) ptr;
 }
 
+/*
+ * Length of the character literal that starts here,
+ * 1 if the quote doesn't start one (as in AF')
+ */
+static int char_literal_length (const char *ptr) {
+	if (ptr[1] == '\\')
+		return (ptr[2] && ptr[3] == '\'') ? 4 : 1;
+
+	return (ptr[1] && ptr[1] != '\n' && ptr[1] != '\r' && ptr[2] == '\'') ? 3 : 1;
+}
+
 char *skip_to_line_end (const char *ptr) {
 	bool in_escape = false, in_quotes = false;
 
@@ -104,9 +115,8 @@ char *skip_to_line_end (const char *ptr) {
 		else if (*ptr == '\\') in_escape = true;
 		else if (*ptr == '\"') in_quotes = !in_quotes;
 		else if (*ptr == '\'' && !in_quotes) {
-			// skip a character literal as a whole
-			if (ptr[1] == '\\' && ptr[2] && ptr[3] == '\'') ptr += 3;
-			else if (ptr[1] && ptr[1] != '\n' && ptr[1] != '\r' && ptr[2] == '\'') ptr += 2;
+			ptr += char_literal_length (ptr);
+			continue;
 		}
 
 		ptr++;
@@ -143,7 +153,6 @@ bool is_arg (char test) {
 char *next_expr (const char *ptr, const char *delims) {
 	bool in_string = false, // "xxx xxx xx"
 		 in_escape = false;	// \n
-	int in_quote = 0;		// 'x'
 
 	/* Is there a word left to get? */
 	// Skip whitespace at the start
@@ -153,26 +162,20 @@ char *next_expr (const char *ptr, const char *delims) {
 
 	if (strlen(delims) == 1) {
 		while (*ptr != '\0' && !((strchr (ptr, delims[0]) == ptr || is_end_of_code_line (ptr))
-					&& !in_escape && !in_string && in_quote == 0)) {
+					&& !in_escape && !in_string)) {
 
 			if (!in_escape) {
 				switch( *ptr ) {
 					case '"': 	
-						if (in_quote == 0) in_string = !in_string; 
+						in_string = !in_string; 
 						break;
 					case '\'':
-						if (!in_string && in_quote == 0) in_quote = 3; 
+						if (!in_string) ptr += char_literal_length (ptr) - 1;
 						break;		
 					case '\\': 	
 						in_escape = true;
 						break;
-					default:
-						/* 	If this char wasn't ', redo the inside */
-						if (in_quote == 1) {
-							ptr -= 2;
-						}
 				}	
-				if (in_quote) in_quote--;
 			} else {
 				in_escape = false;
 			}
@@ -180,26 +183,20 @@ char *next_expr (const char *ptr, const char *delims) {
 		}
 	} else {
 		while (*ptr != '\0' && !((mystrpbrk (ptr, delims) == ptr || is_end_of_code_line (ptr))
-					&& !in_escape && !in_string && in_quote == 0)) {
+					&& !in_escape && !in_string)) {
 
 			if (!in_escape) {
 				switch( *ptr ) {
 					case '"': 	
-						if (in_quote == 0) in_string = !in_string; 
+						in_string = !in_string; 
 						break;
 					case '\'':
-						if (!in_string && in_quote == 0) in_quote = 3; 
+						if (!in_string) ptr += char_literal_length (ptr) - 1;
 						break;		
 					case '\\': 	
 						in_escape = true;
 						break;
-					default:
-						/* 	If this char wasn't ', redo the inside */
-						if (in_quote == 1) {
-							ptr -= 2;
-						}
 				}	
-				if (in_quote) in_quote--;
 			} else {
 				in_escape = false;
 			}
-- 
2.43.0


From ad3b00c705ae40ede16c8629dae9164be07f9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 31/66] fix: don't take macros for the built-ins they
 abbreviate

---
 pass_one.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 8bc4bd4..ac732aa 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -338,7 +338,7 @@ char *handle_opcode_or_macro (char *ptr) {
 		//if this name doesn't match an opcode, it must be a macro (#macro OR #define)
 		define_t *define;
 #ifdef USE_BUILTIN_FCREATE
-		if (!strncasecmp (name_start, "buf", name_end - name_start) && *ptr == '(') {
+		if (name_end - name_start == 3 && !strncasecmp (name_start, "buf", 3) && *ptr == '(') {
 			char buf[256];
 			int value;
 			ptr++;
@@ -349,7 +349,7 @@ char *handle_opcode_or_macro (char *ptr) {
 				SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS);
 			}
 			ptr++;
-		} else if (!strncasecmp (name_start, "clr", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "clr", 3) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate != NULL) {
 				eb_free(eb_fcreate);
@@ -357,7 +357,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			eb_fcreate = eb_init(128);
 			fcreate_bufs[cur_buf] = eb_fcreate;
 			ptr += 2;
-		} else if (!strncasecmp (name_start, "wr", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 2 && !strncasecmp (name_start, "wr", 2) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL) {
 				eb_fcreate = eb_init(128);
@@ -367,7 +367,7 @@ char *handle_opcode_or_macro (char *ptr) {
 			ptr = parse_emit_string(++ptr, ES_FCREATE, eb_fcreate);
 			ptr++;
 			eb_append(eb_fcreate, NEWLINE, strlen(NEWLINE));
-		} else if (!strncasecmp (name_start, "run", name_end - name_start) && *ptr == '(') {
+		} else if (name_end - name_start == 3 && !strncasecmp (name_start, "run", 3) && *ptr == '(') {
 			expand_buf_t *eb_fcreate = fcreate_bufs[cur_buf];
 			if (eb_fcreate == NULL)
 			{
-- 
2.43.0


From 3fb6eeafb2b44d99ef6363b6a4208da7faa48379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 32/66] fix: assemble what follows an unknown instruction on
 the same line

---
 pass_one.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pass_one.cpp b/pass_one.cpp
index ac732aa..07848ff 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -535,6 +535,9 @@ char *handle_opcode_or_macro (char *ptr) {
 			char *name = strndup(name_start, name_end - name_start);
 			SetLastSPASMError(SPASM_ERR_UNKNOWN_OPCODE, name);
 			free (name);
+
+			//go on with the next statement on this line
+			ptr = (char *) skip_to_code_line_end (ptr);
 		}
 	}
 
-- 
2.43.0


From d8ba113004d91c9b7d5c679ce847d3cbefa0b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 33/66] fix: assemble what follows invalid operands or an
 unknown directive on the same line

---
 pass_one.cpp | 1 +
 preop.cpp    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index 07848ff..9c483be 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -655,6 +655,7 @@ char *match_opcode_args (char *ptr, char **arg_ptrs, char **arg_end_ptrs, opcode
 		
 		//if it doesn't match any instructions for this opcode, show an error and skip to line end
 		SetLastSPASMError(SPASM_ERR_INVALID_OPERANDS, curr_opcode->name);
+		curr_arg_file = (char *) skip_to_code_line_end (ptr);
 
 	} else
 		*curr_instr = &(curr_opcode->instrs[instr_num]);
diff --git a/preop.cpp b/preop.cpp
index 4b1dd16..8fc33ca 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -57,7 +57,7 @@ char *handle_preop (char *ptr) {
 	{
 		SetLastSPASMError(SPASM_ERR_UNKNOWN_PREOP, name);
 		free(name);
-		return ptr;
+		return (char *) skip_to_code_line_end (ptr);
 	}
 
 	free (name);
-- 
2.43.0


From 7ea98f23bd94424e8c26a8ee014f434032cf853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 34/66] fix: name the missing file in #import's error

---
 preop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preop.cpp b/preop.cpp
index 8fc33ca..83dd303 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -593,10 +593,10 @@ char *handle_preop_import (char *ptr) {
 	char *file_path = full_path(qs);
 
 	//...and read it in
-	import_file = fopen(file_path, "rb");
+	import_file = file_path ? fopen(file_path, "rb") : NULL;
 	if (!import_file)
 	{
-		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, file_path);
+		SetLastSPASMError(SPASM_ERR_FILE_NOT_FOUND, qs);
 		free(file_path);
 		return ptr;
 	}
-- 
2.43.0


From e7d66c05b060becfdb420843de7bf10f1924bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 35/66] fix: keep .assume adl across #include and run()

---
 main.cpp     | 2 ++
 pass_one.cpp | 3 ---
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.cpp b/main.cpp
index 0c11bd4..b9661a9 100644
--- a/main.cpp
+++ b/main.cpp
@@ -115,6 +115,8 @@ int run_assembly()
 
 	printf ("Pass one... \n");
 
+	adl_mode = (mode & MODE_EZ80) != 0;
+
 	int first_pass_session = StartSPASMErrorSession();
 	run_first_pass ((char *) input_contents);
 	ReplayFatalSPASMErrorSession(first_pass_session);
diff --git a/pass_one.cpp b/pass_one.cpp
index 9c483be..ab6bb32 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -119,9 +119,6 @@ void do_listing_for_line (char *ptr) {
 void run_first_pass (char *ptr) {
 	line_num = 1;
 	pass_one = true;
-	if (mode & MODE_EZ80) {
-		adl_mode = true;
-	}
 
 	while (!error_occurred && *ptr != '\0') {
 
-- 
2.43.0


From 219c6f0421e2a4a022687eee61e276e77723eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 36/66] fix: give every Z80 instruction its execution time

---
 opcodes.cpp | 246 ++++++++++++++++++++++++++--------------------------
 1 file changed, 123 insertions(+), 123 deletions(-)

diff --git a/opcodes.cpp b/opcodes.cpp
index 4fc4c55..764a94f 100644
--- a/opcodes.cpp
+++ b/opcodes.cpp
@@ -372,7 +372,7 @@ static instr adc_instrs[] = {
 	{"A,D", {0x8A}, 1, 4, 4, false, 0x00, 1},
 	{"A,E", {0x8B}, 1, 4, 4, false, 0x00, 1},
 	{"A,H", {0x8C}, 1, 4, 4, false, 0x00, 1},
-	{"A,L", {0x8D}, 1, 7, 7, false, 0x00, 1},
+	{"A,L", {0x8D}, 1, 4, 4, false, 0x00, 1},
 	{"A,(HL)", {0x8E}, 1, 7, 7, false, 0x00, 1},
 	{"A,A", {0x8F}, 1, 4, 4, false, 0x00, 1},
 	{"A,&", {0xCE}, 1, 7, 7, false, 0x00, 2},
@@ -443,8 +443,8 @@ static instr and_instrs[] = {
 	{"&", {0xE6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr bit_instrs[] = {
-	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x46, 4},
-	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x46, 4},
+	{"^,(IX@)", {0xCB, 0xDD}, 2, 20, 20, true, 0x46, 4},
+	{"^,(IY@)", {0xCB, 0xFD}, 2, 20, 20, true, 0x46, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0x40, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0x41, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0x42, 2},
@@ -690,22 +690,22 @@ static instr scf_instrs[] = {
 	{"", {0x37}, 1, 4, 4, false, 0x00, 1}};
 
 static instr set_instrs[] = {
-	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC0, 4},
-	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC0, 4},
-	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC1, 4},
-	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC1, 4},
-	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC2, 4},
-	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC2, 4},
-	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC3, 4},
-	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC3, 4},
-	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC4, 4},
-	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC4, 4},
-	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC5, 4},
-	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC5, 4},
+	{"B,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC0, 4},
+	{"B,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC0, 4},
+	{"C,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC1, 4},
+	{"C,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC1, 4},
+	{"D,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC2, 4},
+	{"D,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC2, 4},
+	{"E,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC3, 4},
+	{"E,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC3, 4},
+	{"H,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC4, 4},
+	{"H,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC4, 4},
+	{"L,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC5, 4},
+	{"L,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC5, 4},
 	{"^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC6, 4},
 	{"^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC6, 4},
-	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0xC7, 4},
-	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0xC7, 4},
+	{"A,^,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0xC7, 4},
+	{"A,^,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0xC7, 4},
 	{"^,B", {0xCB}, 1, 8, 8, true, 0xC0, 2},
 	{"^,C", {0xCB}, 1, 8, 8, true, 0xC1, 2},
 	{"^,D", {0xCB}, 1, 8, 8, true, 0xC2, 2},
@@ -716,48 +716,48 @@ static instr set_instrs[] = {
 	{"^,A", {0xCB}, 1, 8, 8, true, 0xC7, 2}};
 
 static instr sl1_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sla_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x20, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x20, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x21, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x21, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x22, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x22, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x23, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x23, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x24, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x24, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x25, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x25, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x20, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x20, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x21, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x21, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x22, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x22, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x23, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x23, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x24, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x24, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x25, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x25, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x26, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x26, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x27, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x27, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x27, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x27, 4},
 	{"B", {0x20, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x21, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x22, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -768,48 +768,48 @@ static instr sla_instrs[] = {
 	{"A", {0x27, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sll_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x30, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x30, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x31, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x31, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x32, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x32, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x33, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x33, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x34, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x34, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x35, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x35, 4},
-	{"(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x36, 4},
-	{"(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x36, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x37, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x37, 4},
-	{"B", {0x30, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"C", {0x31, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"D", {0x32, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"E", {0x33, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"H", {0x34, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"L", {0x35, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"(HL)", {0x36, 0xCB}, 2, 0, 0, false, 0x00, 2},
-	{"A", {0x37, 0xCB}, 2, 0, 0, false, 0x00, 2}};
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x30, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x30, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x31, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x31, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x32, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x32, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x33, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x33, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x34, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x34, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x35, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x35, 4},
+	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x36, 4},
+	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x36, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x37, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x37, 4},
+	{"B", {0x30, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"C", {0x31, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"D", {0x32, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"E", {0x33, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"H", {0x34, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"L", {0x35, 0xCB}, 2, 8, 8, false, 0x00, 2},
+	{"(HL)", {0x36, 0xCB}, 2, 15, 15, false, 0x00, 2},
+	{"A", {0x37, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sra_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x28, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x28, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x29, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x29, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x28, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x28, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x29, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x29, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x2F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x2F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x2F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x2F, 4},
 	{"B", {0x28, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x29, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x2A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -820,22 +820,22 @@ static instr sra_instrs[] = {
 	{"A", {0x2F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr srl_instrs[] = {
-	{"B,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x38, 4},
-	{"B,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x38, 4},
-	{"C,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x39, 4},
-	{"C,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x39, 4},
-	{"D,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3A, 4},
-	{"D,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3A, 4},
-	{"E,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3B, 4},
-	{"E,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3B, 4},
-	{"H,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3C, 4},
-	{"H,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3C, 4},
-	{"L,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3D, 4},
-	{"L,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3D, 4},
+	{"B,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x38, 4},
+	{"B,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x38, 4},
+	{"C,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x39, 4},
+	{"C,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x39, 4},
+	{"D,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3A, 4},
+	{"D,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3A, 4},
+	{"E,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3B, 4},
+	{"E,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3B, 4},
+	{"H,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3C, 4},
+	{"H,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3C, 4},
+	{"L,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3D, 4},
+	{"L,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3D, 4},
 	{"(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3E, 4},
 	{"(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3E, 4},
-	{"A,(IX@)", {0xCB, 0xDD}, 2, 0, 0, true, 0x3F, 4},
-	{"A,(IY@)", {0xCB, 0xFD}, 2, 0, 0, true, 0x3F, 4},
+	{"A,(IX@)", {0xCB, 0xDD}, 2, 23, 23, true, 0x3F, 4},
+	{"A,(IY@)", {0xCB, 0xFD}, 2, 23, 23, true, 0x3F, 4},
 	{"B", {0x38, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"C", {0x39, 0xCB}, 2, 8, 8, false, 0x00, 2},
 	{"D", {0x3A, 0xCB}, 2, 8, 8, false, 0x00, 2},
@@ -846,10 +846,10 @@ static instr srl_instrs[] = {
 	{"A", {0x3F, 0xCB}, 2, 8, 8, false, 0x00, 2}};
 
 static instr sub_instrs[] = {
-	{ "A,IXH", { 0x94, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0x94, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0x95, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0x95, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0x94, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0x94, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0x95, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0x95, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0x96, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0x96, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,B", { 0x90 }, 1, 4, 4, false, 0x00, 1 },
@@ -861,10 +861,10 @@ static instr sub_instrs[] = {
 	{ "A,(HL)", { 0x96 }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,A", { 0x97 }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,&", { 0xD6 }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0x94, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0x94, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0x95, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0x95, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0x94, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0x94, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0x95, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0x95, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0x96, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0x96, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"B", {0x90}, 1, 4, 4, false, 0x00, 1},
@@ -878,10 +878,10 @@ static instr sub_instrs[] = {
 	{"&", {0xD6}, 1, 7, 7, false, 0x00, 2}};
 
 static instr xor_instrs[] = {
-	{ "A,IXH", { 0xAC, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYH", { 0xAC, 0xFD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IXL", { 0xAD, 0xDD }, 2, 0, 0, false, 0x00, 2 },
-	{ "A,IYL", { 0xAD, 0xFD }, 2, 0, 0, false, 0x00, 2 },
+	{ "A,IXH", { 0xAC, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYH", { 0xAC, 0xFD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IXL", { 0xAD, 0xDD }, 2, 8, 8, false, 0x00, 2 },
+	{ "A,IYL", { 0xAD, 0xFD }, 2, 8, 8, false, 0x00, 2 },
 	{ "A,(IX@)", { 0xAE, 0xDD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,(IY@)", { 0xAE, 0xFD }, 2, 19, 19, false, 0x00, 3 },
 	{ "A,A", { 0xAF }, 1, 4, 4, false, 0x00, 1 },
@@ -893,10 +893,10 @@ static instr xor_instrs[] = {
 	{ "A,L", { 0xAD }, 1, 4, 4, false, 0x00, 1 },
 	{ "A,(HL)", { 0xAE }, 1, 7, 7, false, 0x00, 1 },
 	{ "A,&", { 0xEE }, 1, 7, 7, false, 0x00, 2 },
-	{"IXH", {0xAC, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYH", {0xAC, 0xFD}, 2, 0, 0, false, 0x00, 2},
-	{"IXL", {0xAD, 0xDD}, 2, 0, 0, false, 0x00, 2},
-	{"IYL", {0xAD, 0xFD}, 2, 0, 0, false, 0x00, 2},
+	{"IXH", {0xAC, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYH", {0xAC, 0xFD}, 2, 8, 8, false, 0x00, 2},
+	{"IXL", {0xAD, 0xDD}, 2, 8, 8, false, 0x00, 2},
+	{"IYL", {0xAD, 0xFD}, 2, 8, 8, false, 0x00, 2},
 	{"(IX@)", {0xAE, 0xDD}, 2, 19, 19, false, 0x00, 3},
 	{"(IY@)", {0xAE, 0xFD}, 2, 19, 19, false, 0x00, 3},
 	{"A", {0xAF}, 1, 4, 4, false, 0x00, 1},
-- 
2.43.0


From 0daddfc6b12cff0985fc5989a879127f6638061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 37/66] fix: report self-referential defines next to forward
 references

---
 utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index dcdac89..a8cf97e 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -838,8 +838,17 @@ static void expand_define (define_t *define, expand_buf *new_expr, int depth, bo
 		int session = StartSPASMErrorSession();
 		bool is_known = parse_num (define->contents, &value);
 		bool is_value = is_known || !IsSPASMErrorSessionFatal(session);
+		bool is_endless = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
 		EndSPASMErrorSession(session);
 
+		//there is no end to expanding it, evaluating it will report that
+		if (is_endless) {
+			eb_append (new_expr, "(", 1);
+			eb_append (new_expr, define->contents, -1);
+			eb_append (new_expr, ")", 1);
+			return;
+		}
+
 		if (is_known) {
 			append_value (new_expr, value, true);
 			return;
@@ -862,8 +871,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 	label_t *label;
 	int name_len;
 
+	//what is too deep stays as it is, so that evaluating it reports the problem
 	if (depth > RECURSION_LIMIT) {
-		SetLastSPASMError (SPASM_ERR_RECURSION_DEPTH, RECURSION_LIMIT);
+		eb_append (new_expr, expr, strlen (expr));
 		return;
 	}
 
-- 
2.43.0


From 7116156df2f1a362ca4c1519dfe77809203b70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:55 +0000
Subject: [PATCH 38/66] fix: don't read past the end of -D's name

---
 main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.cpp b/main.cpp
index b9661a9..ef689fc 100644
--- a/main.cpp
+++ b/main.cpp
@@ -366,7 +366,8 @@ int main (int argc, char **argv)
 				read_expr (&ptr, name, "=");
 
 				define = add_define (strdup (name), NULL);
-				if (*skip_whitespace (++ptr) != '\0')
+				if (*ptr == '=') ptr++;
+				if (*skip_whitespace (ptr) != '\0')
 					define->contents = strdup (ptr);
 				else
 					set_define (define, "1", 1, false);
-- 
2.43.0


From af6b811ba3fef381c6afa5ef4fd0c566c08da959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 39/66] fix: keep the case of -D names with -A

---
 main.cpp | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/main.cpp b/main.cpp
index ef689fc..bf0dbcc 100644
--- a/main.cpp
+++ b/main.cpp
@@ -260,7 +260,7 @@ int main (int argc, char **argv)
 {
 	int curr_arg = 1;
 	bool case_sensitive = false;
-	bool is_storage_initialized = false;
+	list_t *defines = NULL, *curr_define;
 
 	use_colors = true;
 	extern WORD user_attributes;
@@ -342,15 +342,7 @@ int main (int argc, char **argv)
 			//handle adding defines
 			case 'D':
 			{
-				char name[256];
 				char *ptr;
-				define_t *define;
-
-				if (!is_storage_initialized)
-				{
-					init_storage();
-					is_storage_initialized = true;
-				}
 
 				if (strlen (argv[curr_arg]) > 2) {
 					ptr = &argv[curr_arg][2];
@@ -363,14 +355,8 @@ int main (int argc, char **argv)
 					ptr = argv[++curr_arg];
 				}
 
-				read_expr (&ptr, name, "=");
-
-				define = add_define (strdup (name), NULL);
-				if (*ptr == '=') ptr++;
-				if (*skip_whitespace (ptr) != '\0')
-					define->contents = strdup (ptr);
-				else
-					set_define (define, "1", 1, false);
+				//whether the name's case matters isn't known yet
+				defines = list_append (defines, ptr);
 				break;
 			}
 			case 'V':
@@ -444,11 +430,24 @@ int main (int argc, char **argv)
 		output_filename = change_extension (curr_input_file, "bin");
 	}
 
-	if (!is_storage_initialized)
-	{
-		init_storage();
-		is_storage_initialized = true;
+	init_storage();
+
+	for (curr_define = defines; curr_define != NULL; curr_define = curr_define->next) {
+		char name[256];
+		char *ptr = (char *) curr_define->data;
+		define_t *define;
+
+		read_expr (&ptr, name, "=");
+
+		define = add_define (strdup (name), NULL);
+		if (*ptr == '=') ptr++;
+		if (*skip_whitespace (ptr) != '\0')
+			define->contents = strdup (ptr);
+		else
+			set_define (define, "1", 1, false);
 	}
+	list_free (defines, false, NULL);
+
 	output_contents = (unsigned char *) malloc(output_buf_size);
 	ClearSPASMErrorSessions();
 
-- 
2.43.0


From 4c7883a4d78a950f9e3559a1789d21a562bc9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 40/66] fix: write correct checksums of page records past 4 MB

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index a4c0d63..a3c2589 100644
--- a/export.cpp
+++ b/export.cpp
@@ -672,7 +672,7 @@ void intelhex (FILE* outfile, const unsigned char* buffer, int size, unsigned in
 	//We are in binary mode, we must handle carriage return ourselves.
    
 	while (bpnt < size){
-		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + page)) +1));
+		fprintf(outfile,":02000002%04X%02X\r\n",page,(unsigned char) ( (~(0x04 + (page >> 8) + page)) +1));
 		page++;
 		address = base_address;
 		for (i = 0; bpnt < size && i < 512; i++) {
-- 
2.43.0


From b0963ff30a10b911cbd601376f6da274e77b4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:35 +0000
Subject: [PATCH 41/66] fix: name .82p programs by the base name of the output
 file

---
 export.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/export.cpp b/export.cpp
index a3c2589..d40a459 100644
--- a/export.cpp
+++ b/export.cpp
@@ -469,25 +469,25 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	char *namestring, progstring[3];
 	const unsigned char trailer83[] = { 0x3f, 0xd4, 0x3f, 0x30, 0x30, 0x30, 0x30, 0x3f, 0xd4 };
 	
+	// Find basename(prgmname)
+	const char *baseName = prgmname + strlen(prgmname) - 1;
+	bool found = false;
+	while (baseName > prgmname) {
+		if (*baseName == '/' || *baseName == '\\') {
+			found = true;
+			break;
+		}
+		baseName -= 1;
+	}
+	if (found) {
+		baseName += 1;
+	}
+
 	if (calc==TYPE_82P) {
 		char name_buf[256];
-		snprintf(name_buf, sizeof(name_buf), "\xdc%s", prgmname);
+		snprintf(name_buf, sizeof(name_buf), "\xdc%s", baseName);
 		namestring = strdup (name_buf);
 	} else {
-		// Find basename(prgmname)
-		const char *baseName = prgmname + strlen(prgmname) - 1;
-		bool found = false;
-		while (baseName > prgmname) {
-			if (*baseName == '/' || *baseName == '\\') {
-				found = true;
-				break;
-			}
-			baseName -= 1;
-		}
-		if (found) {
-			baseName += 1;
-		}
-
 		// Use the base filename (no directory, if given) as the program name.
 		namestring = strdup(baseName);
 		/* The name must be capital letters and numbers */
-- 
2.43.0


From a73f555beab5b475ba5e5b29c4b6e04399b4e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 42/66] fix: count at most eight characters of the program's
 name

---
 export.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/export.cpp b/export.cpp
index d40a459..626d0d5 100644
--- a/export.cpp
+++ b/export.cpp
@@ -495,6 +495,9 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 			alphanumeric (namestring, calc == TYPE_8XV);
 		}
 	}
+	/* and only the first 8 of them are used */
+	if (strlen (namestring) > 8)
+		namestring[8] = '\0';
 	/* get size */
 	if (calc==TYPE_83P) {
 		size *= 2; // Double size to account for character conversion of hex opcodes
-- 
2.43.0


From 6fc14d59bf9638ba621fedeb2f7317073e3066fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 43/66] fix: write the right length into .86s files

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 626d0d5..8bd5f46 100644
--- a/export.cpp
+++ b/export.cpp
@@ -544,7 +544,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	if (calc == TYPE_85P) {
 		temp = size + 8 + strlen (namestring);
 	} else {
-		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P)?1:0);
+		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-- 
2.43.0


From 832506497ab7efe129cf9fa6ca5e62d7806a290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 44/66] fix: write .85s headers like .85p ones

---
 export.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/export.cpp b/export.cpp
index 8bd5f46..52903cb 100644
--- a/export.cpp
+++ b/export.cpp
@@ -526,7 +526,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (pnt[2],outfile);
 	fputc (fileheader[i++],outfile);
 	fputc (fileheader[i++],outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
 	} else {
 		fputc (fileheader[i++],outfile);
@@ -541,14 +541,14 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	/* For some reason TI thinks it's important to put the file size */
 	/* dozens of times, I suppose duplicates add security...*/
 	/* yeah right. */
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		temp = size + 8 + strlen (namestring);
 	} else {
 		temp = size+15+((calc==TYPE_8XP||calc==TYPE_8XV)?2:0)+((calc==TYPE_86P||calc==TYPE_86S)?1:0);
 	}
 	fputc(temp & 0xFF,outfile);
 	fputc(temp >> 8,outfile);
-	if (calc == TYPE_85P) {
+	if (calc == TYPE_85P || calc == TYPE_85S) {
 		chksum = fputc((6+strlen(namestring)),outfile);
 	} else {
 		chksum = fputc(pnt[3],outfile);
-- 
2.43.0


From 66663660e14d23d8d7c6266c843c16f81d75cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 45/66] fix: refuse one-page apps without room for the
 signature

---
 export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export.cpp b/export.cpp
index 52903cb..1827aad 100644
--- a/export.cpp
+++ b/export.cpp
@@ -222,7 +222,7 @@ void makeapp (const unsigned char *output_contents, DWORD size, FILE *outfile, c
 
 /* Check if size will fit in mem with signature */
 	if ((tempnum = ((size+96)%16384))) {
-		if (tempnum < 97 && size > 16384)
+		if (tempnum < 97 && size + 96 > 16384)
 		{
 			free(buffer);
 			SetLastSPASMError(SPASM_ERR_SIGNER_ROOM_FOR_SIG);
-- 
2.43.0


From 818694061b12174fcfd27cfee64d8845b3d9649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 46/66] fix: don't give up the assembly because of a warning

---
 errors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.cpp b/errors.cpp
index 8bfcf2d..4bf570b 100644
--- a/errors.cpp
+++ b/errors.cpp
@@ -257,7 +257,7 @@ int CleanupSPASMErrorSession(int nSession)
 		{
 			pPrev->next = pList->next;
 		}
-		if(IsSPASMErrorFatal(lpErr->dwErrorCode)) {
+		if(!lpErr->fIsWarning && IsSPASMErrorFatal(lpErr->dwErrorCode)) {
 			fatalErrorCount++;
 		}
 		FreeErrorInstance(lpErr);
-- 
2.43.0


From 7b96ce66b4787e9e1ce6feaf5713cf9bf65e59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 47/66] fix: end the signature of .85p and .85s files with a
 zero byte

---
 export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export.cpp b/export.cpp
index 1827aad..0bdd8ab 100644
--- a/export.cpp
+++ b/export.cpp
@@ -528,6 +528,7 @@ void makeprgm (const unsigned char *output_contents, int size, FILE *outfile, co
 	fputc (fileheader[i++],outfile);
 	if (calc == TYPE_85P || calc == TYPE_85S) {
 		fputc (0x0C,outfile);
+		i++;
 	} else {
 		fputc (fileheader[i++],outfile);
 	}    
-- 
2.43.0


From 0a9af0aeb8ed3a3e966d81a3271801c3fbf3e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 48/66] fix: compare with the inverse colour of bitmaps
 reliably

---
 bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0e2639a..d17b2a5 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -199,7 +199,7 @@ static void handle_bitmap_internal(FILE *file, const RECT *r, const BITMAPFILEHE
 	rgbMask.rgbBlue 	= (value) & 0xFF;
 
 	bool HandleInv = false;
-	RGBQUAD rgbInv;
+	RGBQUAD rgbInv = {0, 0, 0, 0};
 	if ((value = parse_f("__BM_INV_RGB")) != -1) {
 		rgbInv.rgbRed 	= (value >> 16) & 0xFF;
 		rgbInv.rgbGreen = (value >> 8) & 0xFF;
-- 
2.43.0


From 605e1c9886d48ca6d504ebc77a6459135411e066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:40 +0000
Subject: [PATCH 49/66] fix: count the mask and all bit planes in the size of a
 bitmap's header

---
 bitmap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index d17b2a5..0beb9b8 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -107,8 +107,9 @@ static void handle_bitmap_header(const RECT *r, const BITMAPFILEHEADER *bf, cons
 			else if (!strcasecmp(p, "s") || !strcasecmp(p, "ss")) {
 				int size = ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
 				if (define_with_value ("__BM_SHD", 4)) size *=2;
-				else if (define_with_value ("__BM_SHD", 8)) size *=4;
-				if (define_with_value ("__BM_MASK", 1)) size += ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
+				else if (define_with_value ("__BM_SHD", 8)) size *=3;
+				else if (define_with_value ("__BM_SHD", 16)) size *=4;
+				if (define_with_value ("__BM_MSK", 1)) size += ((r->right - r->left) + 7)/8 * (r->bottom - r->top);
 
 				if (!strcasecmp(p, "s")) {
 					if (size > 255)
-- 
2.43.0


From 6e4f18ab7daaa9b223512b0387346db839cbd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:40 +0000
Subject: [PATCH 50/66] fix: report bitmaps with an invalid structure as errors

---
 bitmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitmap.cpp b/bitmap.cpp
index 0beb9b8..15ecc51 100644
--- a/bitmap.cpp
+++ b/bitmap.cpp
@@ -371,7 +371,8 @@ void handle_bitmap(FILE *file)
 	fread(bmiColors, sizeof(RGBQUAD), nColors, file);
 
 	if (ftell (file) != _DW(bf.bfOffBits)) {
-		printf("invalid file structure!\n");
+		show_error ("Bitmap file has an invalid structure");
+		free (bmiColors);
 		return;
 	}
 
-- 
2.43.0


From 4218b94cea7383ce1a1e5605ae3a1678b05d32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 51/66] fix: look for extensions in the last part of file names
 only

---
 export.cpp | 2 +-
 utils.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/export.cpp b/export.cpp
index 0bdd8ab..d5c579e 100644
--- a/export.cpp
+++ b/export.cpp
@@ -118,7 +118,7 @@ void write_file (const unsigned char *output_contents, int output_len, const cha
 
 	//get the type from the extension of the output filename
 	for (i = strlen (output_filename); output_filename[i] != '.' && i; i--);
-	if (i != 0) {
+	if (i != 0 && strpbrk (output_filename + i, "/\\") == NULL) {
 		const char *ext = output_filename + i + 1;
 
 		int type;
diff --git a/utils.cpp b/utils.cpp
index a8cf97e..21ff3b5 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -782,7 +782,8 @@ char *change_extension (const char *filename, const char *ext) {
 	strcpy(new_fn, filename);
 	
 	dot = strrchr(new_fn, '.');
-	if (dot != NULL) *dot = '\0';
+	//a dot in the name of a directory begins no extension
+	if (dot != NULL && strpbrk(dot, "/\\") == NULL) *dot = '\0';
 		
 	strcat(new_fn, ".");
 	return strcat(new_fn, ext);
-- 
2.43.0


From 86f29041b2035aa16b4ff148c07fc0edb0f2c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:51 +0000
Subject: [PATCH 52/66] fix: accept files of fewer characters than a UTF-8
 marker

---
 utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 21ff3b5..562729d 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -731,10 +731,8 @@ char *get_file_contents (const char *filename) {
 	bool matched = true;
 	for (unsigned i = 0; matched && i < sizeof(utf8_endian_mark); i++) {
 		int c = fgetc(file);
-		if (c == EOF) {
-			return NULL;
-		}
-		matched &= (unsigned char)c == utf8_endian_mark[i];
+		//a file may be shorter than the marker, or even empty
+		matched &= c != EOF && (unsigned char)c == utf8_endian_mark[i];
 	}
 	if (matched) {
 		size -= sizeof(utf8_endian_mark);
-- 
2.43.0


From 3679cde70aa9b326c27c3fcbc64e7ec0235f9bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 53/66] fix: report faulty bit numbers even if no output is
 written

---
 pass_one.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass_one.cpp b/pass_one.cpp
index ab6bb32..2efe334 100644
--- a/pass_one.cpp
+++ b/pass_one.cpp
@@ -772,7 +772,7 @@ int write_instruction_data (instr *curr_instr, char **arg_ptrs, char **arg_end_p
 	}
 
 	//if there's extra data at the end of the instruction, write that too
-	if (curr_instr->has_end_data && (mode & MODE_NORMAL || mode & MODE_LIST)) {
+	if (curr_instr->has_end_data) {
 		if (has_bit_arg)
 			add_pass_two_expr (bit_arg_text, ARG_BIT_NUM, size, curr_instr->end_data);
 		else
-- 
2.43.0


From 001a6b789a86561b4a431e109168f80065ea0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:01 +0000
Subject: [PATCH 54/66] fix: getc() read its index from before the comma, so it
 always failed

---
 parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.cpp b/parser.cpp
index 7e5063f..259fa81 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -357,6 +357,7 @@ static const char *parse_single_num (const char *expr, int *value) {
 
 						expr++;
 						read_expr(&expr, filename, ",");
+						if (*expr == ',') expr++;
 
 						// Is the filename given a macro?
 						if ((define = search_defines (filename)))
-- 
2.43.0


From 4e554ccae0717a3261521343583a77d1abf53046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 55/66] fix: getc() next to a forward reference became 0

---
 utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils.cpp b/utils.cpp
index 562729d..7a73437 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -916,8 +916,12 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 		if (name_len > 0) {
 			name = strndup (expr, name_len);
 			
+			//getc() is evaluated with the rest, its define has no part in that
+			if (!strcasecmp (name, "getc")) {
+				eb_append (new_expr, name, name_len);
+				expr += name_len;
 			//if it's a define, recursively expand its contents
-			if ((define = search_defines (name, search_local)) && define->contents != NULL) {
+			} else if ((define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
 
 				if (define->num_args > 0) {
-- 
2.43.0


From 68fd4cf03a5824459bd1c34000f84f308374d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 56/66] fix: redefining a define that names itself no longer
 expands every define in it

---
 utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils.cpp b/utils.cpp
index 7a73437..5be6fe7 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -920,8 +920,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			if (!strcasecmp (name, "getc")) {
 				eb_append (new_expr, name, name_len);
 				expr += name_len;
-			//if it's a define, recursively expand its contents
-			} else if ((define = search_defines (name, search_local)) && define->contents != NULL) {
+			//if it's a define, recursively expand its contents (not those of the
+			//name of a define that is being redefined, it can only be that name)
+			} else if ((values || depth == 0) && (define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
 
 				if (define->num_args > 0) {
-- 
2.43.0


From 18ef508030dbac16abe606d876eec75fee36f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:15 +0000
Subject: [PATCH 57/66] fix: a faulty target of .echo no longer ends the file,
 or the assembler

---
 directive.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index 966f3b0..7b49959 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -257,13 +257,13 @@ addinstr_fail:
 				ptr = skip_whitespace (ptr + 1);
 				if (is_end_of_code_line (ptr)) {
 					SetLastSPASMError(SPASM_ERR_FILENAME_EXPECTED);
-					return NULL;
+					return (char *) ptr;
 				}
 
 				read_expr (&ptr, filename, " \t");
 
 				// Is the filename given a macro?
-				if ((define = search_defines (filename)))
+				if ((define = search_defines (filename)) && define->contents != NULL)
 					strncpy (filename, skip_whitespace(define->contents), sizeof (filename));
 					
 				reduce_string(filename);
@@ -278,7 +278,7 @@ addinstr_fail:
 				echo_target = fopen (fix_filename (temp_filename), target_format);
 				if (echo_target == NULL) {
 					SetLastSPASMError(SPASM_ERR_NO_ACCESS, filename);
-					return NULL;
+					return (char *) skip_to_code_line_end (ptr);
 				}
 
 				//if the output's redirected to a file, process it now
-- 
2.43.0


From 5e0a1bb41f8c6a296e29daa68902c5218642174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 58/66] fix: a macro's value taken within an #if left the #if
 open

---
 parser.cpp | 4 ++++
 preop.cpp  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index 259fa81..60474ed 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -90,6 +90,7 @@ extern int line_num;
 extern bool error_occurred;
 extern bool pass_one;
 extern unsigned int program_counter;
+extern int nIfLevel;
 
 static const char *parse_single_num (const char *expr, int *value);
 static const char *parse_num_full (const char *expr, int *value, int depth);
@@ -159,6 +160,8 @@ char *parse_define (define_t *define)
 {
 	char *curr_line = define->contents;
 	char *lpszResult = NULL;
+	//the value may stand within #ifs, which end with it
+	int old_if_level = nIfLevel;
 
 	while (curr_line != NULL && *curr_line && !error_occurred) {
 		char *next_line = curr_line;
@@ -178,6 +181,7 @@ char *parse_define (define_t *define)
 		line_num++;
 	}
 
+	nIfLevel = old_if_level;
 	return lpszResult;
 }
 
diff --git a/preop.cpp b/preop.cpp
index 83dd303..8ce80f8 100644
--- a/preop.cpp
+++ b/preop.cpp
@@ -21,7 +21,7 @@ static char *close_skipped_if (char *ptr);
 
 extern bool case_sensitive;
 static define_t *last_define = NULL;
-static int nIfLevel = 0;
+int nIfLevel = 0;
 static bool fInMacro = false;
 
 /*
-- 
2.43.0


From 410db7b50eff98e677b328937b9dc164dd1a8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 59/66] fix: problems of an #if in a macro's value were told
 twice, or not at all

---
 directive.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/directive.cpp b/directive.cpp
index 7b49959..f48702c 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -705,8 +705,18 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					if (!name_end)
 						return (char *) ptr;
 					
+					// what's wrong with its preops is already known from evaluating it
+					int define_session = StartSPASMErrorSession();
 					expr = parse_define (define);
-					if (expr != NULL)
+					bool is_faulty = IsSPASMErrorSessionFatal(define_session);
+					EndSPASMErrorSession(define_session);
+
+					if (is_faulty || (expr == NULL && define->contents != NULL))
+					{
+						ReplaySPASMErrorSession(session);
+						free (expr);
+					}
+					else if (expr != NULL)
 					{
 						arg_context_t nested_context = ARG_CONTEXT_INITIALIZER;
 
-- 
2.43.0


From 5b9be3d2f8bc49009b4c33d6ebf8333ebe4209d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:02 +0000
Subject: [PATCH 60/66] fix: a macro's value could not stand next to a forward
 reference

---
 parser.cpp |  2 +-
 utils.cpp  | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/parser.cpp b/parser.cpp
index 60474ed..b6f284b 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -173,7 +173,7 @@ char *parse_define (define_t *define)
 		else if (is_end_of_code_line(curr_line) == false)
 		{
 			//otherwise, it must be a value, so return that
-			lpszResult = strndup(curr_line, skip_to_code_line_end(curr_line) - curr_line);
+			lpszResult = strndup(curr_line, next_expr(curr_line, "") - curr_line);
 			break;
 		}
 
diff --git a/utils.cpp b/utils.cpp
index 5be6fe7..cc55758 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -834,8 +834,19 @@ static void expand_define (define_t *define, expand_buf *new_expr, int depth, bo
 	if (values) {
 		int value;
 
+		//the value of a macro is that of one of its lines
 		int session = StartSPASMErrorSession();
-		bool is_known = parse_num (define->contents, &value);
+		int old_line_num = line_num;
+		char *contents = parse_define (define);
+		line_num = old_line_num;
+		if (contents == NULL || GetSPASMErrorSessionErrorCount(session) > 0) {
+			free (contents);
+			contents = strdup (define->contents);
+		}
+		EndSPASMErrorSession(session);
+
+		session = StartSPASMErrorSession();
+		bool is_known = parse_num (contents, &value);
 		bool is_value = is_known || !IsSPASMErrorSessionFatal(session);
 		bool is_endless = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
 		EndSPASMErrorSession(session);
@@ -845,18 +856,22 @@ static void expand_define (define_t *define, expand_buf *new_expr, int depth, bo
 			eb_append (new_expr, "(", 1);
 			eb_append (new_expr, define->contents, -1);
 			eb_append (new_expr, ")", 1);
+			free (contents);
 			return;
 		}
 
 		if (is_known) {
 			append_value (new_expr, value, true);
+			free (contents);
 			return;
 		} else if (is_value) {
 			eb_append (new_expr, "(", 1);
-			expand_expr_full (define->contents, new_expr, depth + 1, search_local, values);
+			expand_expr_full (contents, new_expr, depth + 1, search_local, values);
 			eb_append (new_expr, ")", 1);
+			free (contents);
 			return;
 		}
+		free (contents);
 	}
 
 	expand_expr_full (define->contents, new_expr, depth + 1, search_local, values);
-- 
2.43.0


From f145fb128b306864ac6bfa2ea50fade4a4496a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:16 +0000
Subject: [PATCH 61/66] fix: diagnostics after the use of a macro's value named
 a wrong line

---
 directive.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/directive.cpp b/directive.cpp
index f48702c..bd74d10 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -707,7 +707,9 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					
 					// what's wrong with its preops is already known from evaluating it
 					int define_session = StartSPASMErrorSession();
+					int old_line_num = line_num;
 					expr = parse_define (define);
+					line_num = old_line_num;
 					bool is_faulty = IsSPASMErrorSessionFatal(define_session);
 					EndSPASMErrorSession(define_session);
 
-- 
2.43.0


From 45b1c1265eba20ae5e8f7eec836f6a8880042957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:43 +0000
Subject: [PATCH 62/66] fix: a macro whose value is not its first line was
 taken for a list when it used a forward reference

---
 directive.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index bd74d10..fbcd967 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -524,11 +524,12 @@ void show_define (define_t *define) {
  */
 static bool is_list_define (const char *word) {
 	char name[256];
-	char *name_end = (char *) word;
+	char *name_end = (char *) word, *args_start;
 	const char *contents;
 	define_t *define;
 
 	read_expr (&name_end, name, "(");
+	args_start = name_end;
 	if (*name_end == '(') {
 		name_end++;
 		read_expr (&name_end, NULL, ")");
@@ -542,8 +543,26 @@ static bool is_list_define (const char *word) {
 
 	arg_context_t context = ARG_CONTEXT_INITIALIZER;
 	contents = define->contents;
-	return extract_arg_string (&contents, &context) != NULL
-		&& extract_arg_string (&contents, &context) != NULL;
+	if (strchr (contents, '\n') == NULL)
+		return extract_arg_string (&contents, &context) != NULL
+			&& extract_arg_string (&contents, &context) != NULL;
+
+	//the value of a macro is one of its lines
+	int session = StartSPASMErrorSession();
+	int old_line_num = line_num;
+	list_t *args = NULL;
+	char *value = NULL;
+	bool is_list = false;
+	if (parse_args (args_start, define, &args) && (value = parse_define (define)) != NULL) {
+		contents = value;
+		is_list = extract_arg_string (&contents, &context) != NULL
+			&& extract_arg_string (&contents, &context) != NULL;
+		free (value);
+	}
+	remove_arg_set (args);
+	line_num = old_line_num;
+	EndSPASMErrorSession(session);
+	return is_list;
 }
 
 char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
-- 
2.43.0


From 56ad3bd0f05c4af9c319fd955b126925ed0bb6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:24 +0000
Subject: [PATCH 63/66] fix: the text of an echo with a forward reference took
 a list, or a macro without a value, for something else

---
 directive.cpp | 18 +++++++-----------
 utils.cpp     | 38 ++++++++++++++++++++++++++++----------
 utils.h       |  1 +
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index fbcd967..f725bcb 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -525,7 +525,6 @@ void show_define (define_t *define) {
 static bool is_list_define (const char *word) {
 	char name[256];
 	char *name_end = (char *) word, *args_start;
-	const char *contents;
 	define_t *define;
 
 	read_expr (&name_end, name, "(");
@@ -541,28 +540,23 @@ static bool is_list_define (const char *word) {
 	if ((define = search_defines (name)) == NULL || define->contents == NULL)
 		return false;
 
-	arg_context_t context = ARG_CONTEXT_INITIALIZER;
-	contents = define->contents;
-	if (strchr (contents, '\n') == NULL)
-		return extract_arg_string (&contents, &context) != NULL
-			&& extract_arg_string (&contents, &context) != NULL;
+	if (strchr (define->contents, '\n') == NULL)
+		return is_list (define->contents);
 
 	//the value of a macro is one of its lines
 	int session = StartSPASMErrorSession();
 	int old_line_num = line_num;
 	list_t *args = NULL;
 	char *value = NULL;
-	bool is_list = false;
+	bool has_list = false;
 	if (parse_args (args_start, define, &args) && (value = parse_define (define)) != NULL) {
-		contents = value;
-		is_list = extract_arg_string (&contents, &context) != NULL
-			&& extract_arg_string (&contents, &context) != NULL;
+		has_list = is_list (value);
 		free (value);
 	}
 	remove_arg_set (args);
 	line_num = old_line_num;
 	EndSPASMErrorSession(session);
-	return is_list;
+	return has_list;
 }
 
 char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
@@ -734,6 +728,8 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 
 					if (is_faulty || (expr == NULL && define->contents != NULL))
 					{
+						if (type == ES_ECHO && echo_target != NULL)
+							fprintf ((FILE *) echo_target, "(error)");
 						ReplaySPASMErrorSession(session);
 						free (expr);
 					}
diff --git a/utils.cpp b/utils.cpp
index cc55758..854478b 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -825,29 +825,41 @@ static void append_value (expand_buf *new_expr, int value, bool in_parens) {
 	eb_append (new_expr, buf, -1);
 }
 
+/*
+ * Tells whether there is more than one item in a text
+ */
+
+bool is_list (const char *contents) {
+	arg_context_t context = ARG_CONTEXT_INITIALIZER;
+
+	return extract_arg_string (&contents, &context) != NULL
+		&& extract_arg_string (&contents, &context) != NULL;
+}
+
 /*
  * Expands the contents of a define in an expression,
  * keeping it a single value if it can be one
  */
 
-static void expand_define (define_t *define, expand_buf *new_expr, int depth, bool search_local, bool values) {
+static bool expand_define (define_t *define, expand_buf *new_expr, int depth, bool search_local, bool values) {
 	if (values) {
 		int value;
 
-		//the value of a macro is that of one of its lines
+		//the value of a macro is that of one of its lines, if it has one
 		int session = StartSPASMErrorSession();
 		int old_line_num = line_num;
 		char *contents = parse_define (define);
 		line_num = old_line_num;
-		if (contents == NULL || GetSPASMErrorSessionErrorCount(session) > 0) {
+		bool is_faulty = contents == NULL || GetSPASMErrorSessionErrorCount(session) > 0;
+		EndSPASMErrorSession(session);
+		if (is_faulty) {
 			free (contents);
-			contents = strdup (define->contents);
+			return false;
 		}
-		EndSPASMErrorSession(session);
 
 		session = StartSPASMErrorSession();
 		bool is_known = parse_num (contents, &value);
-		bool is_value = is_known || !IsSPASMErrorSessionFatal(session);
+		bool is_value = is_known || !(IsSPASMErrorSessionFatal(session) || is_list (contents));
 		bool is_endless = IsErrorInSPASMErrorSession(session, SPASM_ERR_EXCEEDED_RECURSION_LIMIT);
 		EndSPASMErrorSession(session);
 
@@ -857,24 +869,27 @@ static void expand_define (define_t *define, expand_buf *new_expr, int depth, bo
 			eb_append (new_expr, define->contents, -1);
 			eb_append (new_expr, ")", 1);
 			free (contents);
-			return;
+			return true;
 		}
 
 		if (is_known) {
 			append_value (new_expr, value, true);
 			free (contents);
-			return;
+			return true;
 		} else if (is_value) {
 			eb_append (new_expr, "(", 1);
 			expand_expr_full (contents, new_expr, depth + 1, search_local, values);
 			eb_append (new_expr, ")", 1);
 			free (contents);
-			return;
+			return true;
 		}
+		expand_expr_full (contents, new_expr, depth + 1, search_local, values);
 		free (contents);
+		return true;
 	}
 
 	expand_expr_full (define->contents, new_expr, depth + 1, search_local, values);
+	return true;
 }
 
 static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth, bool search_local, bool values) {
@@ -940,6 +955,7 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 			} else if ((values || depth == 0) && (define = search_defines (name, search_local)) && define->contents != NULL) {
 				list_t *args = NULL;
 
+				block_start = expr;
 				if (define->num_args > 0) {
 					expr = parse_args (expr + name_len, define, &args);
 					if (!expr) {
@@ -949,7 +965,9 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				} else {
 					expr += name_len;
 				}
-				expand_define (define, new_expr, depth, search_local, values);
+				//what has no value stays as it is, so that evaluating it reports the problem
+				if (!expand_define (define, new_expr, depth, search_local, values))
+					eb_append (new_expr, block_start, expr - block_start);
 				remove_arg_set (args);
 				if (error_occurred) {
 					free(name);
diff --git a/utils.h b/utils.h
index f74038c..1537312 100644
--- a/utils.h
+++ b/utils.h
@@ -27,6 +27,7 @@ char *next_expr (const char *ptr, const char *delims);
 #define read_expr(ptr, word, delims) (read_expr_impl((const char ** const) ptr, word, delims))
 bool read_expr_impl(__inout const char ** const ptr, char word[256], const char *delims);
 char *extract_arg_string(const char ** const ptr, arg_context_t *context);
+bool is_list (const char *contents);
 char *parse_args (const char *ptr, define_t *define, list_t **arg_local_labels);
 char *replace_literal_args (const char *ptr, define_t *define, list_t **curr_arg_set);
 bool line_has_word (char *ptr, const char *word, int word_len);
-- 
2.43.0


From 44b8390f33049e2d5670a8696c7fb9730b2035ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:23 +0000
Subject: [PATCH 64/66] fix: a file a macro includes was read when the macro
 was taken for its value (by -L, for one)

---
 parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.cpp b/parser.cpp
index b6f284b..703d80a 100644
--- a/parser.cpp
+++ b/parser.cpp
@@ -168,7 +168,9 @@ char *parse_define (define_t *define)
 		curr_line = skip_whitespace(curr_line);
 		if (*curr_line == '#')
 		{
-			next_line = handle_preop(curr_line + 1);
+			//other files are for when the macro is run, they can't change its value
+			if (strncasecmp (curr_line + 1, "include", 7) && strncasecmp (curr_line + 1, "import", 6))
+				next_line = handle_preop(curr_line + 1);
 		}
 		else if (is_end_of_code_line(curr_line) == false)
 		{
-- 
2.43.0


From 9d843713ab097fe47a0fee3432399fd93e9014f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:30 +0000
Subject: [PATCH 65/66] fix: a use of a define whose arguments nest too deeply
 was dropped, and every later error with it

---
 directive.cpp | 16 ++++++++++++++--
 utils.cpp     | 11 ++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/directive.cpp b/directive.cpp
index f725bcb..f5515a9 100644
--- a/directive.cpp
+++ b/directive.cpp
@@ -714,9 +714,21 @@ char *parse_emit_string (const char *ptr, ES_TYPE type, void *echo_target) {
 					}
 					
 					if (*(name_end - 1) == '(') name_end--;
+					int args_session = StartSPASMErrorSession();
 					name_end = parse_args (name_end, define, &args);
-					if (!name_end)
-						return (char *) ptr;
+					if (name_end != NULL)
+						ReplaySPASMErrorSession(args_session);
+					EndSPASMErrorSession(args_session);
+
+					if (name_end == NULL)
+					{
+						// what's wrong with its arguments is already known from evaluating it
+						if (type == ES_ECHO && echo_target != NULL)
+							fprintf ((FILE *) echo_target, "(error)");
+						ReplaySPASMErrorSession(session);
+						EndSPASMErrorSession(session);
+						continue;
+					}
 					
 					// what's wrong with its preops is already known from evaluating it
 					int define_session = StartSPASMErrorSession();
diff --git a/utils.cpp b/utils.cpp
index 854478b..44f253e 100644
--- a/utils.cpp
+++ b/utils.cpp
@@ -958,9 +958,18 @@ static void expand_expr_full (const char *expr, expand_buf *new_expr, int depth,
 				block_start = expr;
 				if (define->num_args > 0) {
 					expr = parse_args (expr + name_len, define, &args);
+					//neither has what its arguments have no value for
 					if (!expr) {
+						expr = block_start + name_len;
+						if (*expr == '(') {
+							expr++;
+							read_expr (&expr, NULL, ")");
+							if (*expr == ')')
+								expr++;
+						}
+						eb_append (new_expr, block_start, expr - block_start);
 						free (name);
-						return;
+						continue;
 					}
 				} else {
 					expr += name_len;
-- 
2.43.0


From 1b31a344beabedff4e9f8024b6ed98d6c500cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:41 +0000
Subject: [PATCH 66/66] fix: adc a,l was counted with 7 cycles on the eZ80

---
 opcodes_ez80.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opcodes_ez80.cpp b/opcodes_ez80.cpp
index ac17aa6..ea47781 100644
--- a/opcodes_ez80.cpp
+++ b/opcodes_ez80.cpp
@@ -388,7 +388,7 @@ static instr adc_instrs[] = {
 		{ "A,D", { 0x8A }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,E", { 0x8B }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,H", { 0x8C }, 1, 1, 1, false, 0x00, 1, 0 },
-		{ "A,L", { 0x8D }, 1, 7, 7, false, 0x00, 1, 0 },
+		{ "A,L", { 0x8D }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,(HL)", { 0x8E }, 1, 2, 2, false, 0x00, 1, 0 },
 		{ "A,A", { 0x8F }, 1, 1, 1, false, 0x00, 1, 0 },
 		{ "A,&", { 0xCE }, 1, 2, 2, false, 0x00, 2, 0 },
-- 
2.43.0

