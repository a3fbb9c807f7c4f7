From 9b45acf9941370e4423abb8235f326149e723283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 01/70] fix: string measurement buffer too small for tabs and
 other zero-width-counted characters

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..e6acb26 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -90,7 +90,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     bxstr_t *result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
-    size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    size_t ascii_len = 2 * result->num_chars + 1;    /* no character occupies more than two columns */
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From 6d432b4a925ef686a69892326a04f82459822967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 02/70] fix: character after an incomplete escape sequence was
 skipped when measuring strings

---
 src/unicode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..8b3f16f 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -195,6 +195,9 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
                 break;
             }
         } else {
+            if (ansipos > 0) {
+                rest--;  /* incomplete escape sequence: this char is not part of it, so it must not be skipped */
+            }
             break;
         }
     }
-- 
2.43.0


From 6ac544989951f54c03c805d91254a6e6f9beaff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 03/70] fix: u32_insert_space_at() left the resulting string
 unterminated

---
 src/unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unicode.c b/src/unicode.c
index 8b3f16f..2478c86 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -357,7 +357,7 @@ void u32_insert_space_at(uint32_t **s, const size_t idx, const size_t n)
     }
 
     *s = (uint32_t *) realloc(*s, (len + 1 + n) * sizeof(uint32_t));
-    u32_move(*s + x + n, *s + x, len - x);
+    u32_move(*s + x + n, *s + x, len - x + 1);    /* including the terminating zero */
     u32_set(*s + x, char_space, n);
 }
 
-- 
2.43.0


From 4ec3a7774eec4249a312e5abb005ad0b630e474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 04/70] fix: illegal characters in input or substitution result
 led to a null pointer dereference

---
 src/input.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index 1442d6e..4427ca5 100644
--- a/src/input.c
+++ b/src/input.c
@@ -157,8 +157,13 @@ int apply_substitutions(input_t *result, const int mode)
                 return 1;
             }
 
+            bxstr_t *replaced = bxs_from_unicode(newtext);
+            BFREE(newtext);
+            if (replaced == NULL) {
+                return 1;    /* illegal character, has already been reported */
+            }
             bxs_free(result->lines[k].text);
-            result->lines[k].text = bxs_from_unicode(newtext);
+            result->lines[k].text = replaced;
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
@@ -254,6 +259,10 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(result->lines);    /* illegal character, has already been reported */
+                return NULL;
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From 531f82db77b46bdbc618a51e0a12da6f195214fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/70] fix: illegal character in a config file string led to a
 null pointer dereference

---
 src/lexer.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..4b9e47e 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -188,6 +188,9 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
+            if (yylval->s == NULL) {
+                return YUNREC;           /* illegal character, has already been reported */
+            }
             return STRING;
         }
         --rest_len;
-- 
2.43.0


From 66de10abf947eef7a1d9177d0605743e7e2e53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 06/70] fix: endless loop when opposite sides can never reach
 the same length

---
 src/generate.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..736a9a7 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -58,6 +58,7 @@ static int horiz_precalc(const sentry_t *sarr,
     int i;
     size_t target_width;      /* assumed text width for minimum box size */
     int btoggle, ttoggle;     /* for case 3 w/ 2 elastics */
+    size_t tsum, bsum;        /* sum of the widths of all shapes, excluding corners */
 
     /*
      *  Initialize future result values
@@ -84,12 +85,16 @@ static int horiz_precalc(const sentry_t *sarr,
      */
     tnumsh = 0;
     bnumsh = 0;
+    tsum = 0;
+    bsum = 0;
     for (i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
         if (!isempty(sarr + north_side[i])) {
             tnumsh++;
+            tsum += sarr[north_side[i]].width;
         }
         if (!isempty(sarr + south_side[i])) {
             bnumsh++;
+            bsum += sarr[south_side[i]].width;
         }
     }
 
@@ -216,6 +221,14 @@ static int horiz_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in horiz_precalc()\n", PROJECT);
                 return 1;
         }
+
+        /*
+         *  The growth of both sides is periodic. If they don't meet within one common period, they never will.
+         */
+        if (twidth > target_width + tsum + bsum + tsum * bsum) {
+            bx_fprintf(stderr, "%s: shapes on top and bottom side cannot be repeated to the same width\n", PROJECT);
+            return 1;
+        }
     } while (twidth != bwidth || twidth < target_width || bwidth < target_width);
 
     *hspace = twidth;                    /* return either one */
@@ -249,6 +262,7 @@ static int vert_precalc(const sentry_t *sarr,
     int i;
     size_t target_height;     /* assumed text height for minimum box size */
     int rtoggle, ltoggle;     /* for case 3 w/ 2 elastics */
+    size_t lsum, rsum;        /* sum of the heights of all shapes, excluding corners */
 
     /*
      *  Initialize future result values
@@ -275,12 +289,16 @@ static int vert_precalc(const sentry_t *sarr,
      */
     lnumsh = 0;
     rnumsh = 0;
+    lsum = 0;
+    rsum = 0;
     for (i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
         if (!isempty(sarr + west_side[i])) {
             lnumsh++;
+            lsum += sarr[west_side[i]].height;
         }
         if (!isempty(sarr + east_side[i])) {
             rnumsh++;
+            rsum += sarr[east_side[i]].height;
         }
     }
 
@@ -400,6 +418,14 @@ static int vert_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in vert_precalc()\n", PROJECT);
                 return 1;
         }
+
+        /*
+         *  The growth of both sides is periodic. If they don't meet within one common period, they never will.
+         */
+        if (lheight > target_height + lsum + rsum + lsum * rsum) {
+            bx_fprintf(stderr, "%s: shapes on left and right side cannot be repeated to the same height\n", PROJECT);
+            return 1;
+        }
     } while (lheight != rheight || lheight < target_height || rheight < target_height);
 
     *vspace = lheight;                   /* return either one */
-- 
2.43.0


From bb4488550e0d458704486a9fe9fd59c3115b7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 07/70] fix: integer overflow on large padding values

---
 src/boxes.c   | 4 ++--
 src/cmdline.c | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..838dab4 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -309,7 +309,7 @@ static void adjust_size_and_padding()
         }
     }
 
-    size_t pad = opt.design->padding[BTOP] + opt.design->padding[BBOT];
+    size_t pad = (size_t) opt.design->padding[BTOP] + (size_t) opt.design->padding[BBOT];
     if (pad > 0) {
         pad += input.num_lines;
         pad += opt.design->shape[NW].height + opt.design->shape[SW].height;
@@ -331,7 +331,7 @@ static void adjust_size_and_padding()
         }
     }
 
-    pad = opt.design->padding[BLEF] + opt.design->padding[BRIG];
+    pad = (size_t) opt.design->padding[BLEF] + (size_t) opt.design->padding[BRIG];
     if (pad > 0) {
         pad += input.maxline;
         pad += opt.design->shape[NW].width + opt.design->shape[NE].width;
diff --git a/src/cmdline.c b/src/cmdline.c
index 2f98398..47e6891 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -20,6 +20,7 @@
 #include "config.h"
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <strings.h>
@@ -371,11 +372,12 @@ static int padding(opt_t *result, char *optarg)
         }
         char c = *p;
         errno = 0;
-        int size = (int) strtol(p + 1, &p, 10);
-        if (errno || size < 0) {
+        long size_parsed = strtol(p + 1, &p, 10);
+        if (errno || size_parsed < 0 || size_parsed > INT_MAX) {
             errfl = 1;
             break;
         }
+        int size = (int) size_parsed;
         switch (c) {
             case 'a': case 'A':
                 result->padding[BTOP] = size;
-- 
2.43.0


From cb2e0efcdab63f2ed09241442b7b177c72bec6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 08/70] fix: buffer overflow and null pointer dereference on
 command line design definition

---
 src/boxes.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 838dab4..490af58 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,10 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (!bxs_valid_in_shape(cldW, NULL) || cldW->num_columns == 0) {
+        fprintf(stderr, "%s: invalid command line design definition\n", PROJECT);
+        return 1;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
@@ -122,7 +126,7 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    strcpy(dp->shape[W].chars[0], cldW->ascii);
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 1a303f15593033adc4154f6fa8e854a491acf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 09/70] fix: NULL strings are documented as invalid but led to
 a null pointer dereference

---
 src/bxstring.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index e6acb26..141a5d9 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -681,21 +681,21 @@ int bxs_valid_anywhere(bxstr_t *pString, size_t *error_pos)
 
 int bxs_valid_in_shape(bxstr_t *pString, size_t *error_pos)
 {
-    return pString->num_chars_visible > 0 && bxs_valid_in_context(pString, error_pos, &is_allowed_in_shape);
+    return pString != NULL && pString->num_chars_visible > 0 && bxs_valid_in_context(pString, error_pos, &is_allowed_in_shape);
 }
 
 
 
 int bxs_valid_in_sample(bxstr_t *pString, size_t *error_pos)
 {
-    return pString->num_chars_visible > 0 && bxs_valid_in_context(pString, error_pos, &is_allowed_in_sample);
+    return pString != NULL && pString->num_chars_visible > 0 && bxs_valid_in_context(pString, error_pos, &is_allowed_in_sample);
 }
 
 
 
 int bxs_valid_in_filename(bxstr_t *pString, size_t *error_pos)
 {
-    return pString->num_chars_visible > 0 && pString->num_chars_invisible == 0
+    return pString != NULL && pString->num_chars_visible > 0 && pString->num_chars_invisible == 0
             && bxs_valid_in_context(pString, error_pos, &is_allowed_in_filename);
 }
 
-- 
2.43.0


From 320b153b0955483e5564778f6ec4074327dfc6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 10/70] fix: memory corruption when the same lines match both
 top and bottom side of a box

---
 src/remove.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 3081894..8a595f4 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1147,6 +1147,11 @@ int remove_box()
     }
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
+    if (ctx->bottom_start_idx < ctx->top_end_idx) {
+        /* lines which match both sides were already attributed to the top side */
+        ctx->bottom_start_idx = ctx->top_end_idx;
+        ctx->bottom_end_idx = BMAX(ctx->bottom_end_idx, ctx->top_end_idx);
+    }
     if (ctx->bottom_start_idx > ctx->top_end_idx) {
         ctx->body_num_lines = ctx->bottom_start_idx - ctx->top_end_idx;
     }
-- 
2.43.0


From 726f637175c2a0932c6f44f3bfc9b63b5372efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 11/70] fix: null pointer dereference when left and right side
 overlap in a body line

---
 src/remove.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 8a595f4..631169a 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1018,6 +1018,9 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
         size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        if (e_idx < s_idx) {
+            e_idx = s_idx;    /* west and east shape overlap, so there is no text in between */
+        }
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
-- 
2.43.0


From 0aff0257bf163d62fe6a4bc89667059d6025bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 12/70] fix: access before start of buffer on removal when a
 line has no characters but its line break

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 4427ca5..1b336cc 100644
--- a/src/input.c
+++ b/src/input.c
@@ -201,11 +201,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0


From de61eb0aa647b85ce97dd597fab6bb2a01394d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 13/70] fix: command line settings were applied to the wrong
 design when the design is autodetected

On mending with autodetection, the minimum size of the first design in the config file was assigned to the detected
design, which led to an endless loop when it was smaller than the detected design's corners. Also, indent mode,
padding, and the default for blank line removal were those of the first design, and -s influenced removal.
---
 src/boxes.c  | 36 ++++++++++++++++++++----------------
 src/remove.c |  8 +-------
 src/remove.h |  7 +++++++
 3 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 490af58..203461f 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -302,17 +302,28 @@ static void handle_input()
 
 
 /**
- * Adjust box size to fit requested padding value.
- * Command line-specified box size takes precedence over padding.
+ * Apply those command line settings to the current design which override values from the design definition.
  */
-static void adjust_size_and_padding()
+static void apply_design_overrides()
 {
+    if (opt.indentmode) {
+        opt.design->indentmode = opt.indentmode;
+    }
     for (int i = 0; i < NUM_SIDES; ++i) {
         if (opt.padding[i] > -1) {
             opt.design->padding[i] = opt.padding[i];
         }
     }
+}
+
+
 
+/**
+ * Adjust box size to fit requested padding value.
+ * Command line-specified box size takes precedence over padding.
+ */
+static void adjust_size_and_padding()
+{
     size_t pad = (size_t) opt.design->padding[BTOP] + (size_t) opt.design->padding[BBOT];
     if (pad > 0) {
         pad += input.num_lines;
@@ -388,6 +399,9 @@ static void handle_remove_box()
 {
     log_debug(__FILE__, MAIN, "Removing Box ...\n");
 
+    detect_design_if_needed();
+    apply_design_overrides();
+
     if (opt.killblank == -1) {
         if (empty_side(opt.design->shape, BTOP) && empty_side(opt.design->shape, BBOT)) {
             opt.killblank = 0;
@@ -507,8 +521,6 @@ void enable_ansi_mode() {
 int main(int argc, char *argv[])
 {
     int rc;                           /* general return code */
-    int saved_designwidth;            /* opt.design->minwith backup, used for mending */
-    int saved_designheight;           /* opt.design->minheight backup, used for mending */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -537,29 +549,21 @@ int main(int argc, char *argv[])
         exit(rc);
     }
 
-    apply_expected_size();
-    if (opt.indentmode) {
-        opt.design->indentmode = opt.indentmode;
-    }
-    saved_designwidth = opt.design->minwidth;
-    saved_designheight = opt.design->minheight;
-
     do {
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
             opt.r = 0;        /* opt.mend == 2: remove box          */
         }
         --opt.mend;           /* opt.mend == 1: add it back         */
-        opt.design->minwidth = saved_designwidth;
-        opt.design->minheight = saved_designheight;
 
+        apply_design_overrides();
         handle_input();
 
-        adjust_size_and_padding();
-
         if (opt.r) {
             handle_remove_box();
         }
         else {
+            apply_expected_size();
+            adjust_size_and_padding();
             handle_generate_box();
         }
     } while (opt.mend > 0);
diff --git a/src/remove.c b/src/remove.c
index 631169a..556882d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -861,11 +861,7 @@ static void find_vertical_shapes(remove_ctx_t *ctx)
 
 
 
-/**
- * If the user didn't specify a design to remove, autodetect it.
- * Since this requires knowledge of all available designs, the entire config file had to be parsed (earlier).
- */
-static void detect_design_if_needed()
+void detect_design_if_needed()
 {
     if (opt.design_choice_by_user == 0) {
         design_t *tmp = autodetect_design();
@@ -1114,8 +1110,6 @@ static void apply_results_to_input(remove_ctx_t *ctx)
 
 int remove_box()
 {
-    detect_design_if_needed();
-
     remove_ctx_t *ctx = (remove_ctx_t *) calloc(1, sizeof(remove_ctx_t));
     ctx->empty_side[BTOP] = empty_side(opt.design->shape, BTOP);
     ctx->empty_side[BRIG] = empty_side(opt.design->shape, BRIG);
diff --git a/src/remove.h b/src/remove.h
index c0126f4..d34fe65 100644
--- a/src/remove.h
+++ b/src/remove.h
@@ -52,6 +52,13 @@ typedef struct _shape_line_ctx_t {
 
 
 
+/**
+ * If the user didn't specify a design to remove, autodetect it.
+ * Since this requires knowledge of all available designs, the entire config file had to be parsed (earlier).
+ */
+void detect_design_if_needed();
+
+
 /**
  * Remove box from input.
  * @return == 0: success;
-- 
2.43.0


From 9847db5f79bbdb93521fdb0f8dc35b58958f218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 14/70] fix: buffer overflow on debug log messages longer than
 1023 bytes

---
 src/logging.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index cc3d30d..48ecb6f 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -118,13 +118,34 @@ int is_debug_activated()
 
 
 
+/**
+ * Format a log message, which may be arbitrarily long (e.g. because it contains an input line).
+ * @param format the format string
+ * @param va the arguments
+ * @return the message in new memory
+ */
+static char *format_message(const char *format, va_list va)
+{
+    va_list va_len;
+    va_copy(va_len, va);
+    int len = vsnprintf(NULL, 0, format, va_len);
+    va_end(va_len);
+
+    char *msg = (char *) calloc(len > 0 ? (size_t) len + 1 : 1, sizeof(char));
+    if (msg != NULL && len > 0) {
+        vsnprintf(msg, (size_t) len + 1, format, va);
+    }
+    return msg;
+}
+
+
+
 void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_message(format, va);
         va_end(va);
 
         char *short_module = shorten_module(module);
@@ -139,10 +160,9 @@ void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 void log_debug_cont(log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_message(format, va);
         va_end(va);
 
         bx_fprintf(stderr, "%s", msg);
-- 
2.43.0


From 244030e67857a08b922c8c4cef83b6b073206a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 15/70] fix: buffer overflow when a sample block contains NUL
 characters

---
 src/lexer.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 4b9e47e..c4fe1d7 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -249,11 +249,12 @@ PFILENAME [^\r\n]+
         --p;                             /* skip trailing whitespace */
     p -= 2;                              /* almost skip "ends" statement */
     *p = '\0';                           /* p now points to 'n' */
-    char *sample = (char *) strdup(yytext);
+    char *sample = (char *) malloc(p - yytext + 1);
     if (sample == NULL) {
         perror (PROJECT);
         exit (EXIT_FAILURE);
     }
+    memcpy(sample, yytext, p - yytext + 1);    /* not strdup(), because there may be NUL characters in the sample */
     *p-- = 'n';
 
     len = p - yytext;                    /* yyless(n): push back all but the first n */
-- 
2.43.0


From 7b6771b91fd0a6083f17707d10926664fbf8051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 16/70] fix: only the last one of several consecutive escape
 sequences was attributed to the character following it

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 141a5d9..13119fc 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -121,7 +121,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
             if (is_csi_reset(rest)) {
                 first_candidate = -1;
             }
-            else {
+            else if (first_candidate < 0) {
                 first_candidate = idx;
             }
         }
-- 
2.43.0


From 8aedc6971adac3163dcd5d39b362153bfcaa676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 17/70] fix: bxs_ltrim() accessed memory out of bounds when the
 string was shorter than the number of characters to trim

---
 src/bxstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 13119fc..41ba2fc 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -440,7 +440,7 @@ uint32_t *bxs_ltrim(bxstr_t *pString, size_t max)
     }
 
     size_t num_trimmed = BMIN(max, pString->num_chars_visible);
-    for (size_t i = 0; i < max; i++) {
+    for (size_t i = 0; i < num_trimmed; i++) {
         if (!is_blank(pString->memory[pString->visible_char[i]])) {
             num_trimmed = i;
             break;
-- 
2.43.0


From 8738b52086bc8ac925fee210abe7047462b3e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 18/70] fix: double-width blanks in the indentation led to loss
 of text, because indent was used as a character count

---
 src/bxstring.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 41ba2fc..90fcc19 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -143,6 +143,9 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
                 }
             }
             if (is_blank(c)) {
+                if (cols != 1) {
+                    indent_active = 0;   /* e.g. ideographic space: indent must be usable as column and char count */
+                }
                 if (indent_active) {
                     result->indent += cols;
                 }
-- 
2.43.0


From 49a40508d1414b60abdcd28baa1f9a9f371ebbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 19/70] fix: blanks of an all-blank string were counted as
 trailing blanks instead of indentation

---
 src/bxstring.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 90fcc19..fc8971c 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -66,7 +66,7 @@ bxstr_t *bxs_from_ascii(char *pAscii)
     result->num_chars_visible = result->num_chars - result->num_chars_invisible;
 
     result->indent = strspn(pAscii, " ");
-    result->trailing = my_strrspn(pAscii, " ");
+    result->trailing = result->indent < result->num_chars ? my_strrspn(pAscii, " ") : 0;
 
     result->first_char = calloc(result->num_chars_visible + 1, sizeof(size_t));
     result->visible_char = calloc(result->num_chars_visible + 1, sizeof(size_t));
@@ -543,10 +543,15 @@ void bxs_append_spaces(bxstr_t *pString, size_t n)
         pString->visible_char[pString->num_chars_visible + i] = pString->num_chars + i;
     }
 
+    if (pString->indent == pString->num_chars_visible) {
+        pString->indent += n;    /* only blanks, so they all count as indentation */
+    }
+    else {
+        pString->trailing += n;
+    }
     pString->num_chars += n;
     pString->num_chars_visible += n;
     pString->num_columns += n;
-    pString->trailing += n;
 }
 
 
-- 
2.43.0


From 94d314ca0020358160d154ced2796773ef35d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 20/70] fix: indent mode of a design was not recognized when
 written with uppercase letters

---
 src/parsecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..de71947 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -21,6 +21,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <ctype.h>
 #include <string.h>
 #include <strings.h>
 #include <unictype.h>
@@ -767,7 +768,7 @@ int action_record_keyword(pass_to_bison *bison_args, char *keyword, bxstr_t *val
     else if (strcasecmp(keyword, "indent") == 0) {
         char *val = value->ascii;
         if (strcasecmp(val, "text") == 0 || strcasecmp(val, "box") == 0 || strcasecmp(val, "none") == 0) {
-            curdes.indentmode = val[0];
+            curdes.indentmode = (char) tolower((unsigned char) val[0]);
         }
         else {
             yyerror(bison_args, "indent keyword must be followed by \"text\", \"box\", or \"none\"");
-- 
2.43.0


From d72b24ebd321f5891da56ca247523a180502903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 21/70] fix: missing southwest corner was not derived from the
 left side when only the northwest corner was defined there

---
 src/parsecode.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index de71947..97a8c4c 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -473,22 +473,25 @@ int action_finalize_shapes(pass_to_bison *bison_args)
         c = curdes.shape + sides[side][SHAPES_PER_SIDE - 1];
 
         if (isempty(c)) {
-            nshape = findshape(c, SHAPES_PER_SIDE);
+            const shape_t *next_side = sides[(side + 1) % NUM_SIDES];   /* the corner is its first shape */
+            for (i = 0; i < SHAPES_PER_SIDE && isempty(curdes.shape + next_side[i]); i++)
+                ;
+            nshape = i < SHAPES_PER_SIDE ? next_side[i] : NUM_SHAPES;
             if (side == BLEF || side == BRIG) {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (nshape == NUM_SHAPES) {
                     c->height = 1;
                 }
                 else {
-                    c->height = c[nshape].height;
+                    c->height = curdes.shape[nshape].height;
                 }
                 c->width = curdes.shape[fshape].width;
             }
             else {
-                if (nshape == SHAPES_PER_SIDE) {
+                if (nshape == NUM_SHAPES) {
                     c->width = 1;
                 }
                 else {
-                    c->width = c[nshape].width;
+                    c->width = curdes.shape[nshape].width;
                 }
                 c->height = curdes.shape[fshape].height;
             }
-- 
2.43.0


From 5df6a218d03274b1bbb02dccd7abb93219e3262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 22/70] fix: elastic shapes were ignored when ELASTIC was
 specified before SHAPES

---
 src/parser.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.y b/src/parser.y
index 7c54018..38bfe60 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -361,7 +361,9 @@ slist_entry: SHAPE shape_def
                 shape_name[$1], (int) $2.width, (int) $2.height);
 
         if (isempty (curdes.shape + $1)) {
+            int elastic = curdes.shape[$1].elastic;   /* may already have been set if ELASTIC came before SHAPES */
             curdes.shape[$1] = $2;
+            curdes.shape[$1].elastic = elastic;
             if (!isdeepempty(&($2))) {
                 ++(bison_args->num_shapespec);
             }
-- 
2.43.0


From e55526eae322f7fcde9bfb215b6cb8b8735c93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 23/70] fix: design without SAMPLE or SHAPES was accepted when
 another mandatory block occurred repeatedly

---
 src/parsecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 97a8c4c..bb3c0aa 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -699,7 +699,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         yyerror(bison_args, "box design name differs at BOX and END");
         return RC_ERROR;
     }
-    if (bison_args->num_mandatory < 3) {
+    if (bison_args->num_mandatory < 3 || curdes.sample == NULL || bison_args->num_shapespec < 1) {
         yyerror(bison_args, "entries SAMPLE, SHAPES, and ELASTIC are mandatory");
         return RC_ERROR;
     }
-- 
2.43.0


From 5796be4d3014127f981920a51c7c14c4db20e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 24/70] fix: padding specification without a number was
 accepted

---
 src/cmdline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index 47e6891..b4a5c42 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -18,6 +18,7 @@
  */
 
 #include "config.h"
+#include <ctype.h>
 #include <errno.h>
 #include <getopt.h>
 #include <limits.h>
@@ -371,6 +372,10 @@ static int padding(opt_t *result, char *optarg)
             break;
         }
         char c = *p;
+        if (!isdigit((unsigned char) p[1])) {
+            errfl = 1;
+            break;
+        }
         errno = 0;
         long size_parsed = strtol(p + 1, &p, 10);
         if (errno || size_parsed < 0 || size_parsed > INT_MAX) {
-- 
2.43.0


From b1affd8146835a8be448c956256e08ae7720c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 25/70] fix: trailing garbage in box size specification was
 ignored

---
 src/cmdline.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index b4a5c42..480cd77 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -457,15 +457,19 @@ static int size_of_box(opt_t *result, char *optarg)
     if (p) {
         *p = '\0';
     }
+    int trailing = 0;
+    char *end = NULL;
     errno = 0;
     if (optarg != p) {
-        result->reqwidth = strtol(optarg, NULL, 10);
+        result->reqwidth = strtol(optarg, &end, 10);
+        trailing = *end != '\0';
     }
     if (p) {
-        result->reqheight = strtol(p + 1, NULL, 10);
+        result->reqheight = strtol(p + 1, &end, 10);
+        trailing = trailing || *end != '\0';
         *p = 'x';
     }
-    if (errno || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
+    if (errno || trailing || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
         bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
         return 1;
     }
-- 
2.43.0


From 53907f102037909769b6f47bf288bdf67633711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 26/70] fix: tab stop distance was truncated to int before it
 was checked

---
 src/cmdline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 480cd77..d4420ab 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -535,12 +535,12 @@ static int debug_areas(opt_t *result, char *optarg)
 static int tab_handling(opt_t *result, char *optarg)
 {
     char *p;
-    int width = (int) strtol(optarg, &p, 10);
+    long width = strtol(optarg, &p, 10);
     if (width < 1 || width > MAX_TABSTOP) {
-        bx_fprintf(stderr, "%s: invalid tab stop distance -- %d\n", PROJECT, width);
+        bx_fprintf(stderr, "%s: invalid tab stop distance -- %ld\n", PROJECT, width);
         return 1;
     }
-    result->tabstop = width;
+    result->tabstop = (int) width;
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From f6698e32ef30fd97f182cf5acefbf242518b2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 27/70] fix: -k argument was not checked if blank line handling
 had already been specified

---
 src/cmdline.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index d4420ab..ca77d0f 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -337,17 +337,16 @@ static int indentation_mode(opt_t *result, char *optarg)
  */
 static int killblank(opt_t *result, char *optarg)
 {
+    int value = 0;
+    if (strisyes(optarg)) {
+        value = 1;
+    }
+    else if (!strisno(optarg)) {
+        bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
+        return 1;
+    }
     if (result->killblank == -1) {
-        if (strisyes(optarg)) {
-            result->killblank = 1;
-        }
-        else if (strisno(optarg)) {
-            result->killblank = 0;
-        }
-        else {
-            bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
-            return 1;
-        }
+        result->killblank = value;
     }
     return 0;
 }
-- 
2.43.0


From cb518de7a4cc9b8eec70c8fb7561aaadb1b300d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 28/70] fix: read errors on an input file were not noticed

---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index 1b336cc..83e869a 100644
--- a/src/input.c
+++ b/src/input.c
@@ -272,7 +272,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From 097c65a018ed77b862865f0b7ad753400b4e83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 29/70] fix: failure to write the output went unnoticed

---
 src/boxes.c | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 203461f..f847782 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -180,6 +180,30 @@ static int build_design(design_t **adesigns, const char *cld)
 
 
 
+/**
+ * Make sure that all output has actually been written. If not, an error message is printed.
+ * @param outfile the stream that was written to
+ * @param rc the exit status to use if there was no problem
+ * @return `rc` if everything was written, `EXIT_FAILURE` otherwise
+ */
+static int finish_output(FILE *outfile, int rc)
+{
+    int failed = ferror(outfile) != 0;
+    if (outfile == stdout) {
+        failed = fflush(outfile) != 0 || failed;
+    }
+    else {
+        failed = fclose(outfile) != 0 || failed;
+    }
+    if (failed) {
+        perror(PROJECT);
+        return EXIT_FAILURE;
+    }
+    return rc;
+}
+
+
+
 /**
  * Process command line options and store the result in the global `opt` struct. May exit the program.
  */
@@ -193,11 +217,11 @@ static void handle_command_line(int argc, char *argv[])
     }
     if (parsed_opts->help) {
         usage_long(stdout);
-        exit(EXIT_SUCCESS);
+        exit(finish_output(stdout, EXIT_SUCCESS));
     }
     if (parsed_opts->version_requested) {
         printf("%s version %s\n", PROJECT, VERSION);
-        exit(EXIT_SUCCESS);
+        exit(finish_output(stdout, EXIT_SUCCESS));
     }
     memcpy(&opt, parsed_opts, sizeof(opt_t));
     BFREE(parsed_opts);
@@ -540,13 +564,13 @@ int main(int argc, char *argv[])
     /* If "-l" option was given, list designs and exit. */
     if (opt.l) {
         rc = list_designs();
-        exit(rc);
+        exit(finish_output(opt.outfile, rc));
     }
 
     /* If "-q" option was given, print results of tag query and exit. */
     if (opt.query != NULL && opt.query[0] != NULL) {
         rc = query_by_tag();
-        exit(rc);
+        exit(finish_output(opt.outfile, rc));
     }
 
     do {
@@ -568,7 +592,7 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
-    return EXIT_SUCCESS;
+    return finish_output(opt.outfile, EXIT_SUCCESS);
 }
 
 /* vim: set sw=4: */
-- 
2.43.0


From efe5a85eee36f33c2b48e0682360ee735f7ce244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 30/70] fix: only the first of several leading tabs was kept
 correctly by tab mode 'keep'

---
 src/tools.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..2c20707 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -364,7 +364,8 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
 {
     size_t i;
     uint32_t *result;
-    size_t result_len;
+    size_t result_len = 0;      /* number of characters in result */
+    size_t column = 0;          /* number of columns that those characters cover */
 
     if (opt.tabexp != 'k') {
         return indentspc;
@@ -381,20 +382,20 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         perror(PROJECT);
         return NULL;
     }
-    u32_set(result, char_space, indentspc_len);
-    set_char_at(result, indentspc_len, char_nul);
-    result_len = indentspc_len;
-
     for (i = 0; i < input.lines[lineno].tabpos_len && input.lines[lineno].tabpos[i] < indentspc_len; ++i) {
         size_t tpos = input.lines[lineno].tabpos[i];
         size_t nspc = opt.tabstop - (tpos % opt.tabstop); /* no of spcs covered by tab */
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
-        result_len -= nspc - 1;
-        set_char_at(result, result_len, char_nul);
-    }
+        u32_set(result + result_len, char_space, tpos - column);
+        result_len += tpos - column;
+        set_char_at(result, result_len++, char_tab);
+        column = tpos + nspc;
+    }
+    u32_set(result + result_len, char_space, indentspc_len - column);
+    result_len += indentspc_len - column;
+    set_char_at(result, result_len, char_nul);
 
     return result;
 }
-- 
2.43.0


From bc3287f3fb4aa87bb88b00caf7845b1615611a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 31/70] fix: tabs after double-width characters, combining
 characters, or escape sequences were expanded to the wrong column, and long
 lines were truncated on tab expansion

---
 src/tools.c | 58 +++++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 2c20707..44d83fd 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -221,25 +221,25 @@ int empty_line(const line_t *line)
 size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_t **text, size_t **tabpos,
         size_t *tabpos_len)
 {
-    static uint32_t temp[LINE_MAX_BYTES + 100]; /* work string */
     size_t io;                                  /* character position in work string */
+    size_t col = 0;                             /* column corresponding to io */
+    size_t num_tabs = 0;                        /* number of tabs in the input */
     size_t tabnum = 0;                          /* index of the current tab */
 
     *text = NULL;
     *tabpos = NULL;
     *tabpos_len = 0;
 
+    for (const uint32_t *p = input_buffer; *p != char_nul; p++) {
+        if (*p == char_tab) {
+            num_tabs++;
+        }
+    }
     if (opt.tabexp == 'k') {
         /* We need to know the exact tab positions only if expansion type 'k' is requested (keep tabs as much as they
          * were as possible). Else we'll just convert spaces and tabs without having to know where exactly the tabs
          * were in the first place. */
-        ucs4_t puc;
-        const uint32_t *rest = input_buffer;
-        while ((rest = u32_next(&puc, rest))) {
-            if (puc == char_tab) {
-                (*tabpos_len)++;
-            }
-        }
+        *tabpos_len = num_tabs;
     }
 
     if (*tabpos_len > 0) {
@@ -249,29 +249,35 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
         }
     }
 
-    ucs4_t puc;
+    *text = (uint32_t *) calloc(u32_strlen(input_buffer) + num_tabs * tabstop + 1, sizeof(uint32_t));
+    if (*text == NULL) {
+        return 0; /* out of memory */
+    }
+
+    size_t invis = 0;
     const uint32_t *rest = input_buffer;
     io = 0;
-    while ((rest = u32_next(&puc, rest)) && io < (LINE_MAX_BYTES - 12)) {
-        if (puc == char_tab) {
-            if (*tabpos_len > 0) {
-                (*tabpos)[tabnum++] = io;
+    while (*rest != char_nul) {
+        const uint32_t *next = advance_next32(rest, &invis);
+        for (; rest < next; rest++) {
+            if (*rest == char_tab) {
+                if (*tabpos_len > 0) {
+                    (*tabpos)[tabnum++] = col;
+                }
+                size_t num_spc = tabstop - (col % tabstop);
+                u32_set(*text + io, char_space, num_spc);
+                io += num_spc;
+                col += num_spc;
+            }
+            else {
+                set_char_at(*text, io, *rest);
+                ++io;
+                if (invis == 0) {    /* escape sequences do not occupy any columns */
+                    col += is_ascii_printable(*rest) ? 1 : BMAX(0, uc_width(*rest, encoding));
+                }
             }
-            size_t num_spc = tabstop - (io % tabstop);
-            u32_set(temp + io, char_space, num_spc);
-            io += num_spc;
-        }
-        else {
-            set_char_at(temp, io, puc);
-            ++io;
         }
     }
-    temp[io] = 0;
-
-    *text = u32_strdup(temp);
-    if (*text == NULL) {
-        return 0;
-    }
     return io;
 }
 
-- 
2.43.0


From c8831fd46e58a7fc66d1ba17d9d61306fdbb5ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 32/70] fix: input line of maximum length was broken up when it
 ended in CRLF

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 83e869a..a2db91d 100644
--- a/src/input.c
+++ b/src/input.c
@@ -220,13 +220,13 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 
 input_t *read_all_input()
 {
-    char buf[LINE_MAX_BYTES + 3];      /* static input buffer incl. newline + zero terminator */
+    char buf[LINE_MAX_BYTES + 3];      /* static input buffer incl. CRLF + zero terminator */
     size_t input_size = 0;             /* number of elements allocated */
 
     input_t *result = (input_t *) calloc(1, sizeof(input_t));
     result->indent = LINE_MAX_BYTES;
 
-    while (fgets(buf, LINE_MAX_BYTES + 2, opt.infile)) {
+    while (fgets(buf, LINE_MAX_BYTES + 3, opt.infile)) {
         if (result->num_lines % 100 == 0) {
             input_size += 100;
             line_t *tmp = (line_t *) realloc(result->lines, input_size * sizeof(line_t));
-- 
2.43.0


From de1213b4c285eb4b7c279283cc6792e008da9f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 33/70] fix: bxs_append_spaces() attributed escape sequences at
 the end of the string inconsistently

---
 src/bxstring.c | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index fc8971c..ca745f0 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -530,28 +530,12 @@ void bxs_append_spaces(bxstr_t *pString, size_t n)
     u32_set(pString->memory + pString->num_chars, char_space, n);
     set_char_at(pString->memory, pString->num_chars + n, char_nul);
 
-    pString->ascii = (char *) realloc(pString->ascii, (pString->num_columns + n + 1) * sizeof(char));
-    memset(pString->ascii + pString->num_columns, ' ', n);
-    pString->ascii[pString->num_columns + n] = '\0';
-
-    pString->first_char =
-            (size_t *) realloc(pString->first_char, (pString->num_chars_visible + n + 1) * sizeof(size_t));
-    pString->visible_char =
-            (size_t *) realloc(pString->visible_char, (pString->num_chars_visible + n + 1) * sizeof(size_t));
-    for (size_t i = 0; i <= n; i++) {
-        pString->first_char[pString->num_chars_visible + i] = pString->num_chars + i;
-        pString->visible_char[pString->num_chars_visible + i] = pString->num_chars + i;
-    }
-
-    if (pString->indent == pString->num_chars_visible) {
-        pString->indent += n;    /* only blanks, so they all count as indentation */
-    }
-    else {
-        pString->trailing += n;
-    }
-    pString->num_chars += n;
-    pString->num_chars_visible += n;
-    pString->num_columns += n;
+    /* measure again, because escape sequences at the end of the original string may now belong to the first space */
+    bxstr_t *measured = bxs_from_unicode(pString->memory);
+    bxstr_t original = *pString;
+    *pString = *measured;
+    *measured = original;
+    bxs_free(measured);
 }
 
 
-- 
2.43.0


From dc0e3a259096aa4888a242a27b615f25679396a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 34/70] fix: single column of right padding ended up on the
 left when aligning right

---
 src/generate.c | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 736a9a7..bad72f5 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -982,33 +982,20 @@ int output_box(const sentry_t *thebox)
     set_char_at(hfill2, hfill, char_nul);
     hpl = 0;
     hpr = 0;
-    if (hfill == 1) {
-        if (opt.halign == 'r'
-                || opt.design->padding[BLEF] > opt.design->padding[BRIG]) {
-            hpl = 1;
-            hpr = 0;
-        }
-        else {
-            hpl = 0;
-            hpr = 1;
-        }
+    hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
+    if (opt.halign == 'c') {
+        hpl = hfill / 2 + opt.design->padding[BLEF];
+        hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
+    }
+    else if (opt.halign == 'r') {
+        hpl = hfill + opt.design->padding[BLEF];
+        hpr = opt.design->padding[BRIG];
     }
     else {
-        hfill -= opt.design->padding[BLEF] + opt.design->padding[BRIG];
-        if (opt.halign == 'c') {
-            hpl = hfill / 2 + opt.design->padding[BLEF];
-            hpr = hfill / 2 + opt.design->padding[BRIG] + (hfill % 2);
-        }
-        else if (opt.halign == 'r') {
-            hpl = hfill + opt.design->padding[BLEF];
-            hpr = opt.design->padding[BRIG];
-        }
-        else {
-            hpl = opt.design->padding[BLEF];
-            hpr = hfill + opt.design->padding[BRIG];
-        }
-        hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
+        hpl = opt.design->padding[BLEF];
+        hpr = hfill + opt.design->padding[BRIG];
     }
+    hfill += opt.design->padding[BLEF] + opt.design->padding[BRIG];
     set_char_at(hfill1, hpl, char_nul);
     set_char_at(hfill2, hpr, char_nul);
 
-- 
2.43.0


From 67657b99792a2e06c6dad3c03e7b423f75d72421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 35/70] fix: small requested box size was exceeded when the
 design has blank sides

---
 src/boxes.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index f847782..ca4a001 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -266,28 +266,30 @@ static void handle_config_parsing()
  */
 static void apply_expected_size()
 {
-    if (opt.reqheight > (long) opt.design->minheight) {
-        opt.design->minheight = opt.reqheight;
-    }
-    if (opt.reqwidth > (long) opt.design->minwidth) {
-        opt.design->minwidth = opt.reqwidth;
-    }
+    size_t expected_height = (size_t) opt.reqheight;
+    size_t expected_width = (size_t) opt.reqwidth;
     if (opt.reqwidth) {
         if (empty_side(opt.design->shape, BRIG)) {
-            opt.design->minwidth += opt.design->shape[SE].width;
+            expected_width += opt.design->shape[SE].width;
         }
         if (empty_side(opt.design->shape, BLEF)) {
-            opt.design->minwidth += opt.design->shape[NW].width;
+            expected_width += opt.design->shape[NW].width;
         }
     }
     if (opt.reqheight) {
         if (empty_side(opt.design->shape, BTOP)) {
-            opt.design->minheight += opt.design->shape[NW].height;
+            expected_height += opt.design->shape[NW].height;
         }
         if (empty_side(opt.design->shape, BBOT)) {
-            opt.design->minheight += opt.design->shape[SE].height;
+            expected_height += opt.design->shape[SE].height;
         }
     }
+    if (expected_height > opt.design->minheight) {
+        opt.design->minheight = expected_height;
+    }
+    if (expected_width > opt.design->minwidth) {
+        opt.design->minwidth = expected_width;
+    }
 }
 
 
-- 
2.43.0


From 0798df215b507229b579a20245fc231ebc837f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 36/70] fix: escape sequences were printed on removal although
 color output was off

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 556882d..ecfb997 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1216,7 +1216,9 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_from_unicode(bxs_first_char_ptr(input.lines[j].text, indent));
+        char *outtext = bxs_to_output(unindented);
+        bxs_free(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From d1243ffc5df584f0f8077511ac461d9d0f27cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 37/70] fix: indentation was doubled on removal in lines
 without left box side

---
 src/remove.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index ecfb997..5349320 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1022,15 +1022,15 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
                 (int) input.indent);
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
-        if (opt.indentmode == 'b' || opt.indentmode == '\0') {
-            /* restore indentation */
+        if (s_idx > 0 && (opt.indentmode == 'b' || opt.indentmode == '\0')) {
+            /* restore indentation, which was cut off along with the west shape */
             bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
             bxs_free(temp2);
         }
         else {
-            /* remove indentation */
+            /* remove indentation, or it is still there because no west shape was removed */
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp2;
         }
-- 
2.43.0


From a5ecee2cc1da57320b15a6c784273a40135bb9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 38/70] fix: blank lines kept the default padding from being
 removed when the box has no left side

---
 src/remove.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 5349320..9f864d1 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1087,10 +1087,13 @@ static void apply_results_to_input(remove_ctx_t *ctx)
         if (input.lines[j].text->num_columns > input.maxline) {
             input.maxline = input.lines[j].text->num_columns;
         }
-        if (input.lines[j].text->indent < input.indent) {
+        if (input.lines[j].text->indent < input.indent && !bxs_is_blank(input.lines[j].text)) {
             input.indent = input.lines[j].text->indent;
         }
     }
+    if (input.indent == SIZE_MAX) {
+        input.indent = 0;
+    }
     if (ctx->empty_side[BLEF]) {
         /* If the side were not open, default padding would have been removed when the side was removed. */
         remove_default_padding(ctx, BMIN((int) input.indent, opt.design->padding[BLEF]));
-- 
2.43.0


From 5c2bac9d0880d7c08511a7d83a0ed343ee43f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 39/70] fix: blank line of the left box side was matched in
 place of a visible one or in the wrong place

---
 src/remove.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 9f864d1..66a8f07 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -710,13 +710,37 @@ static void free_shape_lines(shape_line_ctx_t **shape_lines)
 
 
 
+/**
+ * Match a blank shape line of the west side. Since it looks just like indentation or padding, it is only considered
+ * after no other west shape line was found, and only at the start of the box.
+ */
+static void match_blank_west_shape(line_ctx_t *line_ctx, shape_line_ctx_t **shape_lines, uint32_t *input_line,
+    size_t input_indent)
+{
+    for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
+        bxstr_t *text = (*shape_line_ctx)->text;
+        if (!(*shape_line_ctx)->empty && bxs_is_blank(text) && text->num_chars > 0
+                && input.indent + text->num_chars <= input_indent)
+        {
+            line_ctx->west_start = input.indent;
+            line_ctx->west_end = input.indent + text->num_chars;
+            line_ctx->west_quality = text->num_chars;
+            BFREE(line_ctx->input_line_used);
+            line_ctx->input_line_used = u32_strdup(input_line);
+            break;
+        }
+    }
+}
+
+
+
 static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t **shape_lines, uint32_t *input_line,
     size_t line_idx, size_t input_length, size_t input_indent, size_t input_trailing)
 {
     line_ctx_t *line_ctx = ctx->body + (line_idx - ctx->top_end_idx);
 
     for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
-        if ((*shape_line_ctx)->empty) {
+        if ((*shape_line_ctx)->empty || bxs_is_blank((*shape_line_ctx)->text)) {
             continue;
         }
 
@@ -763,6 +787,10 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             }
         }
     }
+
+    if (vside == BLEF && line_ctx->west_quality == 0) {
+        match_blank_west_shape(line_ctx, shape_lines, input_line, input_indent);
+    }
 }
 
 
-- 
2.43.0


From 6464390eaf3faf3a9e5afdef6ef9f70db3083340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:53 +0000
Subject: [PATCH 40/70] fix: blanks at the start of the left box side were
 restored as indentation on removal

---
 src/remove.c | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 66a8f07..8224b84 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -710,20 +710,45 @@ static void free_shape_lines(shape_line_ctx_t **shape_lines)
 
 
 
+/**
+ * Determine the indentation of the box, which is the indentation of the input unless all lines of the left box side
+ * start with blanks.
+ */
+static size_t box_indent(remove_ctx_t *ctx)
+{
+    size_t shape_indent = SIZE_MAX;
+    for (size_t i = 0; i < SHAPES_PER_SIDE; i++) {
+        sentry_t *shape = opt.design->shape + west_side[i];
+        if (isempty(shape) || (ctx->empty_side[BTOP] && west_side[i] == NW)
+                || (ctx->empty_side[BBOT] && west_side[i] == SW)) {
+            continue;
+        }
+        for (size_t j = 0; j < shape->height; j++) {
+            if (shape->mbcs[j]->indent < shape_indent) {
+                shape_indent = shape->mbcs[j]->indent;
+            }
+        }
+    }
+    return shape_indent < input.indent ? input.indent - shape_indent : 0;
+}
+
+
+
 /**
  * Match a blank shape line of the west side. Since it looks just like indentation or padding, it is only considered
  * after no other west shape line was found, and only at the start of the box.
  */
-static void match_blank_west_shape(line_ctx_t *line_ctx, shape_line_ctx_t **shape_lines, uint32_t *input_line,
-    size_t input_indent)
+static void match_blank_west_shape(remove_ctx_t *ctx, line_ctx_t *line_ctx, shape_line_ctx_t **shape_lines,
+    uint32_t *input_line, size_t input_indent)
 {
+    size_t start = box_indent(ctx);
     for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
         bxstr_t *text = (*shape_line_ctx)->text;
         if (!(*shape_line_ctx)->empty && bxs_is_blank(text) && text->num_chars > 0
-                && input.indent + text->num_chars <= input_indent)
+                && start + text->num_chars <= input_indent)
         {
-            line_ctx->west_start = input.indent;
-            line_ctx->west_end = input.indent + text->num_chars;
+            line_ctx->west_start = start;
+            line_ctx->west_end = start + text->num_chars;
             line_ctx->west_quality = text->num_chars;
             BFREE(line_ctx->input_line_used);
             line_ctx->input_line_used = u32_strdup(input_line);
@@ -789,7 +814,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
     }
 
     if (vside == BLEF && line_ctx->west_quality == 0) {
-        match_blank_west_shape(line_ctx, shape_lines, input_line, input_indent);
+        match_blank_west_shape(ctx, line_ctx, shape_lines, input_line, input_indent);
     }
 }
 
@@ -1037,6 +1062,7 @@ static size_t calculate_end_idx(remove_ctx_t *ctx, size_t body_line_idx)
 
 static void remove_vertical_from_input(remove_ctx_t *ctx)
 {
+    size_t indent = ctx->empty_side[BLEF] ? 0 : box_indent(ctx);
     for (size_t body_line_idx = 0; body_line_idx < ctx->body_num_lines; body_line_idx++) {
         size_t input_line_idx = ctx->top_end_idx + body_line_idx;
         bxstr_t *org_line = input.lines[input_line_idx].text;
@@ -1046,13 +1072,13 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
             e_idx = s_idx;    /* west and east shape overlap, so there is no text in between */
         }
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
-                "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
-                (int) input.indent);
+                "e_idx=%d, indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
+                (int) indent);
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
         if (s_idx > 0 && (opt.indentmode == 'b' || opt.indentmode == '\0')) {
             /* restore indentation, which was cut off along with the west shape */
-            bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
+            bxstr_t *temp = bxs_prepend_spaces(temp2, indent);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
             bxs_free(temp2);
-- 
2.43.0


From ad0a5c7a341683acdfe66cf3f5a2bd0a9bdc93c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 41/70] fix: left box side was not removed correctly when one
 of its shape lines resembles another one

---
 src/remove.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 8224b84..377043d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -759,11 +759,42 @@ static void match_blank_west_shape(remove_ctx_t *ctx, line_ctx_t *line_ctx, shap
 
 
 
+/**
+ * Match the complete shape lines of the west side where they belong, at the start of the box. Such a match is better
+ * than finding another (possibly shortened) shape line somewhere else.
+ * @return flag indicating that a match was found
+ */
+static int match_west_shape_in_place(remove_ctx_t *ctx, line_ctx_t *line_ctx, shape_line_ctx_t **shape_lines,
+    uint32_t *input_line, size_t input_indent)
+{
+    size_t start = box_indent(ctx);
+    for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
+        bxstr_t *text = (*shape_line_ctx)->text;
+        if (!(*shape_line_ctx)->empty && !bxs_is_blank(text) && start <= input_indent
+                && u32_strncmp(input_line + start, text->memory, text->num_chars) == 0)
+        {
+            line_ctx->west_start = start;
+            line_ctx->west_end = start + text->num_chars;
+            line_ctx->west_quality = text->num_chars;
+            BFREE(line_ctx->input_line_used);
+            line_ctx->input_line_used = u32_strdup(input_line);
+            return 1;
+        }
+    }
+    return 0;
+}
+
+
+
 static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t **shape_lines, uint32_t *input_line,
     size_t line_idx, size_t input_length, size_t input_indent, size_t input_trailing)
 {
     line_ctx_t *line_ctx = ctx->body + (line_idx - ctx->top_end_idx);
 
+    if (vside == BLEF && match_west_shape_in_place(ctx, line_ctx, shape_lines, input_line, input_indent)) {
+        return;
+    }
+
     for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
         if ((*shape_line_ctx)->empty || bxs_is_blank((*shape_line_ctx)->text)) {
             continue;
-- 
2.43.0


From dc2fcec417538a88d5805ac62d396a0275133f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 42/70] fix: left box side whose trailing blanks were trimmed
 was matched in the wrong place on removal

---
 src/remove.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 377043d..62b20c6 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -770,12 +770,20 @@ static int match_west_shape_in_place(remove_ctx_t *ctx, line_ctx_t *line_ctx, sh
     size_t start = box_indent(ctx);
     for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
         bxstr_t *text = (*shape_line_ctx)->text;
-        if (!(*shape_line_ctx)->empty && !bxs_is_blank(text) && start <= input_indent
-                && u32_strncmp(input_line + start, text->memory, text->num_chars) == 0)
-        {
+        if ((*shape_line_ctx)->empty || bxs_is_blank(text) || start > input_indent) {
+            continue;
+        }
+        /* trailing blanks of the shape line may have been trimmed if there is nothing else in the input line */
+        size_t visible_len = text->num_chars;
+        while (is_blank(text->memory[visible_len - 1])) {
+            --visible_len;
+        }
+        size_t rest_len = u32_strlen(input_line + start);
+        size_t len = rest_len >= visible_len ? BMIN(text->num_chars, rest_len) : text->num_chars;
+        if (u32_strncmp(input_line + start, text->memory, len) == 0) {
             line_ctx->west_start = start;
-            line_ctx->west_end = start + text->num_chars;
-            line_ctx->west_quality = text->num_chars;
+            line_ctx->west_end = start + len;
+            line_ctx->west_quality = len;
             BFREE(line_ctx->input_line_used);
             line_ctx->input_line_used = u32_strdup(input_line);
             return 1;
-- 
2.43.0


From 23bb55224cf8d711795eb84baea1c5227f6e6303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 43/70] fix: mended box was too wide when blank lines in it
 retained their blanks

---
 src/remove.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 62b20c6..10a703b 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1280,7 +1280,13 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        bxstr_t *temp;
+        if (trim_only && bxs_is_blank(input.lines[j].text)) {
+            temp = bxs_new_empty_string();    /* just like when reading input for drawing */
+        }
+        else {
+            temp = bxs_rtrim(input.lines[j].text);
+        }
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From 53cddba5ef671bc8669d239a1cf1f24ab4c065ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 44/70] fix: white space other than blanks at the end of a line
 made a mended box too wide

---
 src/remove.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 10a703b..7ee5c36 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1281,8 +1281,13 @@ void output_input(const int trim_only)
             continue;
         }
         bxstr_t *temp;
-        if (trim_only && bxs_is_blank(input.lines[j].text)) {
-            temp = bxs_new_empty_string();    /* just like when reading input for drawing */
+        if (trim_only) {
+            /* trim just like when reading input for drawing */
+            uint32_t *s = u32_strdup(input.lines[j].text->memory);
+            size_t len = u32_strlen(s);
+            btrim32(s, &len);
+            temp = bxs_from_unicode(s);
+            BFREE(s);
         }
         else {
             temp = bxs_rtrim(input.lines[j].text);
-- 
2.43.0


From bafda97eba98d46db6aa04f2ca760b462d083f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:05 +0000
Subject: [PATCH 45/70] fix: text in front of something that resembles the left
 box side was deleted on removal

---
 src/remove.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 7ee5c36..9429e4d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -808,8 +808,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             continue;
         }
 
-        size_t max_quality = (*shape_line_ctx)->text->num_chars;
-        size_t quality = max_quality;
+        size_t quality = (*shape_line_ctx)->text->num_chars;
         uint32_t *shape_text = (*shape_line_ctx)->text->memory;
         uint32_t *to_free = NULL;
         while(shape_text != NULL) {
@@ -824,7 +823,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             shape_text = NULL;
 
             if ((p == NULL)
-                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent + (max_quality - quality)))
+                    || (vside == BLEF && (size_t) (p - input_line) > input_indent)
                     || (vside == BRIG && ((size_t) (p - input_line) < input_length - input_trailing - quality))) {
                 shape_text = shorten(*shape_line_ctx, &quality, vside == BLEF, 1, 1);
                 to_free = shape_text;
-- 
2.43.0


From ea2b5012e8af2e6ce3a1ad0a677debd8c4553722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:38 +0000
Subject: [PATCH 46/70] fix: box with an open top or bottom was not
 autodetected by its other horizontal side

A design which has only a top or only a bottom side could never be
detected, because its horizontal shapes were ignored if either of the two
sides was empty.
---
 src/detect.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detect.c b/src/detect.c
index aad1fe5..bff03ff 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -354,7 +354,7 @@ static size_t find_east_corner(design_t *current_design, comparison_t comp_type,
 static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_type, int *empty, shape_t hshape)
 {
     size_t hits = 0;
-    if (empty[BTOP] || empty[BBOT]) {
+    if (empty[hshape >= SSE && hshape <= SSW ? BBOT : BTOP]) {
         /* horizontal box part is empty */
         log_debug(__FILE__, MAIN, "Checking %-3s shape produced %d hits.\n", shape_name[hshape], (int) hits);
         return hits;
-- 
2.43.0


From 973053230568f2c5fc42bc9fe9950f91643a59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 47/70] fix: blank lines around a box kept its design from
 being autodetected

The top and bottom sides of the box were only looked for in the first and
last lines of the input, while removal skips blank lines above and below.
---
 src/detect.c | 58 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index bff03ff..2c1e018 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -57,6 +57,12 @@ char *comparison_name[] = {
         "literal", "ignore_invisible_input", "ignore_invisible_shape", "ignore_invisible_all"
 };
 
+/** index of the first input line that is not blank, i.e. the first line of the box */
+static size_t box_start = 0;
+
+/** index of the line after the last input line that is not blank */
+static size_t box_end = 0;
+
 
 
 int input_is_mono()
@@ -271,11 +277,8 @@ static size_t find_west_corner(design_t *current_design, comparison_t comp_type,
         size_t length_relevant = u32_strlen(shape_relevant);
 
         for (size_t k = 0; k < current_design->shape[corner].height; ++k) {
-            size_t a = k;
-            if (corner == SW) {
-                a += input.num_lines - current_design->shape[corner].height;
-            }
-            if (a >= input.num_lines) {
+            size_t a = k + (corner == SW ? box_end - current_design->shape[corner].height : box_start);
+            if (a >= box_end) {
                 break;
             }
 
@@ -320,11 +323,8 @@ static size_t find_east_corner(design_t *current_design, comparison_t comp_type,
         size_t length_relevant = u32_strlen(shape_relevant);
 
         for (size_t k = 0; k < current_design->shape[corner].height; ++k) {
-            size_t a = k;
-            if (corner == SE) {
-                a += input.num_lines - current_design->shape[corner].height;
-            }
-            if (a >= input.num_lines) {
+            size_t a = k + (corner == SE ? box_end - current_design->shape[corner].height : box_start);
+            if (a >= box_end) {
                 break;
             }
 
@@ -372,11 +372,9 @@ static size_t find_horizontal_shape(design_t *current_design, comparison_t comp_
         size_t length_relevant = u32_strlen(shape_relevant);
 
         for (size_t k = 0; k < current_design->shape[hshape].height; ++k) {
-            size_t line_idx = k;
-            if (hshape >= SSE && hshape <= SSW) {
-                line_idx += input.num_lines - current_design->shape[hshape].height;
-            }
-            if (line_idx >= input.num_lines) {
+            size_t line_idx = k
+                    + (hshape >= SSE && hshape <= SSW ? box_end - current_design->shape[hshape].height : box_start);
+            if (line_idx >= box_end) {
                 break;
             }
 
@@ -419,15 +417,15 @@ static size_t find_vertical_west(design_t *current_design, comparison_t comp_typ
 {
     size_t hits = 0;
     if (((empty[BTOP] ? 0 : current_design->shape[NW].height) + (empty[BBOT] ? 0 : current_design->shape[SW].height))
-            >= input.num_lines) {
+            >= box_end - box_start) {
         /* no hits */
     }
     else if (isempty(current_design->shape + vshape)) {
         /* no hits */
     }
     else {
-        for (size_t k = empty[BTOP] ? 0 : current_design->shape[NW].height;
-                k < input.num_lines - (empty[BBOT] ? 0 : current_design->shape[SW].height); ++k)
+        for (size_t k = box_start + (empty[BTOP] ? 0 : current_design->shape[NW].height);
+                k < box_end - (empty[BBOT] ? 0 : current_design->shape[SW].height); ++k)
         {
             uint32_t *input_relevant = prepare_comp_input(k, 1, comp_type, 0, NULL, NULL);
 
@@ -468,7 +466,7 @@ static size_t find_vertical_east(design_t *current_design, comparison_t comp_typ
 {
     size_t hits = 0;
     if (((empty[BTOP] ? 0 : current_design->shape[NW].height) + (empty[BBOT] ? 0 : current_design->shape[SW].height))
-            >= input.num_lines) {
+            >= box_end - box_start) {
         /* no hits */
     }
     else if (isempty(current_design->shape + vshape)) {
@@ -484,8 +482,8 @@ static size_t find_vertical_east(design_t *current_design, comparison_t comp_typ
             uint32_t *shape_relevant = prepare_comp_shape(current_design, vshape, j, comp_type, 1, 1);
             size_t length_relevant = u32_strlen(shape_relevant);
 
-            for (size_t k = empty[BTOP] ? 0 : current_design->shape[NW].height;
-                    k < input.num_lines - (empty[BBOT] ? 0 : current_design->shape[SW].height); ++k)
+            for (size_t k = box_start + (empty[BTOP] ? 0 : current_design->shape[NW].height);
+                    k < box_end - (empty[BBOT] ? 0 : current_design->shape[SW].height); ++k)
             {
                 uint32_t *input_relevant = prepare_comp_input(k, 0, comp_type, length_relevant, NULL, NULL);
                 if (input_relevant != NULL && u32_strncmp(input_relevant, shape_relevant, length_relevant) == 0) {
@@ -545,12 +543,30 @@ static long match_design(design_t *current_design, comparison_t comp_type)
 
 
 
+/**
+ * Determine the lines which may contain the box. Blank lines above and below the box are not part of it.
+ */
+static void find_box_lines()
+{
+    box_start = 0;
+    box_end = input.num_lines;
+    while (box_end > 0 && bxs_is_blank(input.lines[box_end - 1].text)) {
+        --box_end;
+    }
+    while (box_start < box_end && bxs_is_blank(input.lines[box_start].text)) {
+        ++box_start;
+    }
+}
+
+
+
 design_t *autodetect_design()
 {
     design_t *current_design;           /* ptr to currently tested design */
     long maxhits = 0;                   /* maximum no. of hits so far */
     design_t *result = NULL;            /* ptr to design with the most hits */
     int mono_input = input_is_mono();
+    find_box_lines();
     (void) comparison_name;             /* used only in debug statements */
 
     for (comparison_t comp_type = 0; comp_type < NUM_COMPARISON_TYPES; comp_type++) {
-- 
2.43.0


From 9b127f5ff61ea380761fadb665a307c796128901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:23 +0000
Subject: [PATCH 48/70] fix: write beyond the end of a shape line when
 detecting a colored design

When a shape line was trimmed on both sides, the position of its end was
looked up as if invisible characters were not part of it.
---
 src/detect.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/detect.c b/src/detect.c
index 2c1e018..d2a5ba8 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -169,11 +169,12 @@ uint32_t *prepare_comp_shape(
         }
     }
     else {
-        result = u32_strdup(trim_left ? bxs_unindent_ptr(shape_line) : shape_line->memory);
+        size_t ltrim = trim_left ? shape_line->first_char[shape_line->indent] : 0;
+        result = u32_strdup(shape_line->memory + ltrim);
 
         if (trim_right && shape_line->trailing > 0) {
-            size_t x = shape_line->num_chars_visible - (trim_left ? shape_line->indent : 0) - shape_line->trailing;
-            set_char_at(result, shape_line->first_char[x], char_nul);
+            size_t x = shape_line->num_chars_visible - shape_line->trailing;
+            set_char_at(result, shape_line->first_char[x] - ltrim, char_nul);
         }
     }
     return result;
-- 
2.43.0


From d51be5f28f4150a431c1c2c7099d18686fa391f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 49/70] fix: read beyond the end of a string in a configuration
 file that contains NUL

---
 src/lexer.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index c4fe1d7..5e78dad 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -156,7 +156,7 @@ PFILENAME [^\r\n]+
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
      */
-    int rest_len = yyleng - 1;           /* length of string pointed to by p */
+    int rest_len;                        /* length of string pointed to by p */
     int qcnt = 0;                        /* esc char count in current string */
 
     if (yytext[0] != yyextra->sdel) {
@@ -168,6 +168,7 @@ PFILENAME [^\r\n]+
         perror (PROJECT);
         exit (EXIT_FAILURE);
     }
+    rest_len = (int) strlen(str);        /* may be less than yyleng - 1 if there is a NUL in the file */
     char *p = str;
 
     while (*p) {
-- 
2.43.0


From 2e88835355cbfc48855cebdfb491f0d079af639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:16 +0000
Subject: [PATCH 50/70] fix: memory corruption when a token in the
 configuration file is longer than 16 KB

The REJECT action makes flex use a state buffer of fixed size. Besides, it
keeps the input buffer from growing.
---
 src/lexer.l | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index 5e78dad..c89e433 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -43,9 +43,9 @@ typedef struct {
 /**
  * User-defined initializations for the lexer.
  *
- * Since this scanner must use REJECT in order to be able to process the string delimiter commands, it cannot
- * dynamically enlarge its input buffer to accomodate larger tokens. Thus, we simply set the buffer size to the
- * input file size plus 10 bytes margin-of-error.
+ * We set the buffer size to the input file size plus 10 bytes margin-of-error, so that the buffer does not normally
+ * need to be enlarged. Note that this scanner must not use REJECT, because flex allocates a state buffer of fixed size
+ * for it, which overflows when a token is longer than 16 KB.
  *
  * @param yyscanner pointer to the scanner data block
  * @param configfile the path to the config file we are reading
@@ -160,7 +160,9 @@ PFILENAME [^\r\n]+
     int qcnt = 0;                        /* esc char count in current string */
 
     if (yytext[0] != yyextra->sdel) {
-        REJECT;                          /* that was not our delimiter */
+        yyless (1);                      /* that was not our delimiter, so the character made no sense here */
+        log_debug(__FILE__, LEXER, " YUNREC: \'%c\'\n", yytext[0]);
+        return YUNREC;
     }
 
     char *str = (char *) strdup(yytext + 1);
-- 
2.43.0


From f230d8e0a971e97b2c4033175695e6d6c825d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 51/70] fix: box was too wide when replacement rules shortened
 the text

The width of the longest line was only ever increased by replacement
rules, even by results which a later rule shortened again.
---
 src/input.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index a2db91d..dc144ac 100644
--- a/src/input.c
+++ b/src/input.c
@@ -165,8 +165,6 @@ int apply_substitutions(input_t *result, const int mode)
             bxs_free(result->lines[k].text);
             result->lines[k].text = replaced;
 
-            analyze_line_ascii(result, result->lines + k);   /* update maxline value */
-
             if (is_debug_logging(REGEXP)) {
                 char *outtext2 = bxs_to_output(result->lines[k].text);
                 log_debug(__FILE__, REGEXP, "result->lines[%d] == {%d, \"%s\"}\n",
@@ -177,6 +175,16 @@ int apply_substitutions(input_t *result, const int mode)
         opt.design->current_rule = NULL;
     }
 
+    /*
+     *  The lines may now be longer or shorter than before -> recalculate result->maxline.
+     */
+    if (num_rules > 0) {
+        result->maxline = 0;
+        for (k = 0; k < result->num_lines; ++k) {
+            analyze_line_ascii(result, result->lines + k);
+        }
+    }
+
     /*
      *  If text indentation was part of the lines processed, indentation
      *  may now be different -> recalculate result->indent.
-- 
2.43.0


From 12fa9bff1349e7e2d1bd2c3d17d5a0215907cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:12 +0000
Subject: [PATCH 52/70] fix: box was misaligned when its characters do not
 exist in the output encoding

---
 src/unicode.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/unicode.c b/src/unicode.c
index 2478c86..4800ba4 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -26,6 +26,7 @@
 #include <uniconv.h>
 #include <unictype.h>
 #include <unistr.h>
+#include <uniwidth.h>
 
 #include "boxes.h"
 #include "tools.h"
@@ -238,6 +239,53 @@ uint32_t *u32_strconv_from_arg(const char *src, const char *sourceEncoding)
 
 
 
+/**
+ * Make a copy of the given string in which every character that does not exist in the target encoding is replaced by
+ * text that exists there and is just as wide, so that the alignment of the output is preserved. The replacement is the
+ * transliteration offered by the C library if it has the right width, otherwise as many question marks as needed.
+ * @param src the string to convert
+ * @param targetEncoding the encoding in which all characters of the result must exist
+ * @return the new string, for which memory was allocated, or NULL when out of memory
+ */
+static uint32_t *u32_replace_unconvertible(const uint32_t *src, const char *targetEncoding)
+{
+    size_t len = u32_strlen(src);
+    uint32_t *result = (uint32_t *) calloc(2 * len + 1, sizeof(uint32_t));   /* a character has at most two columns */
+    if (result == NULL) {
+        return NULL;
+    }
+    uint32_t *out = result;
+    for (size_t i = 0; i < len; i++) {
+        const uint32_t single[2] = {src[i], char_nul};
+        char *converted = u32_strconv_to_encoding(single, targetEncoding, iconveh_error);
+        if (converted != NULL) {
+            *out++ = src[i];
+        }
+        else {
+            int cols = BMAX(0, uc_width(src[i], targetEncoding));
+            converted = u32_strconv_to_encoding(single, targetEncoding, iconveh_question_mark);
+            uint32_t *translit = converted == NULL ? NULL
+                    : u32_strconv_from_encoding(converted, targetEncoding, iconveh_error);
+            if (translit != NULL && u32_strlen(translit) <= 2 && u32_strwidth(translit, targetEncoding) == cols) {
+                for (uint32_t *p = translit; *p != char_nul; p++) {
+                    *out++ = *p;
+                }
+            }
+            else {
+                for (int c = 0; c < cols; c++) {
+                    *out++ = (uint32_t) '?';
+                }
+            }
+            BFREE(translit);
+        }
+        BFREE(converted);
+    }
+    *out = char_nul;
+    return result;
+}
+
+
+
 char *u32_strconv_to_output(const uint32_t *src)
 {
     return u32_strconv_to_arg(src, encoding);
@@ -254,10 +302,14 @@ char *u32_strconv_to_arg(const uint32_t *src, const char *targetEncoding)
         return strdup("");
     }
 
-    char *result = u32_strconv_to_encoding(
-            src,                    /* the source string to convert */
-            targetEncoding,         /* the character encoding to which to convert */
-            iconveh_question_mark); /* produce one question mark '?' per unconvertible character */
+    char *result = u32_strconv_to_encoding(src, targetEncoding, iconveh_error);
+    if (result == NULL && errno == EILSEQ) {
+        uint32_t *replaced = u32_replace_unconvertible(src, targetEncoding);
+        if (replaced != NULL) {
+            result = u32_strconv_to_encoding(replaced, targetEncoding, iconveh_question_mark);
+            BFREE(replaced);
+        }
+    }
 
     if (result == NULL) {
         fprintf(stderr, "%s: failed to convert from UTF-32 to '%s': %s\n", PROJECT, targetEncoding, strerror(errno));
-- 
2.43.0


From 01443e11a78ec25a2581d80ea516d9fc0e18f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:42 +0000
Subject: [PATCH 53/70] fix: strings and comments were rejected on the last
 line of a config file without line terminator

---
 src/lexer.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index c89e433..5bdb084 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -151,7 +151,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<BOX,SHAPES>{SDELIM}.*$ {
+<BOX,SHAPES>{SDELIM}.* {
     /*
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
@@ -437,7 +437,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<INITIAL,BOX,SHAPES,ELASTIC>#.*$ {
+<INITIAL,BOX,SHAPES,ELASTIC>#.* {
     /* ignore comments */
     log_debug(__FILE__, LEXER, "COMMENT: %s\n", yytext + 1);
 }
-- 
2.43.0


From 5df1008ec1fb14a437a155df50e0f99a5457973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:51 +0000
Subject: [PATCH 54/70] fix: SAMPLE block was cut off at a line which merely
 ends in "ends"

---
 src/lexer.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 5bdb084..348f482 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -97,6 +97,7 @@ static int change_string_delimiters(pass_to_flex *extra, char *delim_expr);
 
 %x BOX
 %x SAMPLE
+%x SAMPLE_END
 %x SHAPES
 %x ELASTIC
 %x DELIMSPEC
@@ -247,6 +248,7 @@ PFILENAME [^\r\n]+
 <SAMPLE>^[ \t]*ends[ \t\r]*$ {
     char *p = yytext + yyleng -1;
     size_t len;                          /* length of sample */
+    BEGIN(SAMPLE_END);
 
     while (*p == ' ' || *p == '\t' || *p == '\r')
         --p;                             /* skip trailing whitespace */
@@ -290,7 +292,7 @@ PFILENAME [^\r\n]+
 
 <SAMPLE>. yymore();
 
-<SAMPLE>ends[ \t\r]*$ {
+<SAMPLE_END>ends[ \t\r]*$ {
     /* reached because the other rule pushes it back so a proper end token can be returned */
     BEGIN(BOX);
     report_state("YENDSAM", yytext, "BOX");
-- 
2.43.0


From 93621922c4e77c9399889b491324cc4c9ca8346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:44 +0000
Subject: [PATCH 55/70] fix: byte order mark was taken as part of the first
 word of a config file

---
 src/lexer.l | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index 348f482..0116467 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -111,12 +111,13 @@ static int change_string_delimiters(pass_to_flex *extra, char *delim_expr);
 PBOM      \xEF\xBB\xBF
 U2A       [\xC2-\xDF][\x80-\xBF]
 U2B       \xE0[\xA0-\xBF][\x80-\xBF]
-U3A       [\xE1-\xEC\xEE\xEF][\x80-\xBF]{2}
+U3A       [\xE1-\xEC\xEE][\x80-\xBF]{2}
+U3C       \xEF(?:[\x80-\xBA\xBC-\xBF][\x80-\xBF]|\xBB[\x80-\xBE])
 U3B       \xED[\x80-\x9F][\x80-\xBF]
 U4A       \xF0[\x90-\xBF][\x80-\xBF]{2}
 U4B       [\xF1-\xF3][\x80-\xBF]{3}
 U4C       \xF4[\x80-\x8F][\x80-\xBF]{2}
-UTF_8     {U2A}|{U2B}|{U3A}|{U3B}|{U4A}|{U4B}|{U4C}
+UTF_8     {U2A}|{U2B}|{U3A}|{U3B}|{U3C}|{U4A}|{U4B}|{U4C}
 
 PWORD     (?:[a-zA-Z]|{UTF_8})(?:[a-zA-Z0-9_-]|{UTF_8})*
 PASCII_ID [a-zA-Z][a-zA-Z0-9_-]*
-- 
2.43.0


From 99874a0e5c81d2d578dcae0879987760441a386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 56/70] fix: ill-formed name of a box design was not reported
 when the design before it was ill-formed

---
 src/parser.y | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.y b/src/parser.y
index 38bfe60..7951fb3 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -230,13 +230,18 @@ design_id: ASCII_ID | ASCII_ID ',' alias_list
     }
 ;
 
-design: YBOX design_id
+design: YBOX
     {
-        invoke_action(action_start_parsing_design(bison_args, $<ascii>2));
+        /* a new design has been found, so a problem in its name must be reported, too */
+        bison_args->skipping = 0;
+    }
+design_id
+    {
+        invoke_action(action_start_parsing_design(bison_args, $<ascii>3));
     }
 layout YEND ASCII_ID
     {
-        invoke_action(action_add_design(bison_args, $<ascii>2, $6));
+        invoke_action(action_add_design(bison_args, $<ascii>3, $7));
     }
 ;
 
-- 
2.43.0


From 593980baf4d59bdaf341d514170cab75e7335695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:30 +0000
Subject: [PATCH 57/70] fix: config file which is part of a cycle of parents
 was loaded again as its own parent

---
 src/parsing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsing.c b/src/parsing.c
index 65d21be..be4317b 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -219,7 +219,8 @@ static int record_parent_config_files(pass_to_bison *bison_args)
     if (bison_args->num_parent_configs > 0) {
         for (int parent_idx = bison_args->num_parent_configs - 1; parent_idx >= 0; parent_idx--) {
             bxstr_t *parent_file = bison_args->parent_configs[parent_idx];
-            int is_new = !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
+            int is_new = bxs_strcmp(parent_file, first_config_file) != 0
+                    && !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
             if (is_new) {
                 parent_configs = (bxstr_t **) realloc(parent_configs, (num_parent_configs + 1) * sizeof(bxstr_t *));
                 if (parent_configs == NULL) {
-- 
2.43.0


From 9c327e6001d421cf05e444004e848ac35f645ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 58/70] fix: directory as parent config made the scanner exit
 with status 2

---
 src/parsecode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsecode.c b/src/parsecode.c
index bb3c0aa..65385ed 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -23,6 +23,7 @@
 #include <stdlib.h>
 #include <ctype.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <strings.h>
 #include <unictype.h>
 #include <unistr.h>
@@ -656,7 +657,12 @@ int action_parent_config(pass_to_bison *bison_args, bxstr_t *filepath)
         return RC_ERROR;
     }
     else {
+        struct stat statbuf;
         FILE *f = bx_fopens(filepath, "r");
+        if (f != NULL && fstat(fileno(f), &statbuf) == 0 && S_ISDIR(statbuf.st_mode)) {
+            fclose(f);
+            f = NULL;
+        }
         if (f == NULL) {
             bison_args->skipping = 1;
             yyerror(bison_args, "parent config file not found: %s", bxs_to_output(filepath));
-- 
2.43.0


From 4ea4fbb1f15e442566dc8b9988d66c2c06b9a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 59/70] fix: design given on the command line could not be used
 without a config file

---
 src/boxes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index ca4a001..38bd094 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -234,11 +234,11 @@ static void handle_command_line(int argc, char *argv[])
  */
 static void handle_config_parsing()
 {
-    bxstr_t *config_file = discover_config_file(0);
-    if (config_file == NULL) {
-        exit(EXIT_FAILURE);
-    }
     if (opt.cld == NULL) {
+        bxstr_t *config_file = discover_config_file(0);
+        if (config_file == NULL) {
+            exit(EXIT_FAILURE);
+        }
         size_t r_num_designs = 0;
         designs = parse_config_files(config_file, &r_num_designs);
         if (designs == NULL) {
-- 
2.43.0


From 19475d599f31cd18e228b091713b92aaa74467b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:39 +0000
Subject: [PATCH 60/70] fix: tab distance without a letter kept the tab
 handling of an earlier -t

---
 src/cmdline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmdline.c b/src/cmdline.c
index ca77d0f..773a024 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -540,6 +540,7 @@ static int tab_handling(opt_t *result, char *optarg)
         return 1;
     }
     result->tabstop = (int) width;
+    result->tabexp = 'e';
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From f317073d301942694feccbe8990cb04191c0ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:10 +0000
Subject: [PATCH 61/70] fix: boxes exited with status 2 when its config file
 could not be read

---
 src/lexer.l | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index 0116467..8d95e7c 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -58,6 +58,10 @@ void inflate_inbuf(void *yyscanner, const bxstr_t *configfile);
 #include <string.h>
 #include <sys/stat.h>
 #include <unistd.h>
+
+/* exit status when the config file cannot be read or memory is exhausted (the default is 2) */
+#define YY_EXIT_FAILURE  EXIT_FAILURE
+
 #include <unitypes.h>
 
 #include "boxes.h"
-- 
2.43.0


From efff508b2151376c5e68ab2afb8bcc943241f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:15 +0000
Subject: [PATCH 62/70] fix: boxes terminated without output when the terminal
 type was unknown or generic

---
 src/boxes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 38bd094..f237632 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -462,7 +462,8 @@ static int terminal_has_colors()
         result = 1; /* On Windows, we always assume color capability. */
         UNUSED(termtype);
     #else
-        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, NULL) == OK && tigetnum("colors") >= 8) {
+        int terminfo_status = 0;   /* must be passed, because otherwise setupterm() terminates the process on error */
+        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, &terminfo_status) == OK && tigetnum("colors") >= 8) {
             result = 1;
         }
     #endif
-- 
2.43.0


From 47316e8bbd0d735c3525ec3d6cb316e3e0aba6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 63/70] fix: message about an illegal character was not printed
 if the locale could not represent the character

---
 src/bxstring.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index ca745f0..c303698 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -32,6 +32,17 @@
 
 
 
+/* The character must not be printed via "%lc", because then nothing at all is printed if the locale can't represent it. */
+static void report_illegal_char(ucs4_t c)
+{
+    uint32_t str[] = {c, char_nul};
+    char *out = u32_strconv_to_output(str);
+    bx_fprintf(stderr, "%s: illegal character '%s' (%#010x) encountered in string\n", PROJECT, out ? out : "?", (int) c);
+    BFREE(out);
+}
+
+
+
 bxstr_t *bxs_from_ascii(char *pAscii)
 {
     if (pAscii == NULL) {
@@ -49,8 +60,7 @@ bxstr_t *bxs_from_ascii(char *pAscii)
 
     size_t error_pos = 0;
     if (!bxs_valid_anywhere(result, &error_pos)) {
-        ucs4_t c = result->memory[error_pos];
-        bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT, c, (int) c);
+        report_illegal_char(result->memory[error_pos]);
         bxs_free(result);
         return NULL;
     }
@@ -113,7 +123,7 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
         }
 
         if (!is_allowed_anywhere(c)) { /* currently used for config only, reconsider when using on input data */
-            bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT, c, (int) c);
+            report_illegal_char(c);
             bxs_free(result);
             return NULL;
         }
-- 
2.43.0


From 9ea3a946a4ae7b7c27b970435ace7f4b2b96bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:54 +0000
Subject: [PATCH 64/70] fix: tags which only begin with the word 'none' were
 rejected as invalid

---
 src/tools.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 44d83fd..04819c1 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -58,13 +58,13 @@ static pcre2_code *get_pattern_ascii_id(int strict)
     pcre2_code *result = NULL;
     if (strict) {
         if (pattern_ascii_id_strict == NULL) {
-            pattern_ascii_id_strict = compile_pattern("^(?!.*?--|none)[a-z][a-z0-9-]*(?<!-)$");
+            pattern_ascii_id_strict = compile_pattern("^(?!.*?--|none$)[a-z][a-z0-9-]*(?<!-)$");
         }
         result = pattern_ascii_id_strict;
     }
     else {
         if (pattern_ascii_id == NULL) {
-            pattern_ascii_id = compile_pattern("^(?!.*?[-_]{2,}|none)[a-zA-Z][a-zA-Z0-9_-]*(?<![-_])$");
+            pattern_ascii_id = compile_pattern("^(?!.*?[-_]{2,}|none$)[a-zA-Z][a-zA-Z0-9_-]*(?<![-_])$");
         }
         result = pattern_ascii_id;
     }
-- 
2.43.0


From 8d121458b12ebcec24fcdbc5db01938e387369ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 65/70] fix: keep the text which follows a UTF-8 sequence
 beyond the range of Unicode

The conversion function puts out-of-range values instead of question marks for
such sequences, and the rest of the line was then lost on output.
---
 src/unicode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index 4800ba4..90a9ec6 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -233,6 +233,12 @@ uint32_t *u32_strconv_from_arg(const char *src, const char *sourceEncoding)
 
     if (result == NULL) {
         fprintf(stderr, "%s: failed to convert from '%s' to UTF-32: %s\n", PROJECT, sourceEncoding, strerror(errno));
+        return NULL;
+    }
+    for (uint32_t *p = result; *p != char_nul; ++p) {
+        if (*p > 0x10ffff) {
+            *p = '?';   /* some invalid UTF-8 sequences are converted to values beyond Unicode */
+        }
     }
     return result;
 }
-- 
2.43.0


From fd259671034f6b997d02a3040febdd631259ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:16 +0000
Subject: [PATCH 66/70] fix: Indentation of more than 16384 columns (by tabs)
 was cut off to that size

---
 src/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index dc144ac..cb1f2ed 100644
--- a/src/input.c
+++ b/src/input.c
@@ -20,6 +20,7 @@
 #include "config.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <unistr.h>
 #include <unitypes.h>
@@ -61,7 +62,7 @@ static int has_linebreak(const uint32_t *s, const int len)
  */
 static int get_indent(const line_t *lines, const size_t lines_size)
 {
-    int res = LINE_MAX_BYTES; /* result */
+    int res = INT_MAX;        /* result; tabs may be expanded to more columns than a line can have bytes */
     int nonblank = 0;         /* true if one non-blank line found */
 
     if (lines == NULL) {
-- 
2.43.0


From bfca208c6e48948d7e4ef82f8b0d5ca1f31b4dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:57 +0000
Subject: [PATCH 67/70] fix: Of several resets at the end of a line, only the
 first was kept, so that colors leaked into the box

---
 src/tools.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 04819c1..59b85d7 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -331,12 +331,14 @@ void btrim32(uint32_t *text, size_t *len)
         rest = advance_next32(rest, &step_invis);
     }
 
-    /* If the last character is followed by an escape sequence, keep it (but only one). */
+    /* If the last character is followed by an escape sequence, keep it (but only one, and any resets following it). */
     if (last_char_pos >= 0) {
         rest = text + last_char_pos + 1;
         if (rest[0] == char_esc) {
-            advance_next32(rest, &step_invis);
-            last_char_pos += step_invis;
+            do {
+                rest = advance_next32(rest, &step_invis);
+                last_char_pos += step_invis;
+            } while (is_csi_reset(rest));
         }
     }
 
-- 
2.43.0


From 87256ca2dbd1713dbd4a7f2c9483da9180804bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:02 +0000
Subject: [PATCH 68/70] fix: Resets of bold, underlined, inverse etc. were not
 recognized and got lost at the end of a line

---
 src/tools.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 59b85d7..1a785ce 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -576,9 +576,11 @@ int is_csi_reset(const uint32_t *csi)
                         return 1;
                     }
                     else if ((puc == '1' && *rest == '0')
+                          || (puc == '2' && *rest >= '2' && *rest <= '9')
                           || (puc == '3' && *rest == '9')
                           || (puc == '4' && *rest == '9')
-                          || (puc == '5' && *rest == '9')
+                          || (puc == '5' && (*rest == '4' || *rest == '5' || *rest == '9'))
+                          || (puc == '6' && *rest == '5')
                           || (puc == '7' && *rest == '5')) {
                         rest = u32_next(&puc, rest);
                         break;
-- 
2.43.0


From 3c689a2b4106b665980473134c36e269555e4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 69/70] fix: Resets with several attributes, e.g. ESC[39;49m,
 were not recognized and got lost at the end of a line

---
 src/tools.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.c b/src/tools.c
index 1a785ce..0aefd78 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -589,6 +589,10 @@ int is_csi_reset(const uint32_t *csi)
                 }
                 break;
             default:
+                if (puc == ';') {
+                    csi_pos = 1;   /* one more attribute, must be a reset, too */
+                    break;
+                }
                 return (puc >= 0x40 && puc <= 0x7e) ? 1 : 0;
         }
         csi_pos++;
-- 
2.43.0


From 00f798d6bced407b4401edcb72fe01d5d6df5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 70/70] fix: A blank left side could cut an escape sequence in
 the indentation in half

---
 src/remove.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 9429e4d..45d7af3 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -745,7 +745,8 @@ static void match_blank_west_shape(remove_ctx_t *ctx, line_ctx_t *line_ctx, shap
     for (shape_line_ctx_t **shape_line_ctx = shape_lines; *shape_line_ctx != NULL; shape_line_ctx++) {
         bxstr_t *text = (*shape_line_ctx)->text;
         if (!(*shape_line_ctx)->empty && bxs_is_blank(text) && text->num_chars > 0
-                && start + text->num_chars <= input_indent)
+                && start + text->num_chars <= input_indent
+                && u32_strncmp(input_line + start, text->memory, text->num_chars) == 0)
         {
             line_ctx->west_start = start;
             line_ctx->west_end = start + text->num_chars;
-- 
2.43.0

