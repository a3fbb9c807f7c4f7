/* Executes operations of boxes' string library and reports the complete state of every string involved (C26).
 *
 * One operation per line on standard input, one line of results on standard output. Strings in the script are lists of
 * hexadecimal code points separated by commas, "-" for the empty string and "*" for NULL. Strings live in numbered slots. */
#include "config.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistr.h>

#include "boxes.h"
#include "bxstring.h"
#include "regulex.h"
#include "tools.h"
#include "unicode.h"

#define SLOTS 64
static bxstr_t *slot[SLOTS];

static uint32_t *u32_arg(const char *s)
{
    if (s == NULL || s[0] == '*') {
        return NULL;
    }
    size_t n = 0;
    for (const char *p = s; *p; p++) {
        n += *p == ',';
    }
    uint32_t *r = malloc((n + 2) * sizeof(uint32_t));   /* exact size, so that the sanitizer sees any access beyond the end */
    size_t k = 0;
    if (s[0] != '-') {
        for (const char *p = s; p != NULL && *p; ) {
            r[k++] = (uint32_t) strtoul(p, NULL, 16);
            p = strchr(p, ',');
            if (p) {
                p++;
            }
        }
    }
    r[k] = 0;
    return realloc(r, (k + 1) * sizeof(uint32_t));
}

static void put32(const uint32_t *s)
{
    if (s == NULL) {
        fputs("*", stdout);
        return;
    }
    if (*s == 0) {
        fputs("-", stdout);
    }
    for (size_t i = 0; s[i]; i++) {
        printf("%s%x", i ? "," : "", (unsigned) s[i]);
    }
}

static void put8(const char *s)
{
    if (s == NULL) {
        fputs("*", stdout);
        return;
    }
    if (*s == 0) {
        fputs("-", stdout);
    }
    for (size_t i = 0; s[i]; i++) {
        printf("%s%x", i ? "," : "", (unsigned) (unsigned char) s[i]);
    }
}

static void state(const bxstr_t *b)
{
    if (b == NULL) {
        fputs(" *", stdout);
        return;
    }
    putchar(' ');
    put32(b->memory);
    putchar('|');
    put8(b->ascii);
    printf("|%zu|%zu|%zu|%zu|%zu|%zu|", b->indent, b->num_columns, b->num_chars, b->num_chars_visible, b->num_chars_invisible, b->trailing);
    for (size_t i = 0; i <= b->num_chars_visible; i++) {
        printf("%s%zu", i ? "," : "", b->first_char[i]);
    }
    putchar('|');
    for (size_t i = 0; i <= b->num_chars_visible; i++) {
        printf("%s%zu", i ? "," : "", b->visible_char[i]);
    }
}

static void offset(const bxstr_t *b, const uint32_t *p)
{
    if (p == NULL) {
        fputs(" *", stdout);
    }
    else {
        printf(" %ld", (long) (p - b->memory));
    }
}

static void set(size_t k, bxstr_t *b)
{
    bxs_free(slot[k]);
    slot[k] = b;
    state(b);
}

static void queries(bxstr_t *b)
{
    printf(" %d %d", bxs_is_empty(b) != 0, bxs_is_blank(b) != 0);
    uint32_t *v = bxs_filter_visible(b);
    putchar(' ');
    put32(v);
    BFREE(v);
    for (color_output_enabled = 0; color_output_enabled < 2; color_output_enabled++) {
        char *o = bxs_to_output(b);
        putchar(' ');
        put8(o);
        BFREE(o);
    }
    offset(b, bxs_last_char_ptr(b));
    offset(b, bxs_unindent_ptr(b));
    int (*valid[])(bxstr_t *, size_t *) = {bxs_valid_anywhere, bxs_valid_in_shape, bxs_valid_in_sample, bxs_valid_in_filename, bxs_valid_in_kv_string};
    for (size_t i = 0; i < 5; i++) {
        size_t pos = 9999;
        int r1 = valid[i](b, &pos);
        int r2 = valid[i](b, NULL);
        printf(" %d", (r1 != 0) == (r2 != 0) ? r1 != 0 : -1);
        printf(":%zu", pos);
    }
    size_t n = b ? b->num_chars : 3;
    putchar(' ');
    for (size_t i = 0; i < n + 3; i++) {
        putchar(bxs_is_visible_char(b, i) ? '1' : '0');
    }
    for (size_t i = 0; b != NULL && i < b->num_chars_visible + 3; i++) {
        offset(b, bxs_first_char_ptr(b, i));
    }
}

static void text_functions(uint32_t *s, size_t a, size_t b)
{
    printf(" %d %d %d", is_empty(s) != 0, u32_is_blank(s) != 0, s ? is_csi_reset(s) != 0 : 0);
    uint32_t *t = s ? u32_strdup(s) : NULL;
    if (t != NULL) {
        u32_insert_space_at(&t, a, b);
    }
    putchar(' ');
    put32(t);
    BFREE(t);
    t = u32_nspaces(b);
    putchar(' ');
    put32(t);
    BFREE(t);
    char *u = to_utf8(s);
    putchar(' ');
    put8(u);
    uint32_t *back = u ? u32_strconv_from_arg(u, "UTF-8") : NULL;
    putchar(' ');
    put32(back);
    BFREE(u);
    BFREE(back);
    /* positions when walking through the string */
    putchar(' ');
    if (s != NULL) {
        size_t invis = 0;
        for (const uint32_t *p = s; *p; ) {
            p = advance_next32(p, &invis);
            printf("%ld:%zu,", (long) (p - s), invis);
        }
        size_t esc = 0, *map = NULL;
        char *ascii = NULL;
        size_t r = count_invisible_chars(s, &esc, &ascii, &map);
        printf(" %zu:%zu ", r, esc);
        BFREE(ascii);
        BFREE(map);
        for (int ts = 1; ts <= 8; ts += 7) {
            uint32_t *x = NULL;
            size_t *tp = NULL, tpl = 0;
            opt.tabexp = 'k';
            size_t len = expand_tabs_into(s, ts, &x, &tp, &tpl);
            printf("%zu/", len);
            put32(x);
            putchar('/');
            for (size_t i = 0; i < tpl; i++) {
                printf("%s%zu", i ? "," : "", tp[i]);
            }
            putchar(' ');
            BFREE(x);
            BFREE(tp);
        }
    }
}

static void byte_functions(char *s, char *t, size_t n)
{
    char *x = s ? trimdup(s, s + strlen(s) - (*s ? 1 : 0)) : NULL;
    putchar(' ');
    put8(x);
    BFREE(x);
    x = bx_strndup(s, n);
    putchar(' ');
    put8(x);
    BFREE(x);
    x = repeat(s, n);
    putchar(' ');
    put8(x);
    BFREE(x);
    x = concat_strings_alloc(3, s, t, s);
    putchar(' ');
    put8(x);
    BFREE(x);
    x = nspaces(n);
    putchar(' ');
    put8(x);
    BFREE(x);
    printf(" %zu %d %d %d", my_strrspn(s, t), strisyes(s) != 0, strisno(s) != 0, tag_is_valid(s) != 0);
    size_t len = strlen(s);
    x = strdup(s);
    btrim(x, &len);
    printf(" %zu ", len);
    put8(x);
    BFREE(x);
}

int main(void)
{
    static char line[1 << 20];
    encoding = "UTF-8";
    memset(&opt, 0, sizeof(opt));
    while (fgets(line, sizeof(line), stdin)) {
        char *w[16] = {0};
        int n = 0;
        for (char *p = strtok(line, " \n"); p && n < 16; p = strtok(NULL, " \n")) {
            w[n++] = p;
        }
        if (n == 0) {
            continue;
        }
        const char *op = w[0];
        size_t k = n > 1 ? strtoul(w[1], NULL, 10) : 0, j = n > 2 ? strtoul(w[2], NULL, 10) : 0;
        size_t a = n > 3 ? strtoul(w[3], NULL, 10) : 0, b = n > 4 ? strtoul(w[4], NULL, 10) : 0;
        fputs(op, stdout);
        fflush(stdout);
        bxstr_t *src = n > 2 ? slot[j % SLOTS] : NULL;
        int show_source = 1;
        if (!strcmp(op, "new")) {
            uint32_t *s = u32_arg(w[2]);
            src = NULL;
            show_source = 0;
            set(k, bxs_from_unicode(s));
            putchar(' ');
            put32(s);       /* the argument must not change */
            BFREE(s);
        }
        else if (!strcmp(op, "ascii")) {
            uint32_t *s = u32_arg(w[2]);
            char *c = to_utf8(s);
            show_source = 0;
            set(k, bxs_from_ascii(c));
            putchar(' ');
            put8(c);
            BFREE(c);
            BFREE(s);
        }
        else if (!strcmp(op, "empty")) {
            show_source = 0;
            set(k, bxs_new_empty_string());
        }
        else if (!strcmp(op, "dup")) {
            set(k, bxs_strdup(src));
        }
        else if (!strcmp(op, "trimdup")) {
            set(k, bxs_trimdup(src, a, b));
        }
        else if (!strcmp(op, "substr")) {
            set(k, bxs_substr(src, a, b));
        }
        else if (!strcmp(op, "strcat")) {
            uint32_t *s = u32_arg(w[3]);
            set(k, bxs_strcat(src, s));
            BFREE(s);
        }
        else if (!strcmp(op, "concat")) {
            uint32_t *x = slot[a]->memory, *y = slot[b]->memory;
            set(k, bxs_concat(3, src->memory, x, y));
        }
        else if (!strcmp(op, "cut")) {
            set(k, bxs_cut_front(src, a));
        }
        else if (!strcmp(op, "trim")) {
            set(k, bxs_trim(src));
        }
        else if (!strcmp(op, "rtrim")) {
            set(k, bxs_rtrim(src));
        }
        else if (!strcmp(op, "ltrim")) {
            uint32_t *s = bxs_ltrim(src, a);
            putchar(' ');
            put32(s);
            BFREE(s);
        }
        else if (!strcmp(op, "prepend")) {
            set(k, bxs_prepend_spaces(src, a));
        }
        else if (!strcmp(op, "append")) {       /* in place */
            show_source = 0;
            bxs_append_spaces(slot[j], a);
            state(slot[j]);
        }
        else if (!strcmp(op, "queries")) {
            queries(src);
        }
        else if (!strcmp(op, "strchr")) {
            ucs4_t c = (ucs4_t) strtoul(w[3], NULL, 16);
            offset(src, bxs_strchr(src, c, NULL));
            int cursor = -1;
            uint32_t *p;
            while ((p = bxs_strchr(src, c, &cursor)) != NULL) {
                offset(src, p);
                printf("@%d", cursor);
            }
            printf(" %d", cursor);
        }
        else if (!strcmp(op, "strcmp")) {
            int r = bxs_strcmp(slot[k], src), q = bxs_strcmp(src, slot[k]);
            printf(" %d %d", (r > 0) - (r < 0), (q > 0) - (q < 0));
            bxstr_t *arr[2] = {slot[k], slot[k]};
            printf(" %d %d", array_contains_bxs(arr, 2, src) != 0, array_contains_bxs(arr, 0, src) != 0);
        }
        else if (!strcmp(op, "ascii_id")) {
            printf(" %d %d", is_ascii_id(src, 0) != 0, is_ascii_id(src, 1) != 0);
        }
        else if (!strcmp(op, "text")) {
            uint32_t *s = u32_arg(w[2]);
            show_source = 0;
            text_functions(s, a, b);
            BFREE(s);
        }
        else if (!strcmp(op, "strnrstr")) {
            uint32_t *h = u32_arg(w[2]), *d = u32_arg(w[3]);
            show_source = 0;
            uint32_t *p = u32_strnrstr(h, d, u32_strlen(d));
            printf(" %ld", p ? (long) (p - h) : -1L);
            BFREE(h);
            BFREE(d);
        }
        else if (!strcmp(op, "bytes")) {
            uint32_t *s = u32_arg(w[2]), *t = u32_arg(w[3]);
            char *c = to_utf8(s), *d = to_utf8(t);
            show_source = 0;
            byte_functions(c, d, strtoul(w[4], NULL, 10));
            BFREE(c);
            BFREE(d);
            BFREE(s);
            BFREE(t);
        }
        if (show_source) {
            fputs(" <", stdout);
            state(src);
        }
        putchar('\n');
    }
    for (size_t i = 0; i < SLOTS; i++) {
        bxs_free(slot[i]);      /* a result that shares memory with another string is freed twice here */
    }
    puts("end");
    return 0;
}
