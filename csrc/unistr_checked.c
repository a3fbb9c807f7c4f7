/* Instrumented stand-ins for the libunistring functions through which boxes reads and writes memory. The shared library
 * is not instrumented, so that accesses made on behalf of boxes would escape the sanitizers. Behaviour as documented in
 * the libunistring manual. The conversion functions are wrapped: their arguments are checked, then the real ones run. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <unitypes.h>
#include <uniconv.h>
#include <uniwidth.h>

size_t u32_strlen(const uint32_t *s) { size_t n = 0; while (s[n]) n++; return n; }

uint32_t *u32_set(uint32_t *s, ucs4_t uc, size_t n) { for (size_t i = 0; i < n; i++) s[i] = uc; return s; }

uint32_t *u32_cpy(uint32_t *dest, const uint32_t *src, size_t n)
{
    for (size_t i = 0; i < n; i++) dest[i] = src[i];
    return dest;
}

uint32_t *u32_move(uint32_t *dest, const uint32_t *src, size_t n)
{
    if (dest < src) for (size_t i = 0; i < n; i++) dest[i] = src[i];
    else for (size_t i = n; i > 0; i--) dest[i - 1] = src[i - 1];
    return dest;
}

int u32_cmp(const uint32_t *a, const uint32_t *b, size_t n)
{
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}

int u32_strcmp(const uint32_t *a, const uint32_t *b)
{
    for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; }
}

int u32_strncmp(const uint32_t *a, const uint32_t *b, size_t n)
{
    for (; n > 0; a++, b++, n--) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; }
    return 0;
}

uint32_t *u32_strcpy(uint32_t *dest, const uint32_t *src)
{
    uint32_t *d = dest;
    while ((*d++ = *src++)) ;
    return dest;
}

uint32_t *u32_strcat(uint32_t *dest, const uint32_t *src) { u32_strcpy(dest + u32_strlen(dest), src); return dest; }

uint32_t *u32_strdup(const uint32_t *s)
{
    size_t n = u32_strlen(s) + 1;
    uint32_t *r = malloc(n * sizeof(uint32_t));
    return r ? u32_cpy(r, s, n) : NULL;
}

uint32_t *u32_strchr(const uint32_t *s, ucs4_t uc)
{
    for (;; s++) { if (*s == uc) return (uint32_t *) s; if (!*s) return NULL; }
}

uint32_t *u32_strrchr(const uint32_t *s, ucs4_t uc)
{
    uint32_t *r = NULL;
    for (;; s++) { if (*s == uc) r = (uint32_t *) s; if (!*s) return r; }
}

uint32_t *u32_strstr(const uint32_t *h, const uint32_t *n)
{
    size_t ln = u32_strlen(n), lh = u32_strlen(h);
    for (size_t i = 0; i + ln <= lh; i++) if (u32_cmp(h + i, n, ln) == 0) return (uint32_t *) h + i;
    return NULL;
}

const uint32_t *u32_next(ucs4_t *puc, const uint32_t *s)
{
    *puc = *s;
    return *s ? s + 1 : NULL;
}

char *__real_u32_strconv_to_encoding(const uint32_t *, const char *, enum iconv_ilseq_handler);
char *__wrap_u32_strconv_to_encoding(const uint32_t *s, const char *enc, enum iconv_ilseq_handler h)
{
    volatile size_t n = u32_strlen(s) + strlen(enc);
    (void) n;
    return __real_u32_strconv_to_encoding(s, enc, h);
}

uint32_t *__real_u32_strconv_from_encoding(const char *, const char *, enum iconv_ilseq_handler);
uint32_t *__wrap_u32_strconv_from_encoding(const char *s, const char *enc, enum iconv_ilseq_handler h)
{
    volatile size_t n = strlen(s) + strlen(enc);
    (void) n;
    return __real_u32_strconv_from_encoding(s, enc, h);
}

int __real_u32_strwidth(const uint32_t *, const char *);
int __wrap_u32_strwidth(const uint32_t *s, const char *enc)
{
    volatile size_t n = u32_strlen(s) + strlen(enc);
    (void) n;
    return __real_u32_strwidth(s, enc);
}
