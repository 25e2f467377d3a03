// Environment models, compiled with instrumentation (and -fno-builtin).
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
extern "C" {
bool symrt_any_sym(const void *p, unsigned long n);
void symrt_check_concrete(const void *p, unsigned long n, const char *what);
void *symrt_native(const char *name);
#define M __attribute__((noinline, used))
M int __symm_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
M int __symm_toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
M int __symm_isdigit(int c) { return c >= '0' && c <= '9'; }
M int __symm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
M int __symm_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
M int __symm_isalnum(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
M int __symm_isupper(int c) { return c >= 'A' && c <= 'Z'; }
M int __symm_islower(int c) { return c >= 'a' && c <= 'z'; }
M int __symm_ispunct(int c) { return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126); }
M int __symm_isprint(int c) { return c >= 32 && c <= 126; }
M int __symm_isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
M unsigned long __symm_strlen(const char *s) { unsigned long n = 0; while (s[n]) n++; return n; }
M int __symm_memcmp(const void *a, const void *b, unsigned long n) {
  const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  if (!symrt_any_sym(p, n) && !symrt_any_sym(q, n)) { for (unsigned long i = 0; i < n; i++) if (p[i] != q[i]) return (int)p[i] - (int)q[i]; return 0; }
  int r = 0;
  for (unsigned long i = n; i-- > 0;) { int d = (int)p[i] - (int)q[i]; r = d ? d : r; }
  return r;
}
M int __symm_bcmp(const void *a, const void *b, unsigned long n) { return __symm_memcmp(a, b, n); }
M int __symm_strcmp(const char *a, const char *b) { for (;; a++, b++) { int d = (int)(unsigned char)*a - (int)(unsigned char)*b; if (d) return d; if (!*a) return 0; } }
M int __symm_strncmp(const char *a, const char *b, unsigned long n) { for (; n--; a++, b++) { int d = (int)(unsigned char)*a - (int)(unsigned char)*b; if (d) return d; if (!*a) return 0; } return 0; }
M void *__symm_memchr(const void *s, int c, unsigned long n) { const unsigned char *p = (const unsigned char*)s; for (unsigned long i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
M char *__symm_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
static int digitOf(int c) { // -1 when not alphanumeric; written as a select chain: one table after folding
  int r = -1; r = (c >= '0' && c <= '9') ? c - '0' : r; r = (c >= 'a' && c <= 'z') ? c - 'a' + 10 : r; r = (c >= 'A' && c <= 'Z') ? c - 'A' + 10 : r; return r;
}
static long parseL(const char *s, char **end, int base, long lo, long hi, bool uns) {
  const char *p = s; while (__symm_isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  const char *q = p;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; q = p; } else if (base == 0) base = *p == '0' ? 8 : 10;
  __int128 dummy = 0; (void)dummy;
  long v = 0; bool ov = false; int nd = 0;
  for (;; p++) {
    int d = digitOf((unsigned char)*p); if (d < 0 || d >= base) break;
    nd++;
    if (nd > 17) { if (ov || v > (hi - d) / base) ov = true; else v = v * base + d; } else v = v * base + d;
  }
  if (end) *end = (char*)(p == q ? s : p);
  if (!ov && nd > 9 && !uns && v > hi) ov = true;
  if (ov) { errno = ERANGE; return neg ? lo : hi; }
  return neg ? -v : v;
}
M long __symm_strtol(const char *s, char **e, int b) { return parseL(s, e, b, INT64_MIN, INT64_MAX, false); }
M unsigned long __symm_strtoul(const char *s, char **e, int b) { return (unsigned long)parseL(s, e, b, INT64_MIN, INT64_MAX, true); }
M long long __symm_strtoll(const char *s, char **e, int b) { return parseL(s, e, b, INT64_MIN, INT64_MAX, false); }
M unsigned long long __symm_strtoull(const char *s, char **e, int b) { return (unsigned long long)parseL(s, e, b, INT64_MIN, INT64_MAX, true); }
M long __symm___isoc23_strtol(const char *s, char **e, int b) { return parseL(s, e, b, INT64_MIN, INT64_MAX, false); }
M unsigned long __symm___isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)parseL(s, e, b, INT64_MIN, INT64_MAX, true); }
M long long __symm___isoc23_strtoll(const char *s, char **e, int b) { return parseL(s, e, b, INT64_MIN, INT64_MAX, false); }
M unsigned long long __symm___isoc23_strtoull(const char *s, char **e, int b) { return (unsigned long long)parseL(s, e, b, INT64_MIN, INT64_MAX, true); }
M int __symm_atoi(const char *s) { return (int)parseL(s, 0, 10, INT64_MIN, INT64_MAX, false); }
M long __symm_atol(const char *s) { return parseL(s, 0, 10, INT64_MIN, INT64_MAX, false); }
float symrt_raw_strtof(const char *s, char **e); double symrt_raw_strtod(const char *s, char **e);
M float __symm_strtof(const char *s, char **e) {
  unsigned long n = __symm_strlen(s);
  if (symrt_any_sym(s, n)) {
    const char *p = s; while (__symm_isspace((unsigned char)*p)) p++;
    long v = 0; int nd = 0; while (__symm_isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; nd++; }
    bool stop = !(*p == '.' || *p == 'e' || *p == 'E' || *p == 'x' || *p == 'X' || *p == 'p' || *p == 'i' || *p == 'n' || *p == '+' || *p == '-');
    if (nd > 0 && nd <= 7 && stop) { if (e) *e = (char*)p; return (float)v; }
    symrt_check_concrete(s, n, "strtof");
  }
  return symrt_raw_strtof(s, e);
}
M double __symm_strtod(const char *s, char **e) { unsigned long n = __symm_strlen(s); symrt_check_concrete(s, n, "strtod"); return symrt_raw_strtod(s, e); }
}
M size_t hashModel(const void *p, size_t n, size_t seed) asm("__symm__ZSt11_Hash_bytesPKvmm");
M size_t hashModel(const void *p, size_t n, size_t seed) { const unsigned char *q = (const unsigned char*)p; size_t h = n * 7; for (size_t i = 0; i < n; i++) h += q[i] * (i % 5 + 1); return h; }
