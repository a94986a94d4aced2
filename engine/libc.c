/* Plain definitions of library functions that the interpreter does not model itself; linked into an analysed
   module only where it calls them and does not define them. */
#include <stddef.h>
extern void *malloc(size_t);
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strdup(const char *s) { size_t n = 0, i; char *r; while (s[n]) n++; r = malloc(n + 1); for (i = 0; i <= n; i++) r[i] = s[i]; return r; }
char *strndup(const char *s, size_t m) { size_t n = 0, i; char *r; while (n < m && s[n]) n++; r = malloc(n + 1); for (i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
size_t strspn(const char *s, const char *a) { size_t n = 0; const char *p; for (; s[n]; n++) { for (p = a; *p && *p != s[n]; p++) ; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; const char *p; for (; s[n]; n++) { for (p = a; *p && *p != s[n]; p++) ; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *a) { const char *p; for (; *s; s++) for (p = a; *p; p++) if (*p == *s) return (char *) s; return NULL; }
char *strstr(const char *s, const char *t) { size_t i; for (;; s++) { for (i = 0; t[i] && s[i] == t[i]; i++) ; if (!t[i]) return (char *) s; if (!*s) return NULL; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n--; p++) if (*p == (unsigned char) c) return (void *) p; return NULL; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char) c) s++; return (char *) s; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = low((unsigned char) *a), y = low((unsigned char) *b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strsep(char **sp, const char *a) { char *s = *sp, *t = s; if (!s) return NULL; for (; *t; t++) { const char *p; for (p = a; *p; p++) if (*p == *t) { *t = 0; *sp = t + 1; return s; } } *sp = NULL; return s; }
static char *tok_at;
char *strtok(char *s, const char *a) { char *r; if (!s) s = tok_at; if (!s) return NULL; s += strspn(s, a); if (!*s) { tok_at = NULL; return NULL; } r = s; s += strcspn(s, a); if (*s) { *s = 0; tok_at = s + 1; } else tok_at = NULL; return r; }
void *mempcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; while (n--) *p++ = *q++; return p; }
char *index(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return NULL; } }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return c >= 0 && c < 32 || c == 127; }
int isgraph(int c) { return c > 32 && c < 127; }
