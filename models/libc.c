// Models of libc functions used by the code under test.
#include <stddef.h>
char __libc_single_threaded = 0;
size_t strlen(char const* s) { size_t n = 0; while(s[n]) ++n; return n; }
int strcmp(char const* a, char const* b) { while(*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(char const* a, char const* b, size_t n) { for(; n; --n, ++a, ++b) { if(*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if(!*a) return 0; } return 0; }
void* memchr(void const* s, int c, size_t n) { unsigned char const* p = (unsigned char const*)s; for(size_t i = 0; i < n; ++i) if(p[i] == (unsigned char)c) return (void*)(p + i); return NULL; }
char* strchr(char const* s, int c) { for(;; ++s) { if(*s == (char)c) return (char*)s; if(!*s) return NULL; } }
static _Thread_local int errno_v;
int* __errno_location(void) { return &errno_v; }
char* strcpy(char* d, char const* s) { size_t i = 0; do d[i] = s[i]; while(s[i++]); return d; }
unsigned long msx_concretize(unsigned long);
static int dig(char c) { if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'z') return c - 'a' + 10; if(c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
long long __isoc23_strtoll(char const* s, char** end, int base) {
  char const* p = s; while(*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
  int neg = 0; if(*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
  else if((base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && dig(p[2]) < 2 && 0) { p += 2; base = 2; }
  else if(base == 0) base = (int)msx_concretize(*p == '0' ? 8 : 10);
  unsigned long long v = 0, lim = neg ? 9223372036854775808ull : 9223372036854775807ull; int any = 0, over = 0, nd = 0;
  for(; dig(*p) < base; ++p) { unsigned d = (unsigned)dig(*p); any = 1; if(over) continue; if(nd++ < 12) v = v * (unsigned)base + d; else if(v > (lim - d) / (unsigned)base) over = 1; else v = v * (unsigned)base + d; }
  if(end) *end = (char*)(any ? p : s);
  if(over) { *__errno_location() = 34; return neg ? (-9223372036854775807ll - 1) : 9223372036854775807ll; }
  return neg ? (long long)(0ull - v) : (long long)v; }
long long strtoll(char const* s, char** e, int b) { return __isoc23_strtoll(s, e, b); }
long strtol(char const* s, char** e, int b) { return __isoc23_strtoll(s, e, b); }
long __isoc23_strtol(char const* s, char** e, int b) { return __isoc23_strtoll(s, e, b); }
int atoi(char const* s) { return (int)__isoc23_strtoll(s, NULL, 10); }
long atol(char const* s) { return (long)__isoc23_strtoll(s, NULL, 10); }
char* strerror(int e) { (void)e; return (char*)"Unknown error"; }
// ---- character classes ("C" locale, without branches)
#define IN(c, a, b) ((unsigned)((c) - (a)) <= (unsigned)((b) - (a)))
int isdigit(int c) { return IN(c, '0', '9'); }
int islower(int c) { return IN(c, 'a', 'z'); }
int isupper(int c) { return IN(c, 'A', 'Z'); }
int isalpha(int c) { return IN(c, 'a', 'z') | IN(c, 'A', 'Z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isspace(int c) { return (c == ' ') | IN(c, 9, 13); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int iscntrl(int c) { return IN(c, 0, 31) | (c == 127); }
int isprint(int c) { return IN(c, 32, 126); }
int isgraph(int c) { return IN(c, 33, 126); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isxdigit(int c) { return isdigit(c) | IN(c, 'a', 'f') | IN(c, 'A', 'F'); }
int isascii(int c) { return IN(c, 0, 127); }
int tolower(int c) { return c + (isupper(c) << 5); }
int toupper(int c) { return c - (islower(c) << 5); }
// ---- strings
char* strrchr(char const* s, int c) { char const* r = NULL; for(;; ++s) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char* strchrnul(char const* s, int c) { while(*s && *s != (char)c) ++s; return (char*)s; }
void* rawmemchr(void const* s, int c) { unsigned char const* p = (unsigned char const*)s; while(*p != (unsigned char)c) ++p; return (void*)p; }
void* memrchr(void const* s, int c, size_t n) { unsigned char const* p = (unsigned char const*)s; while(n--) if(p[n] == (unsigned char)c) return (void*)(p + n); return NULL; }
char* strstr(char const* h, char const* n) { size_t l = strlen(n); for(;; ++h) { if(!strncmp(h, n, l)) return (char*)h; if(!*h) return NULL; } }
void* memmem(void const* h, size_t hn, void const* n, size_t nn) { char const* a = (char const*)h; char const* b = (char const*)n; for(size_t i = 0; i + nn <= hn; ++i) { size_t k = 0; while(k < nn && a[i + k] == b[k]) ++k; if(k == nn) return (void*)(a + i); } return NULL; }
char* strcat(char* d, char const* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, char const* s, size_t n) { char* p = d + strlen(d); size_t i = 0; for(; i < n && s[i]; ++i) p[i] = s[i]; p[i] = 0; return d; }
char* strncpy(char* d, char const* s, size_t n) { size_t i = 0; for(; i < n && s[i]; ++i) d[i] = s[i]; for(; i < n; ++i) d[i] = 0; return d; }
char* stpcpy(char* d, char const* s) { strcpy(d, s); return d + strlen(d); }
size_t strnlen(char const* s, size_t n) { size_t i = 0; while(i < n && s[i]) ++i; return i; }
size_t strspn(char const* s, char const* a) { size_t i = 0; while(s[i] && strchr(a, s[i])) ++i; return i; }
size_t strcspn(char const* s, char const* a) { size_t i = 0; while(s[i] && !strchr(a, s[i])) ++i; return i; }
char* strpbrk(char const* s, char const* a) { s += strcspn(s, a); return *s ? (char*)s : NULL; }
char* strtok_r(char* s, char const* d, char** sv) { if(!s) s = *sv; s += strspn(s, d); if(!*s) { *sv = s; return NULL; } char* e = s + strcspn(s, d); if(*e) *e++ = 0; *sv = e; return s; }
char* strtok(char* s, char const* d) { static char* sv; return strtok_r(s, d, &sv); }
int strcasecmp(char const* a, char const* b) { while(*a && tolower(*a) == tolower(*b)) { ++a; ++b; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(char const* a, char const* b, size_t n) { for(; n; --n, ++a, ++b) { int d = tolower((unsigned char)*a) - tolower((unsigned char)*b); if(d || !*a) return d; } return 0; }
int strcoll(char const* a, char const* b) { return strcmp(a, b); }
void* malloc(size_t);
char* strdup(char const* s) { char* r = (char*)malloc(strlen(s) + 1); return strcpy(r, s); }
char* strndup(char const* s, size_t n) { n = strnlen(s, n); char* r = (char*)malloc(n + 1); for(size_t i = 0; i < n; ++i) r[i] = s[i]; r[n] = 0; return r; }
void* mempcpy(void* d, void const* s, size_t n) { for(size_t i = 0; i < n; ++i) ((char*)d)[i] = ((char const*)s)[i]; return (char*)d + n; }
unsigned long long __isoc23_strtoull(char const* s, char** end, int base) {
  char const* p = s; while(isspace(*p)) ++p;
  int neg = 0; if(*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
  if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; }
  else if(base == 0) base = (int)msx_concretize(*p == '0' ? 8 : 10);
  unsigned long long v = 0; int any = 0, over = 0, nd = 0;
  for(; dig(*p) < base; ++p) { unsigned d = (unsigned)dig(*p); any = 1; if(over) continue; if(nd++ >= 12 && v > (~0ull - d) / (unsigned)base) over = 1; else v = v * (unsigned)base + d; }
  if(end) *end = (char*)(any ? p : s);
  if(over) { *__errno_location() = 34; return ~0ull; }
  return neg ? 0ull - v : v; }
unsigned long long strtoull(char const* s, char** e, int b) { return __isoc23_strtoull(s, e, b); }
unsigned long strtoul(char const* s, char** e, int b) { return __isoc23_strtoull(s, e, b); }
unsigned long __isoc23_strtoul(char const* s, char** e, int b) { return __isoc23_strtoull(s, e, b); }
long long atoll(char const* s) { return __isoc23_strtoll(s, NULL, 10); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int nanosleep(void const* a, void* b) { (void)a; (void)b; extern void msx_yield(void); msx_yield(); return 0; }
int sched_yield(void) { extern void msx_yield(void); msx_yield(); return 0; }
int usleep(unsigned n) { (void)n; extern void msx_yield(void); msx_yield(); return 0; }
unsigned sleep(unsigned n) { (void)n; extern void msx_yield(void); msx_yield(); return 0; }
