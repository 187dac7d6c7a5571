// Model of the part of libjansson that maike uses (the native re-runs use the real library).
#include <jansson.h>
#include <stdlib.h>
#include <string.h>
extern "C" double msx_unmodelled_json_real();
namespace {
struct Arr { json_t j; size_t n, cap; json_t** v; };
struct Ent { char* k; json_t* v; };
struct Obj { json_t j; size_t n, cap; Ent** e; };
struct Str { json_t j; size_t len; char* s; };
struct Int { json_t j; json_int_t v; };
struct Real { json_t j; double v; char* text; }; // the value of a parsed number is not modelled, only its text
json_t sTrue = {JSON_TRUE, (size_t)-1}, sFalse = {JSON_FALSE, (size_t)-1}, sNull = {JSON_NULL, (size_t)-1};
template <class T> T* mk(json_type t) { T* r = (T*)malloc(sizeof(T)); r->j.type = t; r->j.refcount = 1; return r; }
char* dup(char const* s, size_t n) { char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
bool utf8(unsigned char const* s, size_t n) {
  for(size_t i = 0; i < n;) {
    unsigned c = s[i]; size_t k; unsigned v;
    if(c < 0x80) { ++i; continue; }
    else if(c < 0xC2) return false; else if(c < 0xE0) { k = 2; v = c & 0x1F; } else if(c < 0xF0) { k = 3; v = c & 0xF; } else if(c < 0xF5) { k = 4; v = c & 7; } else return false;
    if(i + k > n) return false;
    for(size_t m = 1; m < k; ++m) { unsigned d = s[i + m]; if(d < 0x80 || d > 0xBF) return false; v = (v << 6) | (d & 0x3F); }
    if(v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) || (k == 2 && v < 0x80) || (k == 3 && v < 0x800) || (k == 4 && v < 0x10000)) return false;
    i += k; }
  return true;
}
json_t* strn(char const* s, size_t n) { Str* r = mk<Str>(JSON_STRING); r->len = n; r->s = dup(s, n); return &r->j; }
void push(Arr* a, json_t* v) { if(a->n == a->cap) { size_t c = a->cap ? a->cap * 2 : 4; json_t** w = (json_t**)malloc(c * sizeof(json_t*)); if(a->n) memcpy(w, a->v, a->n * sizeof(json_t*)); free(a->v); a->v = w; a->cap = c; } a->v[a->n++] = v; }
void pushk(Obj* a, char const* k, json_t* v) { if(a->n == a->cap) { size_t c = a->cap ? a->cap * 2 : 4; Ent** w = (Ent**)malloc(c * sizeof(Ent*)); if(a->n) memcpy(w, a->e, a->n * sizeof(Ent*)); free(a->e); a->e = w; a->cap = c; } Ent* x = (Ent*)malloc(sizeof(Ent)); x->k = dup(k, strlen(k)); x->v = v; a->e[a->n++] = x; }
size_t findk(Obj* o, char const* k) { for(size_t i = 0; i < o->n; ++i) if(strcmp(o->e[i]->k, k) == 0) return i; return (size_t)-1; }
}
extern "C" {
json_t* json_object(void) { Obj* o = mk<Obj>(JSON_OBJECT); o->n = o->cap = 0; o->e = nullptr; return &o->j; }
json_t* json_array(void) { Arr* o = mk<Arr>(JSON_ARRAY); o->n = o->cap = 0; o->v = nullptr; return &o->j; }
json_t* json_string(char const* s) { if(!s) return nullptr; size_t n = strlen(s); if(!utf8((unsigned char const*)s, n)) return nullptr; return strn(s, n); }
json_t* json_integer(json_int_t v) { Int* r = mk<Int>(JSON_INTEGER); r->v = v; return &r->j; }
json_t* json_real(double v) { Real* r = mk<Real>(JSON_REAL); r->v = v; r->text = nullptr; return &r->j; }
json_t* json_true(void) { return &sTrue; } json_t* json_false(void) { return &sFalse; } json_t* json_null(void) { return &sNull; }
void json_delete(json_t* j) {
  if(!j) return;
  switch(j->type) {
    case JSON_OBJECT: { Obj* o = (Obj*)j; for(size_t i = 0; i < o->n; ++i) { free(o->e[i]->k); json_decref(o->e[i]->v); free(o->e[i]); } free(o->e); free(o); break; }
    case JSON_ARRAY: { Arr* o = (Arr*)j; for(size_t i = 0; i < o->n; ++i) json_decref(o->v[i]); free(o->v); free(o); break; }
    case JSON_STRING: free(((Str*)j)->s); free(j); break;
    case JSON_INTEGER: free(j); break; case JSON_REAL: free(((Real*)j)->text); free(j); break;
    default: break; } }
size_t json_object_size(json_t const* j) { return j && j->type == JSON_OBJECT ? ((Obj const*)j)->n : 0; }
json_t* json_object_get(json_t const* j, char const* k) { if(!k || !j || j->type != JSON_OBJECT) return nullptr; size_t i = findk((Obj*)j, k); return i == (size_t)-1 ? nullptr : ((Obj*)j)->e[i]->v; }
int json_object_set_new(json_t* j, char const* k, json_t* v) {
  if(!v) return -1;
  if(!k || !j || j->type != JSON_OBJECT || j == v || !utf8((unsigned char const*)k, strlen(k))) { json_decref(v); return -1; }
  Obj* o = (Obj*)j; size_t i = findk(o, k); if(i == (size_t)-1) pushk(o, k, v); else { json_t* old = o->e[i]->v; o->e[i]->v = v; json_decref(old); } return 0; }
int json_object_set_new_nocheck(json_t* j, char const* k, json_t* v) { return json_object_set_new(j, k, v); }
int json_object_del(json_t* j, char const* k) { if(!k || !j || j->type != JSON_OBJECT) return -1; Obj* o = (Obj*)j; size_t i = findk(o, k); if(i == (size_t)-1) return -1; free(o->e[i]->k); json_decref(o->e[i]->v); free(o->e[i]); for(size_t m = i + 1; m < o->n; ++m) o->e[m - 1] = o->e[m]; --o->n; return 0; }
// an iterator is the address of an entry
void* json_object_iter(json_t* j) { if(!j || j->type != JSON_OBJECT) return nullptr; Obj* o = (Obj*)j; return o->n ? (void*)o->e[0] : nullptr; }
void* json_object_iter_next(json_t* j, void* it) { if(!j || j->type != JSON_OBJECT || !it) return nullptr; Obj* o = (Obj*)j; for(size_t i = 0; i < o->n; ++i) if(o->e[i] == it) return i + 1 < o->n ? (void*)o->e[i + 1] : nullptr; return nullptr; }
char const* json_object_iter_key(void* it) { return it ? ((Ent*)it)->k : nullptr; }
json_t* json_object_iter_value(void* it) { return it ? ((Ent*)it)->v : nullptr; }
size_t json_array_size(json_t const* j) { return j && j->type == JSON_ARRAY ? ((Arr const*)j)->n : 0; }
json_t* json_array_get(json_t const* j, size_t i) { if(!j || j->type != JSON_ARRAY || i >= ((Arr const*)j)->n) return nullptr; return ((Arr const*)j)->v[i]; }
int json_array_append_new(json_t* j, json_t* v) { if(!v) return -1; if(!j || j->type != JSON_ARRAY || j == v) { json_decref(v); return -1; } push((Arr*)j, v); return 0; }
char const* json_string_value(json_t const* j) { return j && j->type == JSON_STRING ? ((Str const*)j)->s : nullptr; }
size_t json_string_length(json_t const* j) { return j && j->type == JSON_STRING ? ((Str const*)j)->len : 0; }
json_int_t json_integer_value(json_t const* j) { return j && j->type == JSON_INTEGER ? ((Int const*)j)->v : 0; }
double json_real_value(json_t const* j) { if(j && j->type == JSON_REAL && ((Real const*)j)->text) return msx_unmodelled_json_real(); return j && j->type == JSON_REAL ? ((Real const*)j)->v : 0; }
json_t* json_deep_copy(json_t const* j) {
  if(!j) return nullptr;
  switch(j->type) {
    case JSON_OBJECT: { Obj const* o = (Obj const*)j; json_t* r = json_object(); for(size_t i = 0; i < o->n; ++i) pushk((Obj*)r, o->e[i]->k, json_deep_copy(o->e[i]->v)); return r; }
    case JSON_ARRAY: { Arr const* o = (Arr const*)j; json_t* r = json_array(); for(size_t i = 0; i < o->n; ++i) push((Arr*)r, json_deep_copy(o->v[i])); return r; }
    case JSON_STRING: return strn(((Str const*)j)->s, ((Str const*)j)->len);
    case JSON_INTEGER: return json_integer(((Int const*)j)->v);
    case JSON_REAL: { Real* r = (Real*)json_real(((Real const*)j)->v); if(((Real const*)j)->text) r->text = dup(((Real const*)j)->text, strlen(((Real const*)j)->text)); return &r->j; }
    default: return (json_t*)j; } }
void json_object_seed(size_t) {}
}
// ---- dump
namespace {
struct Out { json_dump_callback_t cb; void* d; size_t flags; int put(char const* s, size_t n) { return n ? cb(s, n, d) : 0; } };
int dumpStr(Out& o, char const* s, size_t n) {
  if(o.put("\"", 1)) return -1;
  size_t b = 0;
  for(size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; char esc[7]; size_t m = 0;
    if(c == '"' || c == '\\') { esc[0] = '\\'; esc[1] = (char)c; m = 2; }
    else if(c < 0x20) { esc[0] = '\\'; m = 2; switch(c) { case 8: esc[1] = 'b'; break; case 12: esc[1] = 'f'; break; case 10: esc[1] = 'n'; break; case 13: esc[1] = 'r'; break; case 9: esc[1] = 't'; break; default: esc[1] = 'u'; esc[2] = esc[3] = '0'; esc[4] = "0123456789ABCDEF"[c >> 4]; esc[5] = "0123456789ABCDEF"[c & 15]; m = 6; } }
    if(m) { if(o.put(s + b, i - b) || o.put(esc, m)) return -1; b = i + 1; } }
  if(o.put(s + b, n - b)) return -1;
  return o.put("\"", 1);
}
int indent(Out& o, int depth, bool space) { size_t k = o.flags & 0x1F; if(k) { if(o.put("\n", 1)) return -1; for(size_t i = 0; i < k * (size_t)depth; ++i) if(o.put(" ", 1)) return -1; return 0; } if(space && !(o.flags & JSON_COMPACT)) return o.put(" ", 1); return 0; }
int dump(Out& o, json_t const* j, int depth) {
  if(!j) return -1;
  switch(j->type) {
    case JSON_NULL: return o.put("null", 4); case JSON_TRUE: return o.put("true", 4); case JSON_FALSE: return o.put("false", 5);
    case JSON_INTEGER: { char b[24]; int p = 24; json_int_t v = ((Int const*)j)->v; bool neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v; do { b[--p] = (char)('0' + u % 10); u /= 10; } while(u); if(neg) b[--p] = '-'; return o.put(b + p, (size_t)(24 - p)); }
    case JSON_REAL: if(!((Real const*)j)->text) return (int)msx_unmodelled_json_real(); return o.put(((Real const*)j)->text, strlen(((Real const*)j)->text));
    case JSON_STRING: return dumpStr(o, ((Str const*)j)->s, ((Str const*)j)->len);
    case JSON_ARRAY: { Arr const* a = (Arr const*)j; if(o.put("[", 1)) return -1; if(!a->n) return o.put("]", 1); if(indent(o, depth + 1, false)) return -1;
      for(size_t i = 0; i < a->n; ++i) { if(dump(o, a->v[i], depth + 1)) return -1; if(i + 1 < a->n) { if(o.put(",", 1) || indent(o, depth + 1, true)) return -1; } else if(indent(o, depth, false)) return -1; }
      return o.put("]", 1); }
    case JSON_OBJECT: { Obj const* a = (Obj const*)j; if(o.put("{", 1)) return -1; if(!a->n) return o.put("}", 1); if(indent(o, depth + 1, false)) return -1;
      size_t* ix = (size_t*)malloc(a->n * sizeof(size_t)); for(size_t i = 0; i < a->n; ++i) ix[i] = i;
      if(o.flags & JSON_SORT_KEYS) for(size_t i = 1; i < a->n; ++i) for(size_t m = i; m > 0 && strcmp(a->e[ix[m]]->k, a->e[ix[m - 1]]->k) < 0; --m) { size_t t = ix[m]; ix[m] = ix[m - 1]; ix[m - 1] = t; }
      for(size_t i = 0; i < a->n; ++i) { if(dumpStr(o, a->e[ix[i]]->k, strlen(a->e[ix[i]]->k)) || o.put(o.flags & JSON_COMPACT ? ":" : ": ", o.flags & JSON_COMPACT ? 1 : 2) || dump(o, a->e[ix[i]]->v, depth + 1)) { free(ix); return -1; }
        if(i + 1 < a->n) { if(o.put(",", 1) || indent(o, depth + 1, true)) { free(ix); return -1; } } else if(indent(o, depth, false)) { free(ix); return -1; } }
      free(ix); return o.put("}", 1); }
    default: return -1; }
}
struct In {
  json_load_callback_t cb; void* d; size_t flags; char buf[1024]; size_t len, pos; int un; bool eof; char const* err;
  int get() { if(un != -2) { int c = un; un = -2; return c; } if(eof) return -1; if(pos >= len) { pos = 0; len = cb(buf, 1024, d); if(len == 0 || len == (size_t)-1) { eof = true; len = 0; return -1; } } return (unsigned char)buf[pos++]; }
  int skip() { int c = get(); while(c == ' ' || c == '\t' || c == '\n' || c == '\r') c = get(); return c; }
};
struct Buf { char* p; size_t n, cap; void add(char c) { if(n == cap) { size_t k = cap ? cap * 2 : 16; char* q = (char*)malloc(k); if(n) memcpy(q, p, n); free(p); p = q; cap = k; } p[n++] = c; } };
int hexv(int c) { if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'f') return c - 'a' + 10; if(c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
bool str(In& in, Buf& b) { // after the opening quote
  for(;;) { int c = in.get(); if(c == -1) { in.err = "premature end of input"; return false; } if(c == '"') break; if(c < 0x20) { in.err = "control character"; return false; }
    if(c != '\\') { b.add((char)c); continue; }
    c = in.get(); switch(c) { case '"': case '\\': case '/': b.add((char)c); break; case 'b': b.add('\b'); break; case 'f': b.add('\f'); break; case 'n': b.add('\n'); break; case 'r': b.add('\r'); break; case 't': b.add('\t'); break;
      case 'u': { int v = 0; for(int i = 0; i < 4; ++i) { int h = hexv(in.get()); if(h < 0) { in.err = "invalid escape"; return false; } v = v * 16 + h; }
        if(v == 0) { in.err = "\\u0000 is not allowed without JSON_ALLOW_NUL"; return false; }
        if(v >= 0xD800 && v <= 0xDFFF) { in.err = "surrogate (not modelled)"; return false; }
        if(v < 0x80) b.add((char)v); else if(v < 0x800) { b.add((char)(0xC0 | (v >> 6))); b.add((char)(0x80 | (v & 0x3F))); } else { b.add((char)(0xE0 | (v >> 12))); b.add((char)(0x80 | ((v >> 6) & 0x3F))); b.add((char)(0x80 | (v & 0x3F))); } break; }
      default: in.err = "invalid escape"; return false; } }
  if(!utf8((unsigned char const*)b.p, b.n)) { in.err = "invalid UTF-8"; return false; }
  return true;
}
bool word(In& in, char const* w) { for(; *w; ++w) if(in.get() != *w) { in.err = "invalid token"; return false; } int c = in.get(); in.un = c; if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) { in.err = "invalid token"; return false; } return true; }
json_t* value(In& in, int c) {
  switch(c) {
    case '{': { json_t* r = json_object(); c = in.skip(); if(c == '}') return r;
      for(;;) { if(c != '"') { in.err = "string or '}' expected"; break; } Buf b{nullptr, 0, 0}; if(!str(in, b)) { free(b.p); break; } b.add(0);
        if(strlen(b.p) + 1 != b.n) { in.err = "NUL byte in object key"; free(b.p); break; }
        if((in.flags & JSON_REJECT_DUPLICATES) && json_object_get(r, b.p)) { in.err = "duplicate object key"; free(b.p); break; }
        if(in.skip() != ':') { in.err = "':' expected"; free(b.p); break; }
        json_t* v = value(in, in.skip()); if(!v) { free(b.p); break; } json_object_set_new(r, b.p, v); free(b.p);
        c = in.skip(); if(c == '}') return r; if(c != ',') { in.err = "'}' expected"; break; } c = in.skip(); }
      json_decref(r); return nullptr; }
    case '[': { json_t* r = json_array(); c = in.skip(); if(c == ']') return r;
      for(;;) { json_t* v = value(in, c); if(!v) break; push((Arr*)r, v); c = in.skip(); if(c == ']') return r; if(c != ',') { in.err = "']' expected"; break; } c = in.skip(); }
      json_decref(r); return nullptr; }
    case '"': { Buf b{nullptr, 0, 0}; json_t* r = str(in, b) ? strn(b.p ? b.p : "", b.n) : nullptr; if(r && strlen(((Str*)r)->s) != b.n) { in.err = "\\u0000"; json_decref(r); r = nullptr; } free(b.p); return r; }
    case 't': return word(in, "rue") ? json_true() : nullptr;
    case 'f': return word(in, "alse") ? json_false() : nullptr;
    case 'n': return word(in, "ull") ? json_null() : nullptr;
    case '-': case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': {
      bool neg = c == '-'; if(neg) c = in.get(); if(c < '0' || c > '9') { in.err = "invalid token"; in.un = c; return nullptr; }
      unsigned long long v = 0; bool big = false; bool zero = c == '0'; int nd = 0;
      while(c >= '0' && c <= '9') { if(zero && nd == 1) { in.err = "invalid token"; return nullptr; } if(v > 922337203685477580ull) big = true; v = v * 10 + (unsigned)(c - '0'); ++nd; c = in.get(); }
      if(c == '.' || c == 'e' || c == 'E') { Buf b{nullptr, 0, 0}; if(neg) b.add('-'); b.add('r'); { unsigned long long w = v; char t[24]; int k = 0; do { t[k++] = (char)('0' + w % 10); w /= 10; } while(w); while(k) b.add(t[--k]); }
        if(c == '.') { b.add('.'); c = in.get(); if(c < '0' || c > '9') { in.err = "invalid token"; in.un = c; free(b.p); return nullptr; } while(c >= '0' && c <= '9') { b.add((char)c); c = in.get(); } }
        if(c == 'e' || c == 'E') { b.add('e'); c = in.get(); if(c == '+' || c == '-') { b.add((char)c); c = in.get(); } if(c < '0' || c > '9') { in.err = "invalid token"; in.un = c; free(b.p); return nullptr; } while(c >= '0' && c <= '9') { b.add((char)c); c = in.get(); } }
        in.un = c; b.add(0); Real* r = (Real*)json_real(0); r->text = b.p; return &r->j; }
      in.un = c; if(big || v > 9223372036854775807ull + (neg ? 1 : 0)) { in.err = "too big integer"; return nullptr; }
      return json_integer(neg ? (json_int_t)(0ull - v) : (json_int_t)v); }
    case -1: in.err = "unexpected end of input"; return nullptr;
    default: in.err = "invalid token"; return nullptr; }
}
}
extern "C" {
int json_dump_callback(json_t const* j, json_dump_callback_t cb, void* d, size_t flags) { if(!(flags & JSON_ENCODE_ANY) && (!j || (j->type != JSON_OBJECT && j->type != JSON_ARRAY))) return -1; Out o{cb, d, flags}; return dump(o, j, 0); }
json_t* json_load_callback(json_load_callback_t cb, void* d, size_t flags, json_error_t* err) {
  In* in = (In*)malloc(sizeof(In)); in->cb = cb; in->d = d; in->flags = flags; in->len = in->pos = 0; in->un = -2; in->eof = false; in->err = "invalid";
  int c = in->skip(); json_t* r = nullptr; if((flags & JSON_DECODE_ANY) || c == '{' || c == '[') r = value(*in, c); else in->err = "'[' or '{' expected";
  if(r && !(flags & JSON_DISABLE_EOF_CHECK) && in->skip() != -1) { json_decref(r); r = nullptr; in->err = "end of file expected"; }
  if(!r && err) { err->line = 1; err->column = 0; strcpy(err->text, in->err); }
  free(in); return r; }
}
