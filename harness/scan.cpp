// C12: include directives of C++ sources; C13: tags embedded in sources. The text is put together from
// segments whose meaning is known by construction; their contents are symbolic.
#include "msx.h"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"
#include <string>
#include <vector>
#include <cstring>
using namespace Maike;
#ifndef BODY
#define BODY 2
#endif
#ifndef SEGS
#define SEGS 2
#endif
#ifndef DIRS
#define DIRS 14
#endif
#ifndef KINDS
#define KINDS 0xffff
#endif
namespace {
struct Src { std::string s; size_t at = 0; size_t chunk; };
size_t read(Src& x, std::byte* b, size_t n) { size_t k = x.s.size() - x.at; if(k > n) k = n; if(k > x.chunk) k = x.chunk; memcpy(b, x.s.data() + x.at, k); x.at += k; return k; }
struct Sink { std::string s; };
void write(Sink& x, std::byte const* b, size_t n) { x.s.append((char const*)b, n); }
struct Dep { std::string name; bool system; };
struct Text { std::string s; std::vector<Dep> deps; std::vector<std::string> tags; /* per finished line: "" or the expected tag line */ std::string tag; size_t blank = 0; bool fresh = true, comment = false; /* a block comment ends on this line */ /* only white space so far on this line, as many as blank */
  void nl() { s += '\n'; tags.push_back(tag); tag.clear(); blank = 0; fresh = true; comment = false; }
  void add(char const* t) { for(; *t; ++t) if(*t == '\n') nl(); else { s += *t; } } };
// n symbolic bytes; a line feed ends the line
unsigned body(Text& t, char* b, unsigned maxn, char const* nm) { unsigned const n = (unsigned)msx_concretize(msx_range(0, maxn, "length")); if(n) msx_symbolic(b, n, nm); return n; }
bool isws(char c) { return (c >= 0) & (c <= ' '); }
void put(Text& t, char const* b, unsigned n) { for(unsigned i = 0; i < n; ++i) if(b[i] == '\n') t.nl(); else t.s += b[i]; }
// what looks like a directive or a tag but is not at the beginning of a line
void noInclude(Text& t) { t.fresh = false; switch(msx_concretize(msx_range(0, 2, "rest"))) { case 1: t.add(" #include <q>"); t.nl(); break; case 2: t.add(" //@ q"); t.nl(); break; } }
void seg(Text& t, bool last) {
  char b[8]; unsigned kind = (unsigned)msx_concretize(msx_range(0, 8, "kind")); msx_assume(KINDS >> kind & 1); unsigned const eol = last ? 1 : (unsigned)msx_concretize(msx_range(0, 1, "newline")); bool const fresh = t.fresh; 
  switch(kind) {
    case 0: case 1: { // #include "p" or <p>
      msx_assume(fresh); unsigned const ws = (unsigned)msx_concretize(msx_range(0, 3, "space")); if(ws & 1) t.add(" \t"); t.add("#"); if(ws == 3) t.add(" "); t.add("include"); if(ws & 2) t.add("\t "); bool const cm = ws == 0 && msx_concretize(msx_range(0, 1, "comment")); if(cm) t.add(" /*\"*/ "); char const close = kind ? '>' : '"'; unsigned const n = body(t, b, 2, "path"); msx_assume(n > 0); for(unsigned i = 0; i < n; ++i) { msx_assume((b[i] != close) & (b[i] != '\n') & (b[i] != 0) & (b[i] != '\\') & (b[i] != '"') & (b[i] != '\'')); if(i) msx_assume((b[i - 1] != '/') | ((b[i] != '/') & (b[i] != '*'))); }
      t.s += kind ? '<' : '"'; put(t, b, n); t.s += close; t.deps.push_back(Dep{std::string(b, n), kind == 1}); break; }
    case 2: { // another directive
      msx_assume(fresh && eol); static char const* const D[] = {"#", "#endif", "# pragma once", "#error \"q\"", "#define X <q>", "#if a<b", "#include_next <q>", "#define Y \"q\"", "#else ", "#include \"q", "#include <q", "#include_next<q>", "#pragma\"q\"", "#included \"q\""}; t.add(D[msx_concretize(msx_range(0, DIRS - 1, "directive"))]); break; }
    case 3: { // line comment
      t.add("//"); unsigned const n = body(t, b, BODY + 1, "comment"); for(unsigned i = 0; i < n; ++i) msx_assume((b[i] != '\n') & (b[i] != '\\')); if(n && fresh) msx_assume(b[0] != '@'); put(t, b, n); if(!eol) { t.nl(); return; } break; }
    case 4: { // block comment
      if(!fresh && t.s.back() == '/') t.add(" "); t.add("/*"); unsigned const n = body(t, b, BODY + 1, "comment"); for(unsigned i = 0; i + 1 < n; ++i) msx_assume(!((b[i] == '*') & (b[i + 1] == '/'))); put(t, b, n); t.add("*/"); if(!eol) { if(!fresh) { noInclude(t); return; } t.comment = true; return; } break; }
    case 5: { // raw string
      unsigned const tl = (unsigned)msx_concretize(msx_range(0, 1, "tag")); char g = 0; if(tl) { msx_symbolic(&g, 1, "tag"); msx_assume((g > ' ') & (g != '(') & (g != ')') & (g != '\\') & (g != '"')); } if(!fresh) t.add(" "); t.add("R\""); if(tl) t.s += g; t.add("("); unsigned const n = body(t, b, BODY + 1, "string");
      for(unsigned i = 0; i + 1 + tl < n; ++i) msx_assume(!((b[i] == ')') & (tl ? (b[i + 1] == g) & (b[i + 2] == '"') : (b[i + 1] == '"')))); put(t, b, n); t.add(")"); if(tl) t.s += g; t.add("\""); if(!eol) { noInclude(t); return; } break; }
    case 6: { // other code
      unsigned const n = body(t, b, BODY, "code"); if(n && !fresh && t.s.back() == '/') t.add(" "); for(unsigned i = 0; i < n; ++i) msx_assume((b[i] != '"') & (b[i] != '\'') & (b[i] != '#') & (b[i] != '\\')); for(unsigned i = 0; i + 1 < n; ++i) msx_assume(!((b[i] == '/') & ((b[i + 1] == '/') | (b[i + 1] == '*'))));  
      for(unsigned i = 0; i < n; ++i) { if(b[i] == '\n') t.nl(); else { t.s += b[i]; if(!isws(b[i])) t.fresh = false; else t.blank += t.fresh; } } if(eol) t.nl(); return; }
    case 7: { // string literal
      if(!fresh && t.s.back() == 'R') t.add(" "); t.add("\""); unsigned const n = body(t, b, BODY + 1, "string"), esc = (unsigned)msx_concretize(msx_range(0, 4, "escape")); for(unsigned i = 0; i < n; ++i) msx_assume((b[i] != '"') & (b[i] != '\\') & (b[i] != '\n')); if(esc == 1) t.add("\\\""); if(esc == 2) t.add("\\\\"); if(esc > 2) { t.add("\\\n"); t.add(esc == 3 ? "#include <q>" : "//@ q"); } put(t, b, n); t.add("\""); if(!eol) { noInclude(t); return; } break; }
    case 8: { // a tag
      msx_assume(fresh && eol && !t.comment); unsigned const ws = (unsigned)msx_concretize(msx_range(0, 1, "space")); if(ws) t.add(" \t"); t.add("//@"); unsigned const n = body(t, b, BODY + 1, "tagtext"); for(unsigned i = 0; i < n; ++i) msx_assume(b[i] != '\n'); put(t, b, n); t.tag = std::string(t.blank + (ws ? 2 : 0) + 3, ' ') + std::string(b, n); break; } }
  if(eol) t.nl(); else t.fresh = false; }
Text make() { Text t; for(int i = 0; i < SEGS; ++i) seg(t, i + 1 == SEGS); t.add("#include \"z\"\n"); t.deps.push_back(Dep{"z", false}); return t; }
void checkTags(std::string const& got, std::vector<std::string> const& want) {
  size_t at = 0; for(auto const& w : want) { size_t k = 0; if(!w.empty()) { bool lead = true; for(; k < w.size(); ++k) { lead = lead && w[k] == ' '; msx_assert(at + k < got.size() && (got[at + k] == w[k] || (lead && got[at + k] == '\t')), "C13: a tag is altered, or not recognised"); } } else while(at + k < got.size() && got[at + k] != '\n') { msx_assert((got[at + k] == ' ') | (got[at + k] == '\t') | (got[at + k] == '\r'), "C13: text that is not part of a tag is taken for one"); ++k; }
    at += k; msx_assert(at < got.size() && got[at] == '\n', "C13: a line is lost, so that errors are reported at the wrong line"); ++at; }
  msx_assert(at == got.size(), "C13: there are more lines of tags than of source"); }
}
extern "C" void harness_includes() {
  Text t = make(); Src s{t.s}; s.chunk = 1000; auto const d = Cxx::SourceFileLoader{std::vector<std::string>{}}.getDependencies(Io::Reader{s});
  msx_observe(d.size()); for(auto const& x : d) for(char c : x.name().string()) msx_observe((uint8_t)c);
  size_t const n = t.deps.size(); msx_assert(d.size() >= n, "C12: an include directive is missed"); msx_assert(d.size() <= n, "C12: something else is taken for an include directive");
  for(size_t i = 0; i < n; ++i) { msx_assert(d[i].name().string() == t.deps[i].name, "C12: an included file has another name than given"); msx_assert(d[i].expectedOrigin() == (t.deps[i].system ? Db::SourceFileOrigin::System : Db::SourceFileOrigin::Project), "C12: a system header is taken for a file of the project, or the converse"); }
  msx_reach("scanned"); }
extern "C" void harness_tags() {
  Text t = make(); Src s{t.s}; s.chunk = 1000; Sink src, tag; { Cxx::SourceFileLoader{std::vector<std::string>{}}.filterInput(Io::Reader{s}, SourceFileInfoLoaders::SourceOutStream{src}, SourceFileInfoLoaders::TagsOutStream{tag}); }
  msx_assert(src.s == t.s, "C13: the source stream differs from the file"); checkTags(tag.s, t.tags); msx_observe(tag.s.size()); msx_reach("filtered"); }
// files in which tags are lines that begin with #@: everything else is arbitrary
extern "C" void harness_exttags() {
  Text t; for(int i = 0; i < SEGS; ++i) { char b[8]; bool const tag = (unsigned)msx_concretize(msx_range(0, 1, "kind")); 
    if(tag) { unsigned const ws = (unsigned)msx_concretize(msx_range(0, 1, "space")); if(ws) { char w; msx_symbolic(&w, 1, "white"); msx_assume(isws(w) & (w != '\n')); t.s += w; t.add("\t"); } t.add("#@"); unsigned const n = body(t, b, BODY, "tagtext"); for(unsigned k = 0; k < n; ++k) msx_assume(b[k] != '\n'); put(t, b, n); t.tag = std::string((ws ? 2 : 0) + 2, ' ') + std::string(b, n); t.nl(); }
    else { unsigned const n = body(t, b, BODY + 1, "line"); for(unsigned k = 0; k < n; ++k) { msx_assume(b[k] != '\n'); if(k + 1 < n) { unsigned char bad = (b[k] == '#') & (b[k + 1] == '@'); for(unsigned j = 0; j < k; ++j) bad &= isws(b[j]); msx_assume(!bad); } } put(t, b, n); t.nl(); } }
  Src s{t.s}; s.chunk = 1000; Sink src, tg; { Extension::SourceFileLoader{}.filterInput(Io::Reader{s}, SourceFileInfoLoaders::SourceOutStream{src}, SourceFileInfoLoaders::TagsOutStream{tg}); }
  msx_assert(src.s == t.s, "C13: the source stream differs from the file"); checkTags(tg.s, t.tags); msx_observe(tg.s.size()); msx_reach("filtered"); }
