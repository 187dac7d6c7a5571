// C30: what a recipe is told. The command line is read back by an independent reader of JSON.
#include "msx.h"
#include "core/db/source_file_record.hpp"
#include "core/db/compiler.hpp"
#include "core/db/log_format.hpp"
#include "core/build/info.hpp"
#include "core/exec/execve.hpp"
#include "core/key_value_store/array.hpp"
#include <string>
#include <vector>
#include <cstring>
#include <stdexcept>
using namespace Maike; using Db::SourceFileOrigin;
#ifndef LEN
#define LEN 2
#endif
#ifndef ASPECTS
#define ASPECTS 1
#endif
namespace {
unsigned pick(unsigned n, char const* name) { return (unsigned)msx_concretize(msx_range(0, n - 1, name)); }
bool same(std::string const& a, std::string const& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(a[i] != b[i]) return false; return true; }
// --- JSON, as in RFC 8259
struct Value { enum Kind { Bad, Object, Array, String, Number, Word } kind = Bad; std::string text; std::vector<std::string> keys; std::vector<Value> items;
  Value const* find(char const* k) const { Value const* r = nullptr; for(size_t i = 0; i < keys.size(); ++i) if(same(keys[i], k)) { msx_assert(r == nullptr, "C30: a part of the command is given twice"); r = &items[i]; } return r; } };
struct Reader { std::string const& s; size_t i = 0; bool ok = true;
  void space() { while(i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
  bool eat(char c) { space(); if(i < s.size() && s[i] == c) { ++i; return true; } return false; }
  int hex() { int v = 0; for(int k = 0; k < 4; ++k) { if(i >= s.size()) { ok = false; return 0; } char c = s[i++]; v = v * 16 + (c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : (ok = false, 0)); } return v; }
  std::string str() { std::string r; if(!eat('"')) { ok = false; return r; } while(ok) { if(i >= s.size()) { ok = false; break; } char c = s[i++]; if(c == '"') return r; if((unsigned char)c < 0x20) { ok = false; break; } if(c != '\\') { r += c; continue; } if(i >= s.size()) { ok = false; break; } c = s[i++]; switch(c) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case '"': case '\\': case '/': r += c; break;
      case 'u': { int v = hex(); if(v < 0x80) r += (char)v; else if(v < 0x800) { r += (char)(0xc0 | v >> 6); r += (char)(0x80 | (v & 63)); } else ok = false; break; } default: ok = false; } } return r; }
  Value value(int depth = 0) { Value v; space(); if(!ok || depth > 6 || i >= s.size()) { ok = false; return v; } char c = s[i];
    if(c == '"') { v.kind = Value::String; v.text = str(); return v; }
    if(c == '{' || c == '[') { ++i; v.kind = c == '{' ? Value::Object : Value::Array; char const end = c == '{' ? '}' : ']'; if(eat(end)) return v; do { if(c == '{') { v.keys.push_back(str()); if(!eat(':')) ok = false; } if(!ok) return v; v.items.push_back(value(depth + 1)); } while(ok && eat(',')); if(!eat(end)) ok = false; return v; }
    v.kind = Value::Number; while(i < s.size() && ((s[i] >= '0' && s[i] <= '9') || s[i] == '-' || s[i] == '+' || s[i] == '.' || s[i] == 'e' || s[i] == 'E')) v.text += s[i++]; if(v.text.empty()) { v.kind = Value::Word; while(i < s.size() && s[i] >= 'a' && s[i] <= 'z') v.text += s[i++]; if(v.text != "true" && v.text != "false" && v.text != "null") ok = false; } return v; } };
Value read(std::string const& s) { Reader r{s}; auto v = r.value(); r.space(); msx_assert(r.ok && r.i == s.size(), "C30: the command is not valid JSON"); return v; }
void text(Value const* v, std::string const& want, char const* msg) { msx_assert(v && v->kind == Value::String && same(v->text, want), msg); }
void number(Value const* v, char const* want, char const* msg) { msx_assert(v && v->kind == Value::Number && v->text == want, msg); }
// --- names: one of them is arbitrary, the others are not
unsigned focus, length; char arbitrary[LEN + 1];
std::string name(unsigned which, char const* standard) { return which == focus ? std::string(arbitrary, length) : std::string(standard); }
bool utf8() { auto b = (unsigned char const*)arbitrary; if(length == 1) return b[0] < 0x80; 
#if LEN > 2
  if(length == 3) { if(b[0] < 0x80) return (b[1] < 0x80 && b[2] < 0x80) || (b[1] >= 0xc2 && b[1] < 0xe0 && b[2] >= 0x80 && b[2] < 0xc0); if(b[0] >= 0xc2 && b[0] < 0xe0) return b[1] >= 0x80 && b[1] < 0xc0 && b[2] < 0x80; if((b[0] & 0xf0) != 0xe0 || (b[1] & 0xc0) != 0x80 || (b[2] & 0xc0) != 0x80) return false; if(b[0] == 0xe0) return b[1] >= 0xa0; if(b[0] == 0xed) return b[1] < 0xa0; return true; }
#endif
  return (b[0] < 0x80 && b[1] < 0x80) || (b[0] >= 0xc2 && b[0] < 0xe0 && b[1] >= 0x80 && b[1] < 0xc0); }
void choose(unsigned n) { focus = pick(n, "focus"); length = 1 + pick(LEN, "length"); msx_symbolic(arbitrary, length, "name"); for(unsigned i = 0; i < length; ++i) msx_assume(arbitrary[i] != 0); }
std::string asked, recipe; std::vector<std::string> got; unsigned calls; int code; std::string out, err;
}
Exec::Result Maike::Exec::execve(fs::path const& r, std::vector<std::string> const& a) { ++calls; recipe = r.string(); got = a; auto b = [](std::string const& s) { return std::vector<std::byte>((std::byte const*)s.data(), (std::byte const*)s.data() + s.size()); }; return Exec::Result{code == 2 ? Exec::ExitStatus{}.signo(9) : Exec::ExitStatus{}.returnCode(code), b(out), b(err)}; }
extern "C" void harness_build() {
  enum { Source, TargetName, DepName, PropName, PropValue, OptName, OptValue, OptDefault, Recipe, SourceDir, Kinds }; choose(Kinds); if(focus == OptName || focus == OptValue || focus == OptDefault) msx_assume(utf8()); // settings come from JSON
  // one aspect at a time has every form: the recipes, the targets and dependencies, the rest
  unsigned const aspect = length > ASPECTS ? 3 : pick(3, "aspect"); auto vary = [&](unsigned which, unsigned n, char const* what, unsigned standard) { return aspect == which ? pick(n, what) : standard; };
  unsigned const def = vary(0, 3, "default", 1), own = vary(0, 3, "own", 1), nt = 1 + vary(1, 2, "targets", 1), nd = vary(1, 3, "deps", 2); bool const plain = vary(2, 2, "plain", 0), where = aspect == 1 || pick(2, "where");
  if(focus == TargetName) msx_assume(nt == 2); if(focus == DepName || focus == PropName || focus == PropValue) msx_assume(nd == 2); if(focus == Recipe || focus == OptName || focus == OptValue) msx_assume(own != 0); if(focus == OptDefault) msx_assume(def != 0);
  std::string const source = name(Source, where ? "d/s.c" : "s.c"), srcdir = name(SourceDir, "."); std::string const prop = name(PropName, "rel"); if(focus == PropName) msx_assume(!same(prop, "ref") && !same(prop, "origin"));
  std::string const opt = name(OptName, "own"); if(focus == OptName) msx_assume(!same(opt, "k"));
  // the settings of the loader, and those of the file; "k" is in both
  Db::Compiler const standard = def == 0 ? Db::Compiler{} : Db::Compiler{fs::path{def == 2 ? "" : "def.py"}, KeyValueStore::Compound{}.set("k", "1").set("def", name(OptDefault, "x")).set("list", KeyValueStore::Array{}.append("a")), false};
  Db::Compiler mine = own == 0 ? Db::Compiler{"", false} : Db::Compiler{fs::path{own == 2 ? std::string{} : name(Recipe, "own.py")}, KeyValueStore::Compound{}.set("k", "2").set(opt.c_str(), name(OptValue, "y")).set("list", KeyValueStore::Array{}.append("b")), false}; if(focus == Recipe) msx_assume(own == 1);
  std::vector<Db::TargetInfo> targets; std::vector<std::string> wantTargets; for(unsigned i = 0; i < nt; ++i) { wantTargets.push_back(i ? name(TargetName, "T/b") : "T/a"); targets.push_back(Db::TargetInfo{fs::path{wantTargets.back()}, std::vector<Db::Dependency>{}}); }
  std::vector<Db::Dependency> deps; static SourceFileOrigin const origins[] = {SourceFileOrigin::Project, SourceFileOrigin::Generated, SourceFileOrigin::System, SourceFileOrigin::PkgConfig}; static char const* const originNames[] = {"project", "generated", "system", "pkg-config"}; unsigned const org = nd ? vary(1, 4, "origin", 0) : 0; std::vector<std::string> wantDeps;
  for(unsigned i = 0; i < nd; ++i) { wantDeps.push_back(i ? name(DepName, "d/b") : "d/a"); std::vector<Db::Property> p; if(i == 1) p.push_back(Db::Property{std::string{prop}, name(PropValue, "use")}); deps.push_back(Db::Dependency{fs::path{wantDeps.back()}, origins[(org + i) % 4], std::move(p)}); }
  Build::Info info; static char const* const starts[] = {"1", "86401", "-1", "4102444800"}; unsigned const st = vary(2, 4, "start", 0); info.startTime(SystemTimeStamp{(int64_t)strtol(starts[st], nullptr, 10)}); std::string const id = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"; info.buildId(Build::Id{id.c_str()}); if(focus == SourceDir) { bool odd = false; for(unsigned i = 0; i < length; ++i) odd |= arbitrary[i] == '/' || arbitrary[i] == '.'; msx_assume(!odd); } info.sourceDir(fs::path{srcdir}).targetDir(fs::path{"T"});
  fs::path const path{source}; Db::SourceFileInfo si = def ? Db::SourceFileInfo{std::move(targets), std::cref(standard), std::move(mine), SourceFileOrigin::Project, Db::RebuildPolicy::Always} : Db::SourceFileInfo{std::move(targets), std::cref(standard), std::move(mine), SourceFileOrigin::Project, Db::RebuildPolicy::Always};
  Db::SourceFileRecordConst const rec{Db::SourceFileId{plain ? 7u : 1234u}, std::cref(path), std::cref(si)};
  bool const valid = focus == Recipe || utf8(); bool threw = false; Exec::Command cmd; try { cmd = Db::makeBuildCommand(rec, info, deps, plain ? Db::LogFormat::PlainText : Db::LogFormat::AnsiTerm); } catch(std::exception const&) { threw = true; }
  if(!valid) { msx_assert(threw, "C30: a recipe is not told everything, and nobody knows"); msx_reach("rejected"); return; }
  msx_assert(!threw, "C30: a command that can be given is rejected");
  std::string want = own == 1 ? name(Recipe, "own.py") : def == 1 ? "def.py" : source; if(own != 1 && def != 1) { bool slash = false; for(char c : source) slash |= c == '/'; if(!slash) want = "./" + want; msx_reach("runs itself"); }
  msx_assert(same(cmd.executable.string(), want), "C30: the wrong recipe is run"); msx_assert(cmd.args.size() == 2 && cmd.args[0] == "compile", "C30: the recipe is not told to compile");
  auto const v = read(cmd.args[1]); msx_assert(v.kind == Value::Object && v.keys.size() == 7, "C30: the recipe is told more or less than what is documented");
  text(v.find("source_file"), source, "C30: the recipe is told another source file"); number(v.find("task_id"), plain ? "7" : "1234", "C30: the recipe is told another task id"); text(v.find("log_format"), plain ? "plain_text" : "ansi_term", "C30: the recipe is told another log format");
  auto b = v.find("build_info"); msx_assert(b && b->kind == Value::Object && b->keys.size() == 5, "C30: the information about the build is incomplete"); number(b->find("start_time"), starts[st], "C30: the recipe is told another start time"); text(b->find("build_id"), id, "C30: the recipe is told another build id"); text(b->find("source_dir"), srcdir, "C30: the recipe is told another source directory"); text(b->find("target_dir"), "T", "C30: the recipe is told another target directory"); text(b->find("build_host"), info.buildHost(), "C30: the recipe is told another host");
  auto t = v.find("targets"); msx_assert(t && t->kind == Value::Array && t->items.size() == nt, "C30: the recipe is not told about every target"); for(unsigned i = 0; i < nt; ++i) text(&t->items[i], wantTargets[i], "C30: the recipe is told about another target");
  auto d = v.find("dependencies"); msx_assert(d && d->kind == Value::Array && d->items.size() == nd, "C30: the recipe is not told about every dependency");
  for(unsigned i = 0; i < nd; ++i) { auto& x = d->items[i]; msx_assert(x.kind == Value::Object && x.keys.size() == (i == 1 ? 3u : 2u), "C30: the recipe is not told everything about a dependency"); text(x.find("ref"), wantDeps[i], "C30: the recipe is told about another dependency"); text(x.find("origin"), originNames[(org + i) % 4], "C30: the recipe is told another origin of a dependency"); if(i == 1) text(x.find(prop.c_str()), name(PropValue, "use"), "C30: the recipe is told another use of a dependency"); }
  auto c = v.find("compiler_cfg"); msx_assert(c && c->kind == Value::Object && c->keys.size() == (def || own ? 2u : 0u) + (def != 0) + (own != 0), "C30: the recipe is told more or less settings than there are");
  if(def || own) { text(c->find("k"), own ? "2" : "1", "C30: the settings of the file do not take precedence"); auto l = c->find("list"); msx_assert(l && l->kind == Value::Array && l->items.size() == (def != 0) + (own != 0u), "C30: a setting is lost"); size_t k = 0; if(def) text(&l->items[k++], "a", "C30: a setting is altered"); if(own) text(&l->items[k], "b", "C30: a setting is altered"); }
  if(def) text(c->find("def"), name(OptDefault, "x"), "C30: a setting is altered"); if(own) text(c->find(opt.c_str()), name(OptValue, "y"), "C30: a setting is altered"); msx_reach("told"); }
// a recipe is asked for tags
extern "C" void harness_ask() {
  enum { Source, OptValue, Recipe, Kinds }; choose(Kinds); unsigned const own = focus == Recipe ? 1 : pick(2, "own"); std::string const source = name(Source, pick(2, "where") ? "d/s.c" : "s.c");
  Db::Compiler const mine{fs::path{own ? name(Recipe, "own.py") : std::string{}}, KeyValueStore::Compound{}.set("k", "v"), false}; KeyValueStore::Compound cfg; bool threw = false; try { cfg.set("k", name(OptValue, "v")); } catch(std::exception const&) { threw = true; } if(threw) { msx_assert(focus == OptValue && !utf8(), "C30: a setting that can be given is rejected"); return; } Db::Compiler const comp{fs::path{own ? name(Recipe, "own.py") : std::string{}}, std::move(cfg), true};
  static char const* const outs[] = {"{\"rebuild\":\"always\"}", "", "{", "\n{}\n", "[]", "{\"rebuild\":\"always\"}"}; unsigned const o = pick(6, "output"); out = outs[o]; if(o == 5) { msx_assume(focus == Recipe); out.insert(1, std::string(5000, ' ')); } err = o < 5 && pick(2, "says") ? "note" : ""; code = (int)pick(3, "outcome"); calls = 0;
  std::string tag; size_t n = 0; try { auto t = Db::getTags(comp, fs::path{source}); n = t.size(); if(auto x = t.getIf<char const*>("rebuild")) tag = *x; } catch(std::exception const&) { threw = true; }
  bool const valid = focus == Recipe || utf8(); if(!valid) { msx_assert(threw && calls == 0, "C30: a recipe is not told everything, and nobody knows"); msx_reach("rejected"); return; }
  msx_assert(calls == 1, "C30: the recipe is not asked once"); std::string want = own ? name(Recipe, "own.py") : source; if(!own) { bool slash = false; for(char c : source) slash |= c == '/'; if(!slash) want = "./" + want; } msx_assert(same(recipe, want), "C30: the wrong recipe is asked for tags"); msx_assert(got.size() == 2 && got[0] == "get_tags", "C30: the recipe is not asked for tags");
  auto const v = read(got[1]); msx_assert(v.kind == Value::Object && v.keys.size() == 2, "C30: the recipe is told more or less than what is documented"); text(v.find("source_file"), source, "C30: the recipe is told another source file"); auto c = v.find("compiler_cfg"); msx_assert(c && c->kind == Value::Object && c->keys.size() == 1, "C30: a setting is lost"); text(c->find("k"), name(OptValue, "v"), "C30: a setting is altered");
  bool const bad = code != 0 || o == 2 || o == 4; msx_assert(threw == bad, bad ? "C30: tags are taken from a recipe that failed, or from malformed output" : "C30: the tags of a recipe are rejected"); if(bad) { msx_reach("failed"); return; } msx_assert(n == (o == 0 || o == 5) && tag == (o == 0 || o == 5 ? "always" : ""), "C30: the tags are not those that the recipe gave"); msx_reach("tags"); }
