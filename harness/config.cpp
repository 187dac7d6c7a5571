// C32: configuration files, the dump of a configuration, and what is made of it.
#include "msx.h"
#include "core/bin/config.hpp"
#include "core/exec/execve.hpp"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/app/source_file_loader.hpp"
#include "core/source_file_info_loaders/lib/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"
#include "core/source_file_info_loaders/generic/source_file_loader.hpp"
#include "core/source_file_info_loaders/maikerule/source_file_loader.hpp"
#include <string>
#include <vector>
#include <cstring>
#include <cerrno>
using namespace Maike;
#ifndef LEN
#define LEN 2
#endif
namespace {
unsigned pick(unsigned n, char const* name) { return (unsigned)msx_concretize(msx_range(0, n - 1, name)); }
bool same(std::string const& a, std::string const& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(a[i] != b[i]) return false; return true; }
struct File { std::string path, content; int err = 0, readErr = 0; unsigned opened = 0; };
std::vector<File>* disk; struct Open { File const* f; size_t at; bool open; } fds[16]; unsigned reports, leaks;
struct Disk { std::vector<File> v; Disk() { disk = &v; reports = 0; for(auto& x : fds) x.open = false; } ~Disk() { for(auto& x : fds) msx_assert(!x.open, "C32: a configuration file is left open"); disk = nullptr; } };
File* at(char const* p) { if(p[0] == '.' && p[1] == '/') p += 2; if(disk) for(auto& f : *disk) if(f.path == p) return &f; return nullptr; }
struct Buf { std::string s; }; void write(Buf& b, char const* p, size_t n) { b.s.append(p, n); }
template<class T> std::string text(T const& x) { Buf b; store(x, b, KeyValueStore::PrettyPrint{false}); return b.s; }
std::string handle(KeyValueStore::JsonHandle const& h) { return text(KeyValueStore::Compound{}.set("x", h)); }
unsigned calls; int outcome; std::vector<std::string> configured; std::string failing;
}
extern "C" {
int msx_fs_type(char const* p, int* e) { *e = 0; return at(p) ? 1 : -1; }
long msx_fs_mtime(char const* p, int* e) { *e = at(p) ? 0 : ENOENT; return 0; }
int msx_fs_entry(char const*, int, char*, unsigned, int* e) { *e = ENOTDIR; return 0; }
int msx_sys_open(char const* p, int, ...) { auto f = at(p); if(!f || f->err) { errno = f ? f->err : ENOENT; return -1; } ++f->opened; for(int i = 3; i < 16; ++i) if(!fds[i].open) { fds[i] = {f, 0, true}; return i; } errno = EMFILE; return -1; }
ssize_t msx_sys_read(int fd, void* b, size_t n) { auto& o = fds[fd]; if(o.f->readErr) { errno = o.f->readErr; return -1; } size_t k = o.f->content.size() - o.at; if(k > n) k = n; memcpy(b, o.f->content.data() + o.at, k); o.at += k; return (ssize_t)k; }
int msx_sys_close(int fd) { if(fd < 3 || fd >= 16 || !fds[fd].open) { errno = EBADF; return -1; } fds[fd].open = false; return 0; }
int msx_sys_fprintf(FILE*, char const*, ...) { ++reports; return 0; }
int msx_sys_fputs(char const*, FILE*) { ++reports; return 0; }
int msx_sys_puts(char const*) { ++reports; return 0; }
void msx_sys_perror(char const*) { ++reports; }
size_t msx_sys_fwrite(void const*, size_t, size_t n, FILE*) { ++reports; return n; }
}
Exec::Result Maike::Exec::execve(fs::path const& r, std::vector<std::string> const& a) { ++calls; msx_assert(a.size() == 2 && a[0] == "configure", "C32: a recipe is configured in another way"); configured.push_back(r.string()); 
  int const k = r.string() == failing ? outcome : 0; auto b = [](std::string const& s) { return std::vector<std::byte>((std::byte const*)s.data(), (std::byte const*)s.data() + s.size()); };
  return Exec::Result{k == 2 ? Exec::ExitStatus{}.returnCode(1) : k == 3 ? Exec::ExitStatus{}.signo(9) : Exec::ExitStatus{}.returnCode(0), b(k == 1 ? "{\"configured\":1}" : k == 4 ? "{\"cut" : ""), b("")}; }
namespace {
void sameCompiler(Db::Compiler const& a, Db::Compiler const& b, char const* msg) { msx_assert(same(a.recipe().string(), b.recipe().string()), msg); msx_assert(a.useGetTags() == b.useGetTags(), msg); msx_assert(same(text(a.config()), text(b.config())), msg); }
void sameList(std::vector<std::string> const& a, std::vector<std::string> const& b, char const* msg) { msx_assert(a.size() == b.size(), msg); for(size_t i = 0; i < a.size(); ++i) msx_assert(same(a[i], b[i]), msg); }
void sameConfig(Config const& a, Config const& b) {
  auto &x = a.sourceTreeLoader(), &y = b.sourceTreeLoader(); msx_assert(x.recursive() == y.recursive(), "C32: the recursive setting changed"); sameList(x.inputFilter().source(), y.inputFilter().source(), "C32: the filters of names changed"); sameList(x.dirFilter().source(), y.dirFilter().source(), "C32: the filters of paths changed");
  msx_assert(x.inputFilter().regex().size() == x.inputFilter().source().size() && x.dirFilter().regex().size() == x.dirFilter().source().size(), "C32: a filter has no effect");
  auto &e = x.fileInfoLoaders(), &f = y.fileInfoLoaders(); msx_assert(e.size() == f.size(), "C32: file name extensions are lost or made up"); for(auto i = e.begin(), j = f.begin(); i != e.end(); ++i, ++j) msx_assert(same(i->first, j->first) && same(i->second, j->second), "C32: a file name extension has another loader");
  sameCompiler(a.dirCompiler(), b.dirCompiler(), "C32: the recipe for directories changed");
  auto &l = a.sourceFileInfoLoaders().loaders(), &m = b.sourceFileInfoLoaders().loaders(); msx_assert(l.size() == m.size(), "C32: loaders are lost or made up"); for(auto i = l.begin(), j = m.begin(); i != l.end(); ++i, ++j) { msx_assert(same(i->first, j->first), "C32: a loader has another name"); msx_assert(i->second.name() == j->second.name(), "C32: a loader is of another kind"); sameCompiler(i->second.compiler(), j->second.compiler(), "C32: the recipe of a loader changed"); msx_assert(same(handle(i->second.config()), handle(j->second.config())), "C32: the settings of a loader changed"); }
}
char const* const kinds[] = {"app", "cxx_src_loader", "extension", "maikerule", "generic", "lib"};
SourceFileInfoLoaders::Loader make(unsigned kind, unsigned form, std::string const& ext, Db::Compiler&& c) {
  using L = SourceFileInfoLoaders::Loader; switch(kind) { case 0: return L{App::SourceFileLoader{}, std::move(c)}; case 1: return form ? L{Cxx::SourceFileLoader{form == 1 ? std::vector<std::string>{} : std::vector<std::string>{"^a", "b$"}}, std::move(c)} : L{Cxx::SourceFileLoader{}, std::move(c)};
    case 2: return L{Extension::SourceFileLoader{}, std::move(c)}; case 3: return L{Maikerule::SourceFileLoader{}, std::move(c)}; case 4: return form ? L{Generic::SourceFileLoader{std::string{ext}, form == 1 ? Generic::FilenameExtReplacementMode::Append : Generic::FilenameExtReplacementMode::Replace}, std::move(c)} : L{Generic::SourceFileLoader{}, std::move(c)}; default: return L{Lib::SourceFileLoader{}, std::move(c)}; } }
bool utf8(std::string const& s) { auto b = (unsigned char const*)s.data(); if(s.size() == 1) return b[0] < 0x80; return (b[0] < 0x80 && b[1] < 0x80) || (b[0] >= 0xc2 && b[0] < 0xe0 && b[1] >= 0x80 && b[1] < 0xc0); }
}
#ifdef DUMP
// a configuration is dumped and loaded again
extern "C" void harness_dump() {
  enum { Ext, ExtLoader, DirRecipe, LoaderName, LoaderRecipe, SettingName, SettingValue, TargetExt, Standard }; unsigned const focus = pick(Standard + 1, "focus"); std::string arbitrary(focus == Standard ? 1 : 1 + pick(LEN, "length"), 'x'); msx_symbolic(arbitrary.data(), arbitrary.size(), "name"); for(char c : arbitrary) msx_assume(c != 0);
  auto name = [&](unsigned which, char const* other) { return which == focus ? arbitrary : std::string(other); };
  Config cfg; unsigned const what = focus == Standard ? pick(4, "part") : 4; if(focus == SettingName || focus == SettingValue) msx_assume(utf8(arbitrary)); if(focus == SettingName) msx_assume(!same(arbitrary, "k"));
  if(focus != Standard || what != 3) {
    SourceTreeLoader::Config t; if(what == 0) t.recursive(pick(2, "recursive")); std::vector<std::string> f; unsigned const n = what == 0 ? pick(3, "filters") : 1; if(n) f.push_back("^x"); if(n > 1) f.push_back("\\.o$"); SourceTreeLoader::InputFilter filter; filter.source(std::move(f)); if(what == 0) t.inputFilter(std::move(filter));
    std::map<std::string, std::string> e; if(what != 1 || pick(2, "extensions")) { e[".z"] = "second"; e[name(Ext, ".e")] = name(ExtLoader, "first"); } t.fileInfoLoaders(std::move(e)); cfg.sourceTreeLoader(std::move(t));
    KeyValueStore::Compound s; s.set("k", 1).set(name(SettingName, "n").c_str(), name(SettingValue, "v").c_str()); cfg.dirCompiler(Db::Compiler{fs::path{name(DirRecipe, "dir.py")}, KeyValueStore::Compound{s}, what == 1 && pick(2, "dirtags") });
    SourceFileInfoLoaders::Config l; SourceFileInfoLoaders::Config::LoaderMap m; unsigned const kind = focus == TargetExt ? 4 : what == 2 ? pick(6, "kind") : 1, form = focus == TargetExt ? 1 + pick(2, "mode") : what == 2 && (kind == 1 || kind == 4) ? pick(3, "form") : 0;
    m.insert(std::pair{name(LoaderName, "first"), make(kind, form, name(TargetExt, ".t"), Db::Compiler{fs::path{name(LoaderRecipe, "r.py")}, std::move(s), what == 2 && pick(2, "tags")})}); m.insert(std::pair{std::string{"second"}, make(0, 0, "", Db::Compiler{"", false})}); l.loaders(std::move(m)); cfg.sourceFileInfoLoaders(std::move(l)); }
  Disk d; File f; f.path = "c.json"; bool rejected = false;
  try { f.content = text(KeyValueStore::Compound{}.set("maikeconfig", cfg)); } catch(std::exception const&) { rejected = true; }
  if(rejected) { msx_assert(focus != Standard && !utf8(arbitrary), "C32: a configuration cannot be dumped"); msx_reach("rejected"); return; }
  d.v.push_back(f); auto const got = loadConfig({fs::path{"c.json"}}); msx_assert(reports == 0, "C32: a dumped configuration is not accepted"); sameConfig(got, cfg); msx_reach(focus == Standard ? "standard" : "same");
}
#endif
#ifdef FILES
// several configuration files, some of them not usable
extern "C" void harness_files() {
  enum { Missing, Unreadable, Empty, Cut, NotAnObject, Nothing, Other, NotAGroup, Dir, Tree, Loaders, Complete, Conflict, Unknown, States }; Disk d; std::vector<fs::path> names; static char letters[4]; msx_symbolic(letters, 3, "values"); for(int i = 0; i < 3; ++i) { msx_assume((letters[i] >= 'a') & (letters[i] <= 'z')); }
  // what is expected: the parts that are there, and their last values
  bool any = false, dir = false, tree = false, loaders = false, unknown = false, isGroup = true; char dirRecipe = 0, loaderRecipe = 0; std::string ext; unsigned bad = 0; int recursive = 0; std::string flags;
  unsigned const n = pick(FILES + 1, "files");
  for(unsigned i = 0; i < n; ++i) { unsigned const s = pick(States, "file"); File f; f.path = std::string("c") + char('0' + i); names.push_back(fs::path{f.path}); char const c = letters[i]; std::string const r(1, c);
    std::string const D = "\"dir_compiler\":{\"recipe\":\"" + r + "\",\"config\":{\"flags\":[\"" + r + "\"]}}", T = std::string("\"source_tree_loader\":{\"recursive\":") + char('0' + i % 2) + ",\"input_filter\":[\"^" + char('0' + i) + "\"],\"fullpath_input_filter\":[],\"file_info_loaders\":{\"." + char('0' + i) + "\":\"l\"}}", L = "\"source_file_info_loaders\":{\"l\":{\"loader\":\"lib\",\"compiler\":{\"recipe\":\"" + r + "\",\"config\":{}}}}";
    auto merge = [&](bool a, bool b, bool g) { any = true; if(a) { dir = true; dirRecipe = c; flags += c; } if(b) { tree = true; recursive = i % 2; ext += char('0' + i); } if(g) { loaders = true; loaderRecipe = c; } };
    switch(s) { case Missing: ++bad; continue; case Unreadable: f.readErr = EIO; f.content = "{}"; ++bad; break; case Empty: f.content = " \n"; break; case Cut: f.content = "{\"maikeconfig\":{" + D; ++bad; break; case NotAnObject: f.content = "[1]"; ++bad; break; case Nothing: f.content = "{}"; break; case Other: f.content = "{\"x\":{}}"; break;
      case NotAGroup: f.content = "{\"maikeconfig\":5}"; if(any && isGroup) ++bad; else { any = true; isGroup = false; } break;
      default: if(any && !isGroup) { ++bad; f.content = "{\"maikeconfig\":{" + D + "}}"; break; } 
        switch(s) { case Dir: f.content = "{\"maikeconfig\":{" + D + "}}"; merge(true, false, false); break; case Tree: if(recursive == -1) { ++bad; f.content = "{\"maikeconfig\":{" + T + "}}"; break; } f.content = "{\"maikeconfig\":{" + T + "}}"; merge(false, true, false); break; case Loaders: f.content = "{\"maikeconfig\":{" + L + "}}"; merge(false, false, true); break; case Complete: if(recursive == -1) { ++bad; f.content = "{\"maikeconfig\":{" + D + "," + T + "," + L + "}}"; break; } f.content = "{\"maikeconfig\":{" + D + "," + T + "," + L + "}}"; merge(true, true, true); break;
          case Conflict: f.content = "{\"maikeconfig\":{\"source_tree_loader\":5," + D + "}}"; if(tree && recursive != -1) ++bad; else { merge(true, false, false); tree = true; recursive = -1; } break;
          case Unknown: f.content = "{\"maikeconfig\":{\"source_file_info_loaders\":{\"u\":{\"loader\":\"none\",\"compiler\":{\"config\":{}}}}}}"; merge(false, false, false); unknown = true; break; } }
    d.v.push_back(f); }
  auto const got = loadConfig(names); bool const usable = any && isGroup && dir && tree && loaders && !unknown && recursive != -1;
  msx_assert((reports != 0) == (bad != 0 || !usable), usable ? "C32: a configuration file that is not usable is not reported" : "C32: a configuration that is not usable is not reported"); msx_assert(reports >= bad + !usable, "C32: not all of the configuration files that are not usable are reported");
  for(auto& f : d.v) msx_assert(f.opened == 1, "C32: a configuration file is not read once");
  if(!usable) { sameConfig(got, Config{}); msx_reach(any ? "not usable" : "none"); return; }
  auto& t = got.sourceTreeLoader(); msx_assert(t.recursive() == (recursive == 1), "C32: a later configuration file does not take precedence"); std::vector<std::string> fl; for(char x : ext) fl.push_back(std::string("^") + x); sameList(t.inputFilter().source(), fl, "C32: filters of several files are not joined"); msx_assert(t.dirFilter().source().empty(), "C32: a filter is made up");
  auto& e = t.fileInfoLoaders(); msx_assert(e.size() == ext.size(), "C32: extensions of several files are not joined"); for(char x : ext) { auto j = e.find(std::string(".") + x); msx_assert(j != e.end() && j->second == "l", "C32: an extension is lost"); }
  msx_assert(same(got.dirCompiler().recipe().string(), std::string(1, dirRecipe)), "C32: a later configuration file does not take precedence"); auto const fa = got.dirCompiler().config().get<KeyValueStore::ArrayRefConst>("flags"); std::string all; for(auto const& x : fa) all += x.template as<char const*>(); msx_assert(same(all, flags), "C32: settings of several files are not joined in order");
  auto& l = got.sourceFileInfoLoaders().loaders(); msx_assert(l.size() == 1 && l.begin()->first == "l" && l.begin()->second.name() == "lib", "C32: the loaders are not those configured"); msx_assert(same(l.begin()->second.compiler().recipe().string(), std::string(1, loaderRecipe)), "C32: a later configuration file does not take precedence"); msx_reach(bad ? "some" : "all");
}
#endif
#ifdef KINDS
// the kind of a loader is one of those that exist
extern "C" void harness_kinds() {
  std::string kind = kinds[pick(6, "kind")]; unsigned const how = pick(4, "how"); char c; msx_symbolic(&c, 1, "c"); msx_assume(c > ' ' && c < 127); size_t at = how == 1 ? pick((unsigned)kind.size(), "at") : 0;
  if(how == 1) kind[at] = c; else if(how == 2) kind += c; else if(how == 3) kind.pop_back();
  unsigned const form = pick(4, "form"); KeyValueStore::Compound x; x.set("loader", kind.c_str()).set("compiler", Db::Compiler{"r", false}); if(form == 1) x.set("config", KeyValueStore::Compound{}.set("target_filename_ext", ".t").set("filename_ext_replacement_mode", "replace").set("generated_includes", KeyValueStore::Array{}.append("^g"))); else if(form == 2) x.set("config", KeyValueStore::Compound{}.set("target_filename_ext", ".u")); else if(form == 3) x.set("config", KeyValueStore::Compound{}.set("target_filename_ext", ".u").set("filename_ext_replacement_mode", std::string("appen") + c));
  KeyValueStore::Compound all; all.set("n", std::move(x)); bool threw = false; std::string name, cfg, recipe; size_t n = 0;
  try { SourceFileInfoLoaders::Config const got{all.reference()}; n = got.loaders().size(); if(n) { auto& l = got.loaders().begin()->second; name = l.name(); cfg = handle(l.config()); recipe = l.compiler().recipe().string(); } } catch(std::exception const&) { threw = true; }
  bool known = false; unsigned which = 0; for(unsigned i = 0; i < 6; ++i) if(same(kind, kinds[i])) { known = true; which = i; }
  bool const bad = known && which == 4 && form == 3 && c != 'd';
  if(!known || bad) { msx_assert(threw, bad ? "C32: a mode that does not exist is accepted" : "C32: a kind of loader that does not exist is accepted"); msx_reach("unknown"); return; }
  msx_assert(!threw, "C32: a kind of loader is rejected"); msx_assert(n == 1 && name == kinds[which] && recipe == "r", "C32: a loader is of another kind");
  if(which == 4) msx_assert(cfg == text(KeyValueStore::Compound{}.set("x", KeyValueStore::Compound{}.set("target_filename_ext", form == 0 ? "" : form == 1 ? ".t" : ".u").set("filename_ext_replacement_mode", form == 1 ? "replace" : "append"))), "C32: the settings of a loader are not those configured");
  if(which == 1) { auto list = KeyValueStore::Array{}; if(form == 0) list.append(".*\\.gen\\.hpp$"); else if(form == 1) list.append("^g"); msx_assert(cfg == text(KeyValueStore::Compound{}.set("x", KeyValueStore::Compound{}.set("generated_includes", std::move(list)))), "C32: the settings of a loader are not those configured"); }
  msx_reach("known");
}
// every extension has the loader that it is mapped to
extern "C" void harness_map() {
  char v[3]; msx_symbolic(v, 3, "loaders"); for(char& x : v) msx_assume((x >= 'k') & (x <= 'n')); unsigned const n = pick(4, "extensions"); std::map<std::string, std::string> e; for(unsigned i = 0; i < n; ++i) e[std::string(".") + char('a' + i)] = std::string(1, v[i]);
  Config cfg; SourceTreeLoader::Config t; t.fileInfoLoaders(std::move(e)); cfg.sourceTreeLoader(std::move(t)); SourceFileInfoLoaders::Config l; SourceFileInfoLoaders::Config::LoaderMap m; m.insert(std::pair{std::string{"k"}, make(0, 0, "", Db::Compiler{"k.py", false})}); m.insert(std::pair{std::string{"m"}, make(5, 0, "", Db::Compiler{"m.py", false})}); l.loaders(std::move(m)); cfg.sourceFileInfoLoaders(std::move(l));
  bool threw = false; decltype(mapSourceFileInfoLoaders(cfg)) got; try { got = mapSourceFileInfoLoaders(cfg); } catch(std::exception const&) { threw = true; }
  bool bad = false; for(unsigned i = 0; i < n; ++i) bad |= v[i] != 'k' && v[i] != 'm';
  if(bad) { msx_assert(threw, "C32: an extension without a loader is accepted"); msx_reach("no loader"); return; }
  msx_assert(!threw, "C32: a configuration is rejected"); msx_assert(got.size() == n, "C32: an extension is lost or made up"); auto& all = cfg.sourceFileInfoLoaders().loaders(); for(unsigned i = 0; i < n; ++i) { auto j = got.find(std::string(".") + char('a' + i)); msx_assert(j != got.end(), "C32: an extension is lost"); msx_assert(&j->second.get() == &all.find(v[i] == 'k' ? "k" : "m")->second, "C32: an extension has another loader"); } msx_reach("mapped");
}
// recipes are looked up and configured, everything else is kept
extern "C" void harness_recipes() {
  Config cfg; unsigned const kind = pick(6, "kind"), form = kind == 1 || kind == 4 ? pick(3, "form") : 0; outcome = (int)pick(5, "outcome"); unsigned const who = pick(3, "who"), none = pick(7, "without") /* 0..2: the name of that recipe is missing; 4..6: its settings are */; char const* const place[] = {"sys/dir.py", "sys/one.py", "sys/two.py"}; char const* const own[] = {"dir.py", "one.py", "two.py"}; bool const fallback = pick(2, "project"); 
  Disk d; for(int i = 0; i < 3; ++i) { File f; f.path = fallback && i == 1 ? "proj/one.py" : place[i]; d.v.push_back(f); }
  auto recipe = [&](unsigned i) { return std::string(none == i ? "" : own[i]); }; auto resolved = [&](unsigned i) { return none == i ? std::string() : i == 1 && fallback ? std::string("proj/one.py") : std::string(place[i]); };
  auto settings = [&](unsigned i) { KeyValueStore::Compound c; if(none != i + 4) c.set("k", 1); return c; }; calls = 0; configured.clear(); failing = resolved(who); if(failing.empty()) outcome = 0;
  SourceTreeLoader::Config t; t.recursive(true); std::map<std::string, std::string> e{{".x", "one"}}; t.fileInfoLoaders(std::move(e)); cfg.sourceTreeLoader(std::move(t));
  cfg.dirCompiler(Db::Compiler{fs::path{recipe(0)}, settings(0), false}); SourceFileInfoLoaders::Config l; SourceFileInfoLoaders::Config::LoaderMap m; m.insert(std::pair{std::string{"one"}, make(kind, form, ".t", Db::Compiler{fs::path{recipe(1)}, settings(1), true})}); m.insert(std::pair{std::string{"two"}, make(5, 0, "", Db::Compiler{fs::path{recipe(2)}, settings(2), false})}); l.loaders(std::move(m)); cfg.sourceFileInfoLoaders(std::move(l));
  SourceTreeLoader::CommandDictionary commands; commands.projectDir(fs::path{"proj"}).systemDir(fs::path{"sys"}); bool threw = false; Config const before{cfg}; std::optional<Config> got; try { got = resolveRecipes(cfg, commands); } catch(std::exception const&) { threw = true; }
  sameConfig(cfg, before); if(outcome >= 2) { msx_assert(threw, outcome == 4 ? "C32: settings from a recipe that are cut off are accepted" : "C32: a recipe that cannot be configured is accepted"); msx_reach("failed"); return; }
  msx_assert(!threw, "C32: a configuration with recipes that exist is rejected"); unsigned const n = 3 - (none < 3); msx_assert(calls == n, "C32: the recipes are not configured once each"); auto has = [&](std::string const& x) { for(auto& y : configured) if(y == x) return true; return false; }; for(unsigned i = 0; i < 3; ++i) msx_assert(i == none || has(resolved(i)), "C32: a recipe is not configured");
  auto expect = [&](unsigned i, bool tags) { KeyValueStore::Compound c = settings(i); if(outcome == 1 && i == who) { c = KeyValueStore::Compound{}; c.set("configured", 1); } return Db::Compiler{fs::path{resolved(i)}, std::move(c), tags}; };
  Config want{before}; want.dirCompiler(expect(0, false)); auto w = before.sourceFileInfoLoaders().loaders(); w.find("one")->second.compiler(expect(1, true)); w.find("two")->second.compiler(expect(2, false)); SourceFileInfoLoaders::Config wl; wl.loaders(std::move(w)); want.sourceFileInfoLoaders(std::move(wl)); sameConfig(*got, want); msx_reach(outcome ? "configured" : "kept");
}
#endif
