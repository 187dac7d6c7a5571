// C19, C21, C24, C26, C27: from files in a (modelled) file system to the dependency graph.
#include "msx.h"
#include "core/source_tree_loader/main.hpp"
#include "core/source_tree_loader/source_file_load_ctxt.hpp"
#include "core/source_tree_loader/command_dictionary.hpp"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/app/source_file_loader.hpp"
#include "core/source_file_info_loaders/lib/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"
#include "core/source_file_info_loaders/generic/source_file_loader.hpp"
#include "core/source_file_info_loaders/config.hpp"
#include "core/build/info.hpp"
#include "core/exec/execve.hpp"
#include <string>
#include <vector>
#include <cstring>
#include <cerrno>
using namespace Maike; using Db::SourceFileOrigin;
#ifndef LEN
#define LEN 4
#endif
namespace {
unsigned pick(unsigned n, char const* name) { return (unsigned)msx_concretize(msx_range(0, n - 1, name)); }
// --- the file system: a list of entries, and the contents of regular files
struct File { std::string path; int type = 1; std::string content; int err = 0; unsigned opened = 0; int readErr = 0, readAt = 0; };
std::vector<File>* disk;
struct Open { File const* f; size_t at; bool open; };
Open fds[16];
struct Disk { std::vector<File> v; Disk() { disk = &v; for(auto& x : fds) x.open = false; } ~Disk() { disk = nullptr; } File& add(std::string p, int t = 1, std::string c = "") { File f; f.path = std::move(p); f.type = t; f.content = std::move(c); v.push_back(f); return v.back(); } };
std::string clean(std::string_view v) { std::string r; size_t i = 0; if(!v.empty() && v[0] == '/') r = "/"; while(i < v.size()) { if(v[i] == '/') { ++i; continue; } size_t j = i; while(j < v.size() && v[j] != '/') ++j; auto t = v.substr(i, j - i); i = j; if(t == ".") continue; if(!r.empty() && r.back() != '/') r += '/'; r += t; } return r.empty() ? "." : r; }
File* at(char const* p) { if(!disk) return nullptr; auto c = clean(p); if(c.compare(0, 3, "/w/") == 0) c.erase(0, 3); else if(c == "/w") c = "."; for(auto& f : *disk) if(f.path == c) return &f; return nullptr; }
}
extern "C" {
int msx_fs_type(char const* p, int* e) { *e = 0; auto f = at(p); if(!f) return -1; *e = f->err; return f->type; }
long msx_fs_mtime(char const* p, int* e) { auto f = at(p); *e = f ? f->err : ENOENT; return 0; }
int msx_fs_entry(char const* d, int i, char* out, unsigned size, int* e) {
  *e = 0; auto dir = at(d); if(!dir || dir->type != 2) { *e = ENOTDIR; return 0; }
  if(dir->readErr && i >= dir->readAt) { *e = dir->readErr; return 0; }
  std::string pre = dir->path == "." ? "" : dir->path == "/" ? "/" : dir->path + "/";
  for(auto& f : *disk) { auto const& p = f.path; if(p == "." || p.size() <= pre.size() || p.compare(0, pre.size(), pre) != 0 || p.find('/', pre.size()) != std::string::npos) continue; if(pre.empty() && (p[0] == '/' || p.compare(0, 2, "..") == 0)) continue; if(i-- == 0) { size_t n = p.size() - pre.size(); msx_assert(n + 1 <= size, "model: name too long"); memcpy(out, p.data() + pre.size(), n); out[n] = 0; return 1; } }
  return 0; }
int msx_sys_open(char const* p, int, ...) { auto f = at(p); if(!f || f->type != 1 || f->err) { errno = f && f->err ? f->err : ENOENT; return -1; } ++f->opened; for(int i = 3; i < 16; ++i) if(!fds[i].open) { fds[i] = {f, 0, true}; return i; } errno = EMFILE; return -1; }
ssize_t msx_sys_read(int fd, void* b, size_t n) { msx_assert(fd >= 3 && fd < 16 && fds[fd].open, "C24: read from a file that is not open"); auto& o = fds[fd]; size_t k = o.f->content.size() - o.at; if(k > n) k = n; if(o.f->readErr && o.at + k >= (size_t)o.f->readAt) { if(o.at >= (size_t)o.f->readAt) { errno = o.f->readErr; return -1; } k = (size_t)o.f->readAt - o.at; } memcpy(b, o.f->content.data() + o.at, k); o.at += k; return (ssize_t)k; }
int msx_sys_close(int fd) { msx_assert(fd >= 3 && fd < 16 && fds[fd].open, "C24: a file is closed twice"); fds[fd].open = false; return 0; }
}
namespace {
// --- oracle for names: a stack of components
struct Name { bool abs = false; std::vector<std::string> c; 
  void push(std::string_view v) { size_t i = 0; while(i < v.size()) { if(v[i] == '/') { ++i; continue; } size_t j = i; while(j < v.size() && v[j] != '/') ++j; auto t = v.substr(i, j - i); i = j; if(t == ".") continue; if(t == "..") { if(!c.empty() && c.back() != "..") { c.pop_back(); continue; } if(abs) continue; } c.emplace_back(t); } }
  explicit Name(std::string_view v) { abs = !v.empty() && v[0] == '/'; push(v); }
  Name& operator/(std::string_view v) { push(v); return *this; }
  std::string text() const { std::string r = abs ? "/" : ""; for(size_t i = 0; i < c.size(); ++i) { if(i) r += '/'; r += c[i]; } return r.empty() ? "." : r; }
  void pop() { c.pop_back(); } };
std::string under(Name target, Name const& source, Name const& p) { size_t k = 0; while(k < source.c.size() && k < p.c.size() && source.c[k] == p.c[k]) ++k; for(size_t i = k; i < source.c.size(); ++i) target.push(".."); for(size_t i = k; i < p.c.size(); ++i) target.push(p.c[i]); return target.text(); }
std::string str(fs::path const& p) { std::string s = p.string(); if(s.size() > 1 && s.back() == '/') s.pop_back(); return s; }
void sameName(fs::path const& got, std::string const& want, char const* msg) { auto s = str(got); msx_assert(s.size() == want.size(), msg); for(size_t i = 0; i < s.size(); ++i) msx_assert(s[i] == want[i], msg); }
}
#ifdef PATHS
extern "C" void harness_resolve() {
  char const* const sources[] = {".", "p", "p/q", "../p", "/r", "./p", "p/", "p/../q", ".."}; char const* const targets[] = {"T", "/T", "../T", "p/T", "./T/"}; char const* const files[] = {"f", "d/f", "d/e/f"};
  auto const si = pick(SOURCES, "source"), ti = pick(TARGETS, "target"), fi = pick(3, "file");
  Build::Info info; info.sourceDir(fs::path{sources[si]}).targetDir(fs::path{targets[ti]});
  auto const& src = info.sourceDir(); auto const& dst = info.targetDir(); fs::path const file = src / files[fi];
  unsigned const n = 1 + pick(LEN, "length"); char b[LEN + 1]; msx_symbolic(b, n, "name"); for(unsigned i = 0; i < n; ++i) msx_assume(b[i] != 0);
  bool any = false; for(unsigned i = 0; i < n; ++i) any |= b[i] != '/'; msx_assume(any); // not the root itself
  std::string const name(b, n); SourceTreeLoader::SourceFileLoadContext ctxt{file, src, dst};
  Name const s{sources[si]}, t{targets[ti]}; Name dir = s; dir / files[fi]; dir.pop();
  unsigned const kind = pick(5, "kind");
  if(kind > 2) { auto const e = kind == 3 ? SourceFileOrigin::System : SourceFileOrigin::PkgConfig; auto d = SourceTreeLoader::prependSearchPath(ctxt, Db::Dependency{name, e, {}}); msx_assert(d.name().native() == name && d.expectedOrigin() == e, "C19: the name of an external file is altered"); msx_reach("external"); return; }
  bool const absolute = b[0] == '/', local = n > 1 && b[0] == '.' && b[1] == '/';
  if(kind == 2) { // the name of a target is relative to the directory of the file
    msx_assume(!absolute); Name p = dir; p / name; sameName(SourceTreeLoader::makeTargetName(ctxt, name), under(t, s, p), "C19: a target is not placed under the target directory as its source file is under the source directory"); msx_reach("target"); return; }
  Name p = local ? dir : s; if(absolute) p = Name{name}; else p / name;
  if(kind == 0) { auto r = SourceTreeLoader::prependSearchPath(ctxt, name, SourceFileOrigin::Project); sameName(r, p.text(), "C19: a project file is not looked up where it was asked for"); msx_reach("project"); return; }
  msx_assume(!absolute); auto d = SourceTreeLoader::prependSearchPath(ctxt, Db::Dependency{name, SourceFileOrigin::Generated, {}}); sameName(d.name(), under(t, s, p), "C19: a generated file is not looked up under the target directory"); msx_assert(d.expectedOrigin() == SourceFileOrigin::Generated, "C19: the origin of a dependency is altered"); msx_reach("generated"); }
// the loader of a file is that of the longest extension of its name
extern "C" void harness_extension() {
  std::map<std::string, int, std::less<>> m; char const* const ext[] = {".a", ".b", ".a.b", ".ab", ".b.a", ".cccccc.dddddd.a"}; for(int i = 0; i < 6; ++i) m[ext[i]] = i;
  unsigned const n = 1 + pick(LEN, "length"); char b[LEN + 1]; msx_symbolic(b, n, "name"); for(unsigned i = 0; i < n; ++i) msx_assume(b[i] != 0 && b[i] != '/'); std::string const first = pick(2, "longer") ? "f..cccccc.dddddd" : "", name = first + std::string(b, n); msx_assume(name != "." && name != "..");
  char const* const dirs[] = {"", "d/", "d.a/", "/r.b/"}; fs::path const p{dirs[pick(4, "dir")] + name};
  int want = -1; unsigned best = 0; for(int i = 0; i < 6; ++i) { unsigned l = (unsigned)strlen(ext[i]); size_t const z = name.size(); if(l >= z || l <= best) continue; bool eq = true; for(unsigned k = 0; k < l; ++k) if(name[z - l + k] != ext[i][k]) { eq = false; break; } if(eq) { want = i; best = l; } }
  auto i = matchLongestExtension(p, m); int const got = i == m.end() ? -1 : i->second; msx_assert(got == want, "C19: a file is handled by the loader of another extension"); if(want >= 0) msx_reach("matched"); else msx_reach("none"); }
// a recipe in the project is preferred to an installed one
extern "C" void harness_command() {
  char const* const cmds[] = {"c.py", "./c.py", "s/../c.py", "/a/c.py"}; unsigned const k = pick(4, "command"); bool const abs = k == 3; std::string const cmd = cmds[k];
  char const* const kinds[] = {"missing", "regular", "directory", "other"}; (void)kinds; int const types[] = {-1, 1, 2, 8}; Disk d;
  int t[3]; for(auto& x : t) x = types[pick(4, "type")]; int err = (int)pick(2, "unreadable") * EACCES;
  if(t[0] >= 0) { auto& f = d.add("p/c.py", t[0]); f.err = err; } if(t[1] >= 0) d.add("/lib/c.py", t[1]); if(t[2] >= 0) d.add("/a/c.py", t[2]); d.add("p/s", 2); d.add("/lib/s", 2);
  if(k == 2) { if(t[0] >= 0) { auto& f = d.add("p/s/../c.py", t[0]); f.err = err; } if(t[1] >= 0) d.add("/lib/s/../c.py", t[1]); }
  SourceTreeLoader::CommandDictionary c; c.projectDir("p").systemDir("/lib");
  bool const inproj = abs ? t[2] == 1 : t[0] == 1 && !err, insys = abs ? t[2] == 1 : t[1] == 1; std::string const wantp = abs ? "/a/c.py" : inproj ? "p/c.py" : "/lib/c.py";
  for(int i = 0; i < 2; ++i) {
    bool threw = false; SourceTreeLoader::CommandDictionary::result_type r;
    try { r = c.get(cmd); } catch(std::exception const&) { threw = true; }
    msx_assert(threw == !(inproj || insys), "C19: a recipe that does not exist is accepted, or one that exists is not found"); if(threw) { msx_reach("missing"); continue; }
    msx_assert(r.first.native() == wantp, "C19: a recipe is looked up in the wrong place"); msx_assert(r.second == (inproj ? SourceFileOrigin::Project : SourceFileOrigin::System), "C19: a recipe has the wrong origin"); msx_reach("found"); }
  // another name for which there is no recipe, or the recipe itself
  bool other = false; try { (void)c.get(fs::path{"z/c.py"}); other = true; } catch(std::exception const&) { } msx_assert(!other, "C19: a recipe is taken for another one with the same file name");
  bool known = false; try { auto const x = c.get(fs::path{"/a/c.py"}); known = true; msx_assert(x.first.native() == "/a/c.py", "C19: a recipe is taken for another one with the same file name"); } catch(std::exception const&) { } msx_assert(known == (t[2] == 1), "C19: a recipe is taken for another one with the same file name");
  bool again = false; SourceTreeLoader::CommandDictionary::result_type a; try { a = c.get(fs::path{"c.py"}); again = true; } catch(std::exception const&) { } bool const p0 = t[0] == 1 && !err; msx_assert(again == (p0 || t[1] == 1), "C19: a recipe is taken for another one with the same file name"); if(again) msx_assert(clean(a.first.native()) == (p0 ? "p/c.py" : "/lib/c.py"), "C19: a recipe is taken for another one with the same file name");
  auto e = c.get(""); msx_assert(e.first == "", "C19: no recipe is looked up"); }
#endif
#if defined(TARGETS_H) || defined(TAGS) || defined(SCAN) || defined(LINK)
namespace {
Db::Compiler const& none() { static Db::Compiler const c; return c; }
char const* const origins[] = {"project", "generated", "system", "pkg-config"};
SourceFileOrigin const originValues[] = {SourceFileOrigin::Project, SourceFileOrigin::Generated, SourceFileOrigin::System, SourceFileOrigin::PkgConfig};
char letter(char const* name) { char c; msx_symbolic(&c, 1, name); msx_assume((c > ' ') & (c < 127) & (c != '"') & (c != '\\')); return c; }
bool same(std::string const& a, std::string const& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(a[i] != b[i]) return false; return true; }
}
#endif
// what a recipe was asked, and what it prints
#if defined(TARGETS_H) || defined(TAGS) || defined(SCAN) || defined(LINK)
struct Call { std::string recipe; std::vector<std::string> args; };
std::vector<Call> calls; std::string printed;
Exec::Result Maike::Exec::execve(fs::path const& r, std::vector<std::string> const& a) { calls.push_back({r.string(), a}); std::vector<std::byte> o; if(a.size() && a[0] == "get_tags") o.assign((std::byte const*)printed.data(), (std::byte const*)printed.data() + printed.size()); return Exec::Result{Exec::ExitStatus{}.returnCode(0), std::move(o), std::vector<std::byte>{}}; }
#endif
#ifdef TARGETS_H
#include "core/db/source_tree.hpp"
// C21: one producer for each output
extern "C" void harness_targets() {
  char const* const places[][2] = {{"p", "T"}, {".", "__t"}, {".", "."}, {"p", "p/T"}}; char const* const files[] = {"f", "d/g", "d/e/h"};
  unsigned const pi = pick(PLACES, "place"); Build::Info info; info.sourceDir(fs::path{places[pi][0]}).targetDir(fs::path{places[pi][1]}); Name const s{places[pi][0]}, t{places[pi][1]};
  Db::SourceFileList list; struct Want { std::string name; unsigned file; bool own; }; std::vector<Want> want; std::string source[3]; unsigned total = 0;
  for(unsigned i = 0; i < FILES; ++i) {
    Name f = s; f / files[i]; source[i] = f.text(); Name dir = f; dir.pop();
    fs::path const path = info.sourceDir() / files[i]; SourceTreeLoader::SourceFileLoadContext ctxt{path, info.sourceDir(), info.targetDir()}; std::vector<Db::TargetInfo> v; unsigned const k = pick(3, "targets"); total += k; msx_assume(total <= COUNT);
    for(unsigned j = 0; j < k; ++j) {
      unsigned const n = 1 + pick(LEN, "length"); char b[LEN + 1]; msx_symbolic(b, n, "name"); for(unsigned x = 0; x < n; ++x) msx_assume((b[x] > 0) & (b[x] < 127)); char const* const pre[] = {"", "../", "./d/"}; std::string const name = pre[pick(3, "prefix")] + std::string(b, n);
      msx_assume((b[0] != '/') & (b[n - 1] != '/') & (b[n - 1] != '.'));
      KeyValueStore::Compound c; c.set("name", name.c_str()); v.push_back(SourceTreeLoader::getTarget(ctxt, c.reference()));
      Name w = dir; w / name; msx_assume(!same(w.text(), s.text())); std::string const out = under(t, s, w); sameName(v.back().name(), out, "C21: a target has another name than declared"); want.push_back({out, i, same(out, source[i])}); }
    list.insert(std::make_pair(fs::path{source[i]}, Db::SourceFileInfo{std::move(v), std::cref(none()), Db::Compiler{"", false}, SourceFileOrigin::Project, Db::RebuildPolicy::OnlyIfOutOfDate})); }
  bool clash = false; for(size_t i = 0; i < want.size(); ++i) for(size_t j = 0; j < i; ++j) if(!want[i].own && !want[j].own && same(want[i].name, want[j].name)) clash = true;
  Db::TargetList targets; bool threw = false; try { targets = Db::collectTargets(std::cref(list)); } catch(std::runtime_error const&) { threw = true; }
  msx_assert(threw == clash, clash ? "C21: two producers of one output are accepted" : "C21: a target is rejected though nothing else produces it"); if(clash) { msx_reach("clash"); return; }
  size_t n = 0; for(auto const& w : want) n += !w.own; msx_assert(targets.size() == n, "C21: a target is lost or made up"); size_t const before = list.size(); Db::makeSourceFileInfos(targets, list); size_t fresh = 0;
  for(auto const& w : want) { if(w.own) { msx_reach("own"); continue; }
    auto i = targets.find(fs::path{w.name}); msx_assert(i != targets.end(), "C21: a target is lost"); msx_assert(i->second.sourceFilename() == source[w.file], "C21: a target is attributed to another source file");
    auto e = list.find(fs::path{w.name}); msx_assert(e != list.end(), "C21: a target is not part of the source tree"); bool dep = false; for(auto const& d : e->second.buildDeps()) dep |= d.name() == source[w.file]; msx_assert(dep, "C21: a target does not depend on the file that it is made from");
    bool old = false; for(unsigned f = 0; f < FILES; ++f) old |= same(source[f], w.name); if(!old) { ++fresh; msx_assert(e->second.origin() == SourceFileOrigin::Generated && e->second.buildDeps().size() == 1, "C21: a target is not an output of its source file alone"); } else msx_reach("also source"); }
  msx_assert(list.size() == before + fresh, "C21: the source tree has files that nothing made");
  if(pi == 2) { msx_reach("in place"); return; } // sources and outputs may depend on each other
  Db::SourceTree const tree{std::move(targets), Db::DependencyGraph{std::move(list), Db::DependencyGraph::IgnoreResolveErrors{}}, fs::path{info.targetDir()}};
  std::string const root = t.text() + "/"; for(auto const& w : want) if(!w.own && w.name.size() > root.size() && same(w.name.substr(0, root.size()), root)) { auto const& x = Db::getTarget(tree, fs::path{w.name.substr(root.size())}); msx_assert(x.sourceFilename() == source[w.file], "C21: asking for a target finds another one"); msx_reach("found"); }
  char c = letter("ask"); msx_assume(c != '/' && c != '.'); bool known = false; std::string const asked = root + c; for(auto const& w : want) known |= !w.own && same(w.name, asked); bool bad = false; try { Db::getTarget(tree, fs::path{std::string(1, c)}); } catch(std::runtime_error const&) { bad = true; } msx_assert(bad != known, "C21: a target that does not exist is found, or one that exists is not"); if(!known) msx_reach("unknown"); }
#endif

#ifdef TAGS
// C24: the tags of a file take effect as documented
namespace {
struct Dep { std::string name; SourceFileOrigin origin; std::vector<std::pair<std::string, std::string>> props; bool used = false; };
struct Place { Name s, t, dir; std::string look(std::string const& name, SourceFileOrigin o) const { if(o != SourceFileOrigin::Project && o != SourceFileOrigin::Generated) return name; Name p = name.compare(0, 2, "./") == 0 ? dir : s; p / name; return o == SourceFileOrigin::Project ? p.text() : under(t, s, p); } };
// a dependency: the text of the tag, and what it means
Dep dep(std::string& text, Place const& at, std::string const& name, unsigned origin, unsigned props, SourceFileOrigin standard) {
  Dep d; d.origin = origin < 4 ? originValues[origin] : standard; d.name = at.look(name, d.origin); text += "{\"ref\":\"" + name + "\""; if(props & 1) { std::string v = {'v', letter("value")}; text += ",\"rel\":\"" + v + "\""; d.props.push_back({"rel", v}); } if(origin < 4) text += std::string(",\"origin\":\"") + origins[origin] + "\""; if(props & 2) { text += ",\"refx\":\"z\""; d.props.push_back({"refx", "z"}); } text += "}"; return d; }
bool match(Db::Dependency const& g, Dep const& w) { if(w.used || g.expectedOrigin() != w.origin || !same(w.origin == SourceFileOrigin::System || w.origin == SourceFileOrigin::PkgConfig ? g.name().string() : str(g.name()), w.name) || g.properties().size() != w.props.size()) return false; for(auto const& p : w.props) { bool found = false; for(auto const& q : g.properties()) if(same(q.name(), p.first) && same(q.value(), p.second)) found = true; if(!found) return false; } return true; }
void equal(std::vector<Db::Dependency> const& got, std::vector<Dep> want, char const* msg) { msx_assert(got.size() == want.size(), msg); for(auto const& g : got) { bool found = false; for(auto& w : want) if(!found && match(g, w)) { w.used = true; found = true; } msx_assert(found, msg); } }
char const* const files[] = {"f.py", "d/e/f.py"};
}
extern "C" void harness_tags() {
  char const* const places[][2] = {{"p", "T"}, {".", "__t"}}; unsigned const where = pick(3, "where"), pi = where == 2, fi = where > 0; Build::Info info; info.sourceDir(fs::path{places[pi][0]}).targetDir(fs::path{places[pi][1]});
  Place at{Name{places[pi][0]}, Name{places[pi][1]}, Name{places[pi][0]}}; at.dir / files[fi]; std::string const self = at.dir.text(); at.dir.pop(); char const* const local[] = {"", "./"};
  std::string text = "{"; bool comma = false; auto key = [&](char const* k) { if(comma) text += ","; comma = true; text += std::string("\"") + k + "\":"; };
  std::vector<Dep> use, extra; struct T { std::string name; std::vector<Dep> deps; }; std::vector<T> targets; auto name = [&](char const* pre, char const* what) { std::string r = pre; r += letter(what); r += 'x'; return r; };
  auto target = [&](std::string& o, std::string const& n, unsigned what) { Name p = at.dir; p / n; T t{under(at.t, at.s, p), {}}; o += "{\"name\":\"" + n + "\""; if(what & 1) { o += ",\"dependencies\":["; t.deps.push_back(dep(o, at, local[what >> 3 & 1] + std::string("td"), what >> 4, what >> 1 & 1, SourceFileOrigin::System)); o += "]"; } if(what & 4) { o += ",\"pkgconfig_libs\":[\"l1\",\"l2\"]"; for(auto l : {"l1", "l2"}) t.deps.push_back(Dep{l, SourceFileOrigin::PkgConfig, {}}); } o += "}"; targets.push_back(t); };
  unsigned const focus = pick(6, "focus"); unsigned rebuild = 0; bool tag = false, asks = false; unsigned recipe = 0; std::string script;
  Db::Compiler standard; unsigned const def = focus == 4 ? pick(3, "default") : 0; bool const defAsks = def && pick(2, "asks"); KeyValueStore::Compound dc; dc.set("k", "d"); if(def) standard = Db::Compiler{fs::path{def == 1 ? "/lib/def.py" : "p/def.py"}, def == 1 ? SourceFileOrigin::System : SourceFileOrigin::Project, std::move(dc), defAsks};
  switch(focus) {
    case 0: key("target"); target(text, name("n", "name"), 0); break;
    case 1: { key("targets"); text += "["; unsigned const n = pick(3, "count"), which = n - 1; for(unsigned i = 0; i < n; ++i) { if(i) text += ","; std::string const nm = i == which ? name("n", "name") : "m"; unsigned w = 0; if(i == which) { w = pick(2, "deps"); w |= pick(2, "libs") << 2; if(w & 1) { w |= pick(2, "props") << 1; w |= pick(2, "local") << 3; w |= pick(5, "origin") << 4; } } target(text, nm, w); } text += "]"; if(pick(2, "also")) { key("target"); target(text, "o", 4); } break; }
    case 2: case 3: { bool const x = focus == 3; key(x ? "dependencies_extra" : "dependencies"); text += "["; unsigned const n = pick(3, "count"), which = n - 1; for(unsigned i = 0; i < n; ++i) { if(i) text += ","; std::string nm = i == which ? name("u", "name") : "v"; unsigned org = 4, props = 0; if(i == which) { nm = local[pick(2, "local")] + nm; org = pick(5, "origin"); props = pick(2, "props") * 3; } (x ? extra : use).push_back(dep(text, at, nm, org, props, SourceFileOrigin::Generated)); } text += "]"; if(pick(2, "also")) { key(x ? "dependencies" : "dependencies_extra"); text += "["; (x ? use : extra).push_back(dep(text, at, "w", 4, 0, SourceFileOrigin::Generated)); text += "]"; } break; }
    case 4: // the compiler of this file, and what it adds
      if((tag = pick(2, "tagged"))) { recipe = pick(3, "recipe"); asks = pick(2, "asked"); key("compiler"); text += "{"; if(recipe) text += recipe == 1 ? "\"recipe\":\"c.py\"," : "\"recipe\":\"s.py\","; text += "\"config\":{\"q\":\"r\"}"; if(asks) text += ",\"use_get_tags\":1"; text += "}"; } else asks = defAsks;
      if(asks && pick(2, "tags")) { key("dependencies"); text += "["; use.push_back(dep(text, at, "tu", 4, 0, SourceFileOrigin::Generated)); text += "]"; key("dependencies_extra"); text += "["; extra.push_back(dep(text, at, "te", 4, 0, SourceFileOrigin::Generated)); text += "]"; key("target"); target(text, "tt", 0); }
      break;
    case 5: rebuild = pick(3, "rebuild"); if(rebuild) { key("rebuild"); text += rebuild == 1 ? "\"always\"" : "\"only_if_out_of_date\""; } break; }
  if(asks && pick(2, "prints")) { script = "{"; std::swap(script, text); bool const c = comma; comma = false; key("dependencies"); text += "["; use.push_back(dep(text, at, "./su", 4, 1, SourceFileOrigin::Generated)); text += "]"; key("dependencies_extra"); text += "["; extra.push_back(dep(text, at, "se", 4, 0, SourceFileOrigin::Generated)); text += "]"; key("targets"); text += "["; target(text, name("s", "name"), 0); text += "]}"; std::swap(script, text); comma = c; }
  text += "}"; Disk d; d.add(self, 1, "#@ " + text + "\nrest {\n"); d.add("p/c.py"); d.add("p/s.py"); d.v.pop_back(); d.add("/lib/s.py"); if(pi == 1) { d.add("c.py"); }
  calls.clear(); printed = script; SourceTreeLoader::CommandDictionary cmds; cmds.projectDir(fs::path{info.sourceDir()}).systemDir("/lib");
  SourceFileInfoLoaders::Loader loader{Extension::SourceFileLoader{}}; loader.compiler(Db::Compiler{standard}); Db::Compiler const mkdir{fs::path{"mkdir.py"}, false};
  SourceTreeLoader::SourceFileLoaderDelegator delegator{std::cref(cmds), std::cref(mkdir)}; delegator.loaders(SourceTreeLoader::SourceFileLoaderDelegator::LoaderMap{{".py", std::cref(loader)}});
  auto const got = delegator.load(info.sourceDir() / files[fi], info.sourceDir(), info.targetDir());
  // the file needs its directory, and the recipe that makes its targets
  use.push_back(Dep{at.dir.text(), SourceFileOrigin::Project, {}}); std::string r = def == 1 ? "/lib/def.py" : def == 2 ? "p/def.py" : ""; auto o = def == 1 ? SourceFileOrigin::System : SourceFileOrigin::Project; if(recipe == 1) { r = pi ? "c.py" : "p/c.py"; o = SourceFileOrigin::Project; } if(recipe == 2) { r = "/lib/s.py"; o = SourceFileOrigin::System; } if(!r.empty()) use.push_back(Dep{r, o, {}});
  equal(got.useDeps(), use, "C24: the dependencies of a file are not those declared"); equal(got.childTargetsUseDeps(), extra, "C24: the extra dependencies of a file are not those declared");
  msx_assert(got.targets().size() == targets.size(), "C24: the targets of a file are not those declared"); for(auto const& t : targets) { bool found = false; for(auto const& g : got.targets()) if(!found && same(str(g.name()), t.name)) { found = true; equal(g.useDeps(), t.deps, "C24: the dependencies of a target are not those declared"); } msx_assert(found, "C24: a target has another name than declared"); }
  msx_assert(got.rebuildPolicy() == (rebuild == 1 ? Db::RebuildPolicy::Always : Db::RebuildPolicy::OnlyIfOutOfDate), "C24: the rebuild policy is not the one declared"); msx_assert(got.origin() == SourceFileOrigin::Project, "C24: a file of the project is taken for something else");
  // the recipe is asked for tags exactly when it should be, and told which file it is about
  size_t asked = 0; for(auto const& c : calls) if(c.args.size() && c.args[0] == "get_tags") { ++asked; msx_assert(clean(c.recipe) == (r.empty() ? self : r) && (r == "c.py" || c.recipe.find('/') != std::string::npos), "C24: the wrong recipe is asked for tags"); msx_assert(c.args.size() == 2 && c.args[1].find("\"source_file\": \"" + std::string(pi ? "./" : "") ) != std::string::npos && c.args[1].find(files[fi]) != std::string::npos, "C24: the recipe is asked about another file"); }
  msx_assert(asked == (asks ? 1u : 0u), "C24: a recipe is asked for tags though it should not be, or the other way around");
  static char const* const labels[] = {"target", "targets", "uses", "extras", "compiler", "policy"}; msx_reach(labels[focus]); if(asked) msx_reach("asked"); }
// a loader that only names its output
extern "C" void harness_generic() {
  unsigned const n = 1 + pick(LEN, "length"); char b[LEN + 1]; msx_symbolic(b, n, "name"); for(unsigned i = 0; i < n; ++i) msx_assume((b[i] > 0) & (b[i] < 127) & (b[i] != '/')); char const* const ext[] = {".css", "", ".a.b", "x"}; unsigned const e = pick(4, "extension"); bool const replace = pick(2, "replace");
  std::string const file = std::string(b, n) + ".s"; Disk d; std::string const self = "p/d/" + file; d.add(self, 1, "{ no tags \"");
  SourceFileInfoLoaders::Loader loader{Generic::SourceFileLoader{ext[e], replace ? Generic::FilenameExtReplacementMode::Replace : Generic::FilenameExtReplacementMode::Append}}; SourceTreeLoader::CommandDictionary cmds; Db::Compiler const mkdir{fs::path{"mkdir.py"}, false}; loader.compiler(Db::Compiler{fs::path{"/lib/c.py"}, SourceFileOrigin::System, KeyValueStore::Compound{}, false});
  SourceTreeLoader::SourceFileLoaderDelegator delegator{std::cref(cmds), std::cref(mkdir)}; delegator.loaders(SourceTreeLoader::SourceFileLoaderDelegator::LoaderMap{{".s", std::cref(loader)}}); fs::path const src{"p"}, dst{"T"};
  auto const got = delegator.load(fs::path{self}, src, dst); std::string want = replace ? std::string(b, n) : file; if(replace && e == 3) want += '.'; want += ext[e];
  msx_assume(!same(want, ".") && !same(want, "..")); msx_assert(got.targets().size() == 1, "C24: a file has not exactly one target"); sameName(got.targets()[0].name(), "T/d/" + want, "C24: the target of a file is not named after it"); msx_assert(got.targets()[0].useDeps().empty() && got.childTargetsUseDeps().empty(), "C24: dependencies are made up"); msx_assert(got.useDeps().size() == 2, "C24: the dependencies of a file are not its directory and its recipe"); msx_reach(replace ? "replaced" : "appended"); }
#endif

#ifdef SCAN
#ifndef WORKERS
#define WORKERS 1
#endif
// C26: the source tree is what is in the source directory, less what is filtered out
namespace {
struct Filter { std::vector<std::string> name, path; bool (*nameOut)(std::string const&); bool (*pathOut)(std::string const&); };
bool never(std::string const&) { return false; }
bool hidden(std::string const& s) { return s[0] == '.' || (s.size() > 1 && s[0] == '_' && s[1] == '_'); }
std::vector<Filter> filters() { return {
  {{"^\\.", "^__"}, {"^\\.", "^__"}, hidden, hidden}, {{}, {}, never, never}, {{"a$"}, {}, [](std::string const& s) { return s.back() == 'a'; }, never}, {{".a"}, {}, [](std::string const& s) { for(size_t i = 1; i < s.size(); ++i) if(s[i] == 'a') return true; return false; }, never},
  {{"^b", "a*b$", "^c"}, {}, [](std::string const& s) { return s[0] == 'b' || s[0] == 'c' || s.back() == 'b'; }, never}, {{}, {"^a"}, never, [](std::string const& s) { return s[0] == 'a'; }}, {{}, {"/b"}, never, [](std::string const& s) { for(size_t i = 1; i < s.size(); ++i) if(s[i - 1] == '/' && s[i] == 'b') return true; return false; }}, {{"^[^a]"}, {"[ab]/"}, [](std::string const& s) { return s[0] != 'a'; }, [](std::string const& s) { for(size_t i = 1; i < s.size(); ++i) if(s[i] == '/' && (s[i - 1] == 'a' || s[i - 1] == 'b')) return true; return false; }} }; }
std::string entry(char const* what) { unsigned const n = 1 + pick(LEN, "length"); char b[LEN + 1]; msx_symbolic(b, n, what); for(unsigned i = 0; i < n; ++i) msx_assume((b[i] > 0) & (b[i] < 127) & (b[i] != '/')); std::string r(b, n); msx_assume(!same(r, ".") && !same(r, "..")); return r; }
char const* const roots[] = {".", "p", "/r", "../p"};
}
extern "C" void harness_scan() {
  std::string const root = roots[pick(ROOTS, "root")], pre = root == "." ? "" : root + "/"; auto all = filters(); auto const& f = all[pick(FILTERS, "filter")]; bool const recursive = pick(2, "recursive"); unsigned const where = pick(root == "." ? 3 : 2, "target");
  std::string const x = entry("file") + (pick(2, "extension") ? ".b" : ""), y = entry("directory"), z = entry("inner"); msx_assume(!same(x, y));
  Disk d; d.add(root, 2); d.add(pre + x, 1); d.add(pre + y, 2); d.add(pre + y + "/" + z, 1); std::string const target = where == 0 ? "T" : where == 1 ? pre + y : "/w/" + y; if(where == 0) { d.add("T", 2); msx_assume(!same(x, "T") && !same(y, "T")); }
  SourceTreeLoader::InputFilter names, paths; names.source(std::vector<std::string>{f.name}); paths.source(std::vector<std::string>{f.path});
  SourceTreeLoader::CommandDictionary cmds; Db::Compiler const mkdir{fs::path{"mkdir.py"}, false}; SourceTreeLoader::SourceFileLoaderDelegator delegator{std::cref(cmds), std::cref(mkdir)};
  std::vector<std::string> want{root}; if(!f.nameOut(x) && !f.pathOut(x)) { want.push_back(pre + x); msx_reach("file"); } else msx_reach("filtered");
  if(recursive && where == 0 && !f.nameOut(y) && !f.pathOut(y)) { want.push_back(pre + y); msx_reach("directory"); if(!f.nameOut(z) && !f.pathOut(y + "/" + z)) { want.push_back(pre + y + "/" + z); msx_reach("inner"); } }
  if(where == 0 && root == ".") { if(recursive && !f.nameOut("T") && !f.pathOut("T")) msx_reach("output left out"); }
  Db::SourceFileList got; { Sched::ThreadPool workers{ThreadCount{"1"}}; got = SourceTreeLoader::collectSourceFiles(workers, fs::path{root}, names, paths, delegator, SourceTreeLoader::RecursiveScan{recursive}, fs::path{target}); }
  msx_assert(got.size() == want.size(), "C26: the files in the source tree are not those in the source directory"); for(auto const& w : want) { bool found = false; for(auto const& g : got) if(!found && same(str(g.first), w)) found = true; msx_assert(found, "C26: a file in the source directory is missing in the source tree"); } }
// a filter leaves out exactly the names that contain what it says; natively with the real regular expressions
extern "C" void harness_filter() {
  auto all = filters(); auto const& f = all[pick(FILTERS, "filter")]; bool const path = pick(2, "kind"); SourceTreeLoader::InputFilter x; x.source(std::vector<std::string>{path ? f.path : f.name});
  unsigned const n = 1 + pick(LEN, "length"); char b[LEN + 1]; msx_symbolic(b, n, "name"); for(unsigned i = 0; i < n; ++i) msx_assume((b[i] > 0) & (b[i] < 127)); b[n] = 0; bool const got = x.match(b); std::string const name(b, n); bool const want = path ? f.pathOut(name) : f.nameOut(name);
  msx_assert(got == want, want ? "C26: a filter lets a name through that it should not" : "C26: a filter leaves out a name that it should not"); msx_reach(want ? "left out" : "let through"); }
// whatever goes wrong is reported, and no part of the tree is passed off as the whole
extern "C" void harness_scan_errors() {
  enum { None, Missing, NotDirectory, Inaccessible, Unlistable, Interrupted, Unopenable, IllFormed, Unreadable, Kinds }; unsigned const kind = pick(Kinds, "fault"); bool const filtered = pick(2, "filtered"), inner = kind >= Inaccessible && pick(2, "inner");
  Disk d; if(kind != Missing) d.add("p", kind == NotDirectory ? 1 : 2); char const* const dirs[] = {"p/d", "p/d/d"}; char const* const files[] = {"p/f.py", "p/d/f.py"};
  if(kind != Missing && kind != NotDirectory) { d.add("p/a", 1); d.add(dirs[0], 2); d.add(files[0], 1, "#@ {}\n"); d.add(dirs[1], 2); d.add(files[1], 1, "# nothing\n"); d.add("p/d/d/e", 1); }
  for(auto& f : d.v) { if(f.path == dirs[inner]) { if(kind == Unlistable) f.readErr = EACCES; if(kind == Interrupted) { f.readErr = EIO; f.readAt = 1; } } if(f.path == files[inner]) { if(kind == Inaccessible || kind == Unopenable) f.err = kind == Unopenable ? EMFILE : EACCES; if(kind == IllFormed) f.content = "#@ {\"target\":\n"; if(kind == Unreadable) { f.readErr = EIO; f.readAt = (int)pick(3, "after") * 3; } } }
  SourceTreeLoader::InputFilter names, paths; names.source(std::vector<std::string>{}); paths.source(std::vector<std::string>{}); if(filtered) names.source(std::vector<std::string>{inner ? "^d$" : "^[df]"});
  bool const left = filtered && kind >= Inaccessible; // the faulty file is not looked at
  SourceTreeLoader::CommandDictionary cmds; SourceFileInfoLoaders::Loader loader{Extension::SourceFileLoader{}}; loader.compiler(Db::Compiler{"", false}); Db::Compiler const mkdir{fs::path{"mkdir.py"}, false}; SourceTreeLoader::SourceFileLoaderDelegator delegator{std::cref(cmds), std::cref(mkdir)}; delegator.loaders(SourceTreeLoader::SourceFileLoaderDelegator::LoaderMap{{".py", std::cref(loader)}});
  Db::SourceFileList got; bool threw = false; { Sched::ThreadPool workers{ThreadCount{WORKERS == 1 ? "1" : "2"}}; try { got = SourceTreeLoader::collectSourceFiles(workers, fs::path{"p"}, names, paths, delegator, SourceTreeLoader::RecursiveScan{true}, fs::path{"T"}); } catch(std::exception const& e) { threw = true; msx_assert(e.what() && *e.what(), "C26: a failed scan says nothing"); } }
  bool const want = kind != None && !left; msx_assert(threw == want, want ? "C26: a fault in the scan is not reported" : "C26: a scan without faults fails"); if(want) { msx_reach("reported"); return; }
  size_t n = filtered ? inner ? 3 : 2 : 7; msx_assert(got.size() == n, "C26: the files in the source tree are not those in the source directory"); msx_reach(filtered ? "not looked at" : "complete"); }
#endif

#ifdef LINK
#ifndef FULL
#define FULL 0
#endif
// C27: a program is linked with what it uses, as told by the headers that it includes
namespace {
struct Edge { unsigned from, to; };
// 0..2 a.hpp b.hpp n.hpp; 3..5 a.cpp b.cpp and the program; 6..8 their objects; 9 what is linked
struct Graph { std::vector<unsigned> next[10]; std::vector<std::pair<unsigned, char>> later; // which header is included is decided last
  void add(unsigned a, unsigned b) { next[a].push_back(b); } void includes(unsigned a, char c) { later.push_back({a, c}); } void decide() { for(auto const& x : later) add(x.first, x.second == 'a' ? 0u : x.second == 'b' ? 1u : 2u); }
  bool walk(unsigned n, int* mark, unsigned limit = 10) const { if(n >= limit) return false; if(mark[n] == 1) return true; if(mark[n]) return false; mark[n] = 1; bool cycle = false; for(unsigned k : next[n]) cycle |= walk(k, mark, limit); mark[n] = 2; return cycle; } };
char included(std::string& text, char const* what, bool deep, bool any = true) { char c = 'n'; if(any) { msx_symbolic(&c, 1, what); msx_assume((c == 'a') | (c == 'b') | (c == 'n')); } text += deep ? "#include \"" : "#include \"./"; text += c; text += deep ? "/x.hpp\"\n" : ".hpp\"\n"; return c; }
}
extern "C" void harness_link() {
  // at the top; in a directory; in place, with outputs of an earlier run; files of the same name in several directories
  char const* const dirs[] = {".", ".", ".", "p"}; unsigned const di = pick(FULL ? 4 : 3, "where"); bool const place = di == 1, deep = di == 2; std::string const pre = di == 3 ? "p/" : "", out = place ? "" : "T/"; char const* const target = place ? "." : "T"; auto name = [&](char c) { return std::string(1, c) + (deep ? "/x" : ""); }; bool const few = !FULL && di; unsigned const kind = pick(3, "kind");
  Disk d; d.add(dirs[di], 2); if(deep) for(char const* x : {"a", "b", "m", "n"}) d.add(x, 2); if(place) { for(char const* x : {"a.o", "b.o", "m.o", "z"}) d.add(x, 1, "\x7f"); } Graph g; std::string lib[2]; bool declares[2];
  // each header declares the object that implements it, or an external library, or nothing
  for(unsigned i = 0; i < 2; ++i) { std::string const n = name((char)('a' + i)), at = deep ? "" : "./"; unsigned const decl = pick(3, "declares"); declares[i] = decl == 1; std::string h = decl == 1 ? "//@ {\"dependencies_extra\":[{\"ref\":\"" + at + n + ".o\",\"rel\":\"implementation\"}]}\n" : decl == 2 ? "//@ {\"dependencies_extra\":[{\"ref\":\"l" + n.substr(0, 1) + "\",\"origin\":\"pkg-config\"}]}\n" : "//@ {}\n"; if(decl == 2) lib[i] = std::string("l") + n[0];
    g.includes(i, included(h, "header", deep, !few || i == 0)); d.add(pre + n + ".hpp", 1, h); std::string c = "//@ {\"target\":{\"name\":\"" + (deep ? "x" : n) + ".o\"}}\n#include \"./" + (deep ? "x" : n) + ".hpp\"\n"; g.add(3 + i, (unsigned)i); if(FULL || i == 0) g.includes(3 + i, included(c, "source", deep, !few)); d.add(pre + n + ".cpp", 1, c); g.add(6 + i, 3 + i); }
  d.add(pre + name('n') + ".hpp", 1, "//@ {}\n");
  std::string const program[] = {name('m') + ".cpp", name('m') + ".cpp", "m.test.cpp"}, object = deep ? "m/x.o" : "./m.o"; static char const* const linked[] = {"m.app.maikerule", "m.lib.maikerule", "m.test.cpp"}; std::string const rule = "{\"target\":{\"name\":\"z\"},\"dependencies\":[{\"ref\":\"" + object + "\",\"origin\":\"generated\",\"rel\":\"implementation\"}]}\n", libRule = "{\"target\":{\"name\":\"z\"},\"dependencies_extra\":[{\"ref\":\"" + object + "\",\"origin\":\"generated\",\"rel\":\"implementation\"}]}\n";
  std::string m = std::string("//@ {\"target\":{\"name\":\"") + (kind == 2 ? "z" : deep ? "x.o" : "m.o") + "\"}}\n"; g.includes(5, included(m, "program", deep)); d.add(pre + program[kind], 1, m); g.add(8, 5); if(kind < 2) { d.add(pre + linked[kind], 1, kind ? libRule : rule); g.add(9, 8); }
  SourceFileInfoLoaders::Loader cxx{Cxx::SourceFileLoader{}}, test{Cxx::SourceFileLoader{}}, app{App::SourceFileLoader{}}, archive{Lib::SourceFileLoader{}}; auto tool = [](char const* p, bool link = false) { KeyValueStore::Compound c; if(link) c.set("actions", KeyValueStore::Array{}.append("link").append("run")); return Db::Compiler{fs::path{p}, SourceFileOrigin::System, std::move(c), false}; };
  cxx.compiler(tool("/lib/c.py")); test.compiler(tool("/lib/c.py", true)); app.compiler(tool("/lib/l.py")); archive.compiler(tool("/lib/ar.py")); Db::Compiler const mkdir = tool("/lib/mkdir.py"); SourceTreeLoader::CommandDictionary cmds; SourceTreeLoader::SourceFileLoaderDelegator delegator{std::cref(cmds), std::cref(mkdir)};
  delegator.loaders(SourceTreeLoader::SourceFileLoaderDelegator::LoaderMap{{".hpp", std::cref(cxx)}, {".cpp", std::cref(cxx)}, {".test.cpp", std::cref(test)}, {".app.maikerule", std::cref(app)}, {".lib.maikerule", std::cref(archive)}});
  SourceTreeLoader::InputFilter names, paths; names.source(std::vector<std::string>{}); paths.source(std::vector<std::string>{});
  bool threw = false; std::vector<Db::Dependency> deps; bool loaded = false;
  try { Sched::ThreadPool workers{ThreadCount{"1"}}; auto const tree = SourceTreeLoader::load(workers, fs::path{dirs[di]}, names, paths, delegator, SourceTreeLoader::RecursiveScan{deep}, fs::path{target}); loaded = true; deps = Db::getUseDepsRecursive(tree.dependencyGraph(), Db::getNode(tree.dependencyGraph(), fs::path{pre + linked[kind]})); } catch(std::runtime_error const&) { threw = true; }
  g.decide();
  // what an object needs besides its source: what is declared by the headers that the source includes, in any number of steps
  std::vector<std::string> libs[3]; bool headerCycle = false;
  for(unsigned o = 0; o < 3; ++o) { int mark[10] = {}; headerCycle |= g.walk(3 + o, mark, 6); for(unsigned h = 0; h < 2; ++h) if(mark[h]) { if(declares[h] && !(h == o)) g.add(6 + o, 6 + h); if(!lib[h].empty()) libs[o].push_back(lib[h]); } }
  // a test is linked by its own source file
  unsigned const root = kind == 2 ? 8 : 9; int reached[10] = {}; bool const cycle = g.walk(root, reached);
  if(headerCycle) { msx_assert(threw && !loaded, "C27: headers that include each other are accepted"); msx_reach("headers in a circle"); return; }
  msx_assert(loaded, "C27: a source tree without circular includes is rejected"); msx_assert(threw == cycle, cycle ? "C27: objects that need each other are accepted" : "C27: a program that can be linked is rejected"); if(cycle) { msx_reach("objects in a circle"); return; }
  // exactly the objects, and exactly the libraries
  size_t objects = 0, libraries = 0; for(auto const& x : deps) { if(x.expectedOrigin() == SourceFileOrigin::Generated && str(x.name()).back() == 'o') { ++objects; msx_assert(x.properties().size() == 1 && same(x.properties()[0].name(), "rel") && same(x.properties()[0].value(), "implementation"), "C27: an object is not known to be one"); } if(x.expectedOrigin() == SourceFileOrigin::PkgConfig) ++libraries; }
  auto count = [&](std::string const& name, SourceFileOrigin o) { size_t n = 0; for(auto const& x : deps) if(x.expectedOrigin() == o && same(str(x.name()), name)) ++n; return n; };
  size_t want = 0; std::string const names3[] = {name('a') + ".o", name('b') + ".o", name('m') + ".o"}; for(unsigned o = 0; o < 3; ++o) if(reached[6 + o] && !(kind == 2 && o == 2)) { ++want; msx_assert(count(out + names3[o], SourceFileOrigin::Generated) == 1, "C27: a program is not linked with an object that it uses"); } msx_assert(objects == want, "C27: a program is linked with an object that it does not use");
  size_t wantLibs = 0; for(unsigned h = 0; h < 2; ++h) if(!lib[h].empty()) { bool used = false; for(unsigned o = 0; o < 3; ++o) if(reached[6 + o]) for(auto const& l : libs[o]) used |= l == lib[h]; if(used) { ++wantLibs; msx_assert(count(lib[h], SourceFileOrigin::PkgConfig) == 1, "C27: a program is not linked with a library that it uses"); msx_reach("library"); } } msx_assert(libraries == wantLibs, "C27: a program is linked with a library that it does not use");
  static char const* const kinds[] = {"program", "archive", "test"}; msx_reach(kinds[kind]); if(place) msx_reach("in place"); if(deep) msx_reach("same names"); if(want > 2) msx_reach("in several steps"); }
#endif
