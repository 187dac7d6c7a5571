// C05: the decision whether a command must run, over every combination of time stamps, file types, missing
// files, dependency origins, forced rebuilds and rebuild policies.
#include "msx.h"
#include "core/db/task.hpp"
#include <stdexcept>
#include <cstring>
#ifndef DEPS
#define DEPS 2
#endif
#ifndef TARGETS
#define TARGETS 1
#endif
using namespace Maike; using namespace Maike::Db;
namespace {
struct F { int8_t missing; int8_t dir; long t; };
F files[8]; // 0 source; 1.. targets; 4.. dependencies
// names with an extension: "s.c", "t0.o", "d0.h"; whatever else exists in the file system (7) is arbitrary
int which(char const* p) { if(!strcmp(p, "s.c")) return 0; if((p[0] == 't' || p[0] == 'd') && p[1] >= '0' && p[1] <= '2' && !strcmp(p + 2, p[0] == 't' ? ".o" : ".h")) return (p[0] == 't' ? 1 : 4) + p[1] - '0'; return 7; }
fs::path target(int i) { return fs::path{std::string("t") + (char)('0' + i) + ".o"}; }
fs::path depend(int i) { return fs::path{std::string("d") + (char)('0' + i) + ".h"}; }
F any(char const* nm, bool may_be_dir) { F f; f.missing = (int8_t)msx_range(0, 1, nm); f.dir = may_be_dir ? (int8_t)msx_range(0, 1, nm) : 0; msx_symbolic(&f.t, sizeof f.t, nm); return f; }
int runs; int outcome; uint8_t notdir; // what is missing is missing because something that is in its path is not a directory
struct Runner {};
Exec::Result execve(Runner&, Exec::Command const&) { ++runs; return Exec::Result{Exec::ExitStatus::success()}; }
}
extern "C" int msx_fs_type(char const* p, int* e) { *e = 0; F const& f = files[which(p)]; return (int)msx_ite(f.missing, (uint64_t)-1, msx_ite(f.dir, 2, 1)); }
extern "C" long msx_fs_mtime(char const* p, int* e) { F const& f = files[which(p)]; *e = (int)msx_ite(f.missing, msx_ite(notdir, 20, 2), 0); return f.t; }
extern "C" int msx_fs_entry(char const*, int, char*, unsigned, int*) { msx_fail("directory listing"); return 0; }
extern "C" void harness_uptodate() {
  notdir = (uint8_t)msx_range(0, 1, "notdir"); files[0] = any("src", false); for(int i = 0; i < TARGETS; ++i) files[1 + i] = any("target", true); for(int i = 0; i < DEPS; ++i) files[4 + i] = any("dep", true); files[7] = any("other", true);
  uint8_t ext[DEPS + 1]; SourceFileOrigin org[DEPS + 1];
  for(int i = 0; i < DEPS; ++i) { auto o = msx_range(0, 3, "origin"); org[i] = (SourceFileOrigin)o; ext[i] = (uint8_t)(o >= 2); }
  auto const force = msx_range(0, 1, "force"), always = msx_range(0, 1, "always"), chain = msx_range(0, 1, "chain");
  Compiler def{fs::path{"cc"}, false};
  std::vector<TargetInfo> tg; for(int i = 0; i < TARGETS; ++i) tg.push_back(TargetInfo{target(i), std::vector<Dependency>{}});
  SourceFileInfo si{std::move(tg), std::cref(def), Compiler{fs::path{""}, false}, SourceFileOrigin::Project, (RebuildPolicy)(always ? (int)RebuildPolicy::Always : (int)RebuildPolicy::OnlyIfOutOfDate)};
  // direct dependencies, or a chain (s -> d0 -> d1): a file included by an included file counts as well
  DependencyGraph::SourceFileList list; std::vector<Dependency> direct;
  for(int i = 0; i < DEPS; ++i) { Dependency d{depend(i), org[i], std::vector<Property>{}}; 
    SourceFileInfo di{org[i], Compiler{fs::path{""}, false}};
    if(chain && i + 1 < DEPS) di.useDeps(std::vector<Dependency>{Dependency{depend(i + 1), org[i + 1], std::vector<Property>{}}});
    if(!chain || i == 0) direct.push_back(d);
    list.insert(std::make_pair(depend(i), std::move(di))); }
  si.useDeps(std::move(direct)); list.insert(std::make_pair(fs::path{"s.c"}, std::move(si)));
  DependencyGraph g{std::move(list)};
  Build::Info bi; Task task{g, getNode(g, fs::path{"s.c"}), bi, LogFormat::PlainText};
  runs = 0; Runner runner; bool threw = false; bool ran = false;
  try { auto r = task.runIfNecessary(Task::ForceRecompilation{force != 0}, Invoker{std::ref(runner)}); ran = r.has_value(); } catch(std::runtime_error const&) { threw = true; }
  msx_observe(threw); msx_observe((uint64_t)runs); msx_observe(ran);
  // oracle
  uint8_t stale = 0, orphan = 0;
  for(int i = 0; i < TARGETS; ++i) { F const& t = files[1 + i]; uint8_t st = (uint8_t)(t.missing | ((files[0].missing == 0) & (files[0].t >= t.t)));
    for(int k = 0; k < DEPS; ++k) { F const& d = files[4 + k]; st |= (uint8_t)((ext[k] == 0) & (d.missing == 0) & (d.dir == 0) & (d.t >= t.t)); }
    uint8_t const isdir = (uint8_t)((t.missing == 0) & (t.dir != 0));
    stale |= (uint8_t)(st & (isdir == 0)); orphan |= (uint8_t)(files[0].missing & t.missing); }
  uint8_t const must = (uint8_t)((force != 0) | (always != 0) | stale);
  if(threw) { msx_reach("error"); msx_assert(orphan, "C05: an error although source or target exists"); msx_assert(runs == 0, "C05: error after running the command"); }
  else {
    msx_assert(runs == (int)ran, "C05: the reported outcome disagrees with what was run"); msx_assert(runs <= 1, "C05: the command ran more than once");
    if(ran) { msx_reach("run"); msx_assert(must, "C05: a command ran although all of its targets are up to date"); }
    else { msx_reach("skip"); msx_assert(!must, "C05: an out-of-date target was not rebuilt"); } }
}
