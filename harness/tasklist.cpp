// C06/C07: the real task list and thread pool on every small dependency graph, every outcome of every
// command and every schedule.
#include "msx.h"
#include "core/db/task_list.hpp"
#include <stdexcept>
#ifndef NODES
#define NODES 3
#endif
#ifndef WORKERS
#define WORKERS 2
#endif
#ifndef OUTCOMES
#define OUTCOMES 2
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
using namespace Maike; using namespace Maike::Db;
enum { OK, FAIL, THROW, KILLED };
namespace {
uint8_t msx_ghost_started[NODES], msx_ghost_done[NODES], msx_ghost_bad[NODES];
uint8_t dep_[NODES][NODES]; // dep_[i][j]: i needs j, transitively
uint8_t outcome[NODES], need[NODES];
#ifdef REVERSED
char name(int i) { return (char)('a' + NODES - 1 - i); }
#else
char name(int i) { return (char)('a' + i); }
#endif
int node(char c) { for(int i = 0; i < NODES; ++i) if(name(i) == c) return i; return -1; }
struct ExecError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Runner {};
Exec::Result execve(Runner&, Exec::Command const& cmd) {
  int const i = node(cmd.executable.native()[0]); msx_assert(i >= 0, "C06: a command that belongs to no source file was run");
  msx_assert(msx_ghost_started[i] == 0, "C06: a command was run twice"); msx_ghost_started[i] = 1;
  for(int j = 0; j < NODES; ++j) if(dep_[i][j]) msx_assert(msx_ghost_done[j] || !need[j], "C06: a command was started before everything it depends on was built successfully");
  msx_yield();
  auto const o = outcome[i];
  if(o == OK) { msx_ghost_done[i] = 1; return Exec::Result{Exec::ExitStatus::success()}; }
  msx_ghost_bad[i] = 1;
  if(o == FAIL) return Exec::Result{Exec::ExitStatus{}.returnCode(1)};
  if(o == KILLED) return Exec::Result{Exec::ExitStatus{}.signo(9).returnCode(0).signo(9)};
  throw ExecError{"could not start"};
}
int fileOf(char const* p, bool& target) { target = p[0] == 't'; return node(target ? p[1] : p[0]); }
}
// an up-to-date node: its target exists and is newer than every source; otherwise its target is missing
extern "C" int msx_fs_type(char const* p, int* e) { *e = 0; bool t; int i = fileOf(p, t); return t && need[i] ? -1 : 1; }
extern "C" long msx_fs_mtime(char const* p, int* e) { bool t; int i = fileOf(p, t); *e = t && need[i] ? 2 : 0; return t ? 100 + i : 1; }
extern "C" int msx_fs_entry(char const*, int, char*, unsigned, int*) { return 0; }
static void go(bool one_target) {
  for(int i = 0; i < NODES; ++i) { msx_ghost_started[i] = msx_ghost_done[i] = msx_ghost_bad[i] = 0; for(int j = 0; j < NODES; ++j) dep_[i][j] = 0; }
  std::vector<std::unique_ptr<Compiler>> comp; DependencyGraph::SourceFileList list;
  for(int i = 0; i < NODES; ++i) {
#ifdef PLAIN
    bool const plain = msx_range(0, 1, "plain") != 0; // a file without targets
#else
    bool const plain = false;
#endif
    need[i] = plain ? 0 : (uint8_t)msx_concretize(msx_range(
#ifdef INCREMENTAL
      0
#else
      1
#endif
      , 1, "need"));
    outcome[i] = (uint8_t)msx_range(0, OUTCOMES, "outcome");
    comp.push_back(std::make_unique<Compiler>(fs::path{std::string(1, name(i)) + "rule"}, false));
    std::vector<TargetInfo> tg; if(!plain) tg.push_back(TargetInfo{fs::path{std::string("t") + name(i)}, std::vector<Dependency>{}});
    SourceFileInfo si{std::move(tg), std::cref(*comp.back()), Compiler{fs::path{""}, false}, SourceFileOrigin::Project, RebuildPolicy::OnlyIfOutOfDate};
    std::vector<Dependency> u, b;
    for(int j = 0; j < i; ++j) { auto k = msx_concretize(msx_range(0,
#ifdef KINDS
      2
#else
      1
#endif
      , "edge")); 
#ifndef KINDS
      if(k == 1 && (i + j) % 2 == 0) k = 2;
#endif
     
#ifdef VIA
      // as in a real source tree: what is depended on is the generated file, which in turn is built from its source
      k = k != 0; fs::path const on{std::string("t") + name(j)};
#else
      fs::path const on{std::string(1, name(j))};
#endif
      if(k) { Dependency d{on, SourceFileOrigin::Project, std::vector<Property>{}}; (k == 1 ? u : b).push_back(d); dep_[i][j] = 1; for(int m = 0; m < j; ++m) dep_[i][m] |= dep_[j][m]; } }
    si.useDeps(std::move(u)).buildDeps(std::move(b)); list.insert(std::make_pair(fs::path{std::string(1, name(i))}, std::move(si)));
#ifdef VIA
    SourceFileInfo gi{SourceFileOrigin::Generated, Compiler{fs::path{""}, false}}; gi.buildDeps(std::vector<Dependency>{Dependency{fs::path{std::string(1, name(i))}, SourceFileOrigin::Project, std::vector<Property>{}}});
    list.insert(std::make_pair(fs::path{std::string("t") + name(i)}, std::move(gi)));
#endif
  }
  DependencyGraph g{std::move(list)};
  Build::Info bi; CompilationLog log{LogFormat::PlainText, CompilationLog::LogLevel::Errors}; Runner r; bool threw = false; size_t n = 0;
  int root = -1;
  {
    Sched::ThreadPool pool{ThreadCount{STR(WORKERS)}};
    try {
      if(one_target) {
        root = (int)msx_concretize(msx_range(0, NODES - 1, "root")); fs::path const rp{std::string(1, name(root))}; auto rec = getNode(g, rp); TargetInfo ti{fs::path{std::string("t") + name(root)}, std::vector<Dependency>{}};
        Target t{rp, std::cref(ti), std::cref(rec.sourceFileInfo())}; TaskList tasks{g, bi, log, t}; n = tasks.process(pool, Invoker{std::ref(r)}, Task::ForceRecompilation{false}); }
      else { TaskList tasks{g, bi, log}; n = tasks.process(pool, Invoker{std::ref(r)}, Task::ForceRecompilation{false}); }
      for(int i = 0; i < NODES; ++i) msx_assert(msx_ghost_started[i] == (msx_ghost_done[i] | msx_ghost_bad[i]), "C07: processing returned while a command was still running");
    } catch(std::exception const&) { threw = true; for(int i = 0; i < NODES; ++i) msx_assert(msx_ghost_started[i] == (msx_ghost_done[i] | msx_ghost_bad[i]), "C07: processing returned while a command was still running"); }
    for(int i = 0; i < NODES; ++i) msx_ghost_started[i] |= 0x80;
  }
  bool bad = false; for(int i = 0; i < NODES; ++i) { msx_ghost_started[i] &= 0x7f; bad |= msx_ghost_bad[i] != 0; }
  msx_observe(threw); msx_observe(n);
  msx_assert(threw == bad, bad ? "C07: a failed command is not reported as a failed build" : "C07: a build without a failed command is reported as failed");
  if(bad) msx_reach("failed"); else msx_reach("built");
  for(int i = 0; i < NODES; ++i) {
    bool const wanted = root < 0 || i == root || dep_[root][i];
    if(!wanted || !need[i]) msx_assert(!msx_ghost_started[i], "C06: a command was run that was not needed");
    else if(!bad) msx_assert(msx_ghost_done[i], "C07: a build reported success although a needed command was not run successfully"); }
}
extern "C" void harness_tasklist() { go(false); }
extern "C" void harness_onetarget() { go(true); }
