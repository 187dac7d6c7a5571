// C01-C04 on the real dependency data base: names are resolved by the real lookup, graphs are visited by
// the real traversal. Dependency names are symbolic.
#include "msx.h"
#include "core/db/dependency_graph.hpp"
#include "core/utils/graphutils.hpp"
#include <stdexcept>
#ifndef NODES
#define NODES 3
#endif
#ifndef USE
#define USE 1
#endif
#ifndef BUILD
#define BUILD 1
#endif
using namespace Maike; using namespace Maike::Db;
namespace {
#ifdef NESTED
// names of which one is the directory of others, in the order of the data base; the last one does not exist
fs::path letter(unsigned k) { static char const* const n[] = {"d", "d/a.h", "e", "d/b"}; static_assert(NODES == 3); return fs::path{n[k]}; }
#else
fs::path letter(unsigned k) { return fs::path{std::string(1, (char)('a' + k))}; }
#endif
Dependency dep(fs::path const& p) { return Dependency{p, SourceFileOrigin::Project, std::vector<Property>{}}; }
SourceFileInfo info() { return SourceFileInfo{SourceFileOrigin::Project, Compiler{fs::path{""}, false}}; }
uint8_t adj[NODES][NODES], reach_[NODES][NODES]; uint8_t unresolved;
void note(unsigned i, uint64_t t) { for(unsigned j = 0; j < NODES; ++j) adj[i][j] |= (uint8_t)(t == j); unresolved |= (uint8_t)(t >= NODES); }
// every node has USE use-dependencies and BUILD build-dependencies, each on any node, or on a file that does not exist
DependencyGraph::SourceFileList makeFiles() {
  DependencyGraph::SourceFileList files; unresolved = 0;
  for(unsigned i = 0; i < NODES; ++i) for(unsigned j = 0; j < NODES; ++j) adj[i][j] = 0;
#ifdef SHAPES // each file has dependencies of one kind only, or none at all
  unsigned shape = (unsigned)msx_concretize(msx_range(0, 26, "shape"));
#endif
  for(unsigned i = 0; i < NODES; ++i) {
    std::vector<Dependency> u, b; auto f = info();
#ifdef SHAPES
    unsigned const USE_ = shape % 3 == 0, BUILD_ = shape % 3 == 1; shape /= 3;
#else
    constexpr unsigned USE_ = USE, BUILD_ = BUILD;
#endif
    for(unsigned k = 0; k < USE_; ++k) { auto t = msx_range(0, NODES, "use"); note(i, t); u.push_back(dep(letter((unsigned)t))); }
    for(unsigned k = 0; k < BUILD_; ++k) { auto t = msx_range(0, NODES, "build"); note(i, t); b.push_back(dep(letter((unsigned)t))); }
    f.useDeps(std::move(u)).buildDeps(std::move(b)); files.insert(std::make_pair(letter(i), std::move(f))); }
  for(int i = 0; i < NODES; ++i) for(int j = 0; j < NODES; ++j) reach_[i][j] = adj[i][j];
  for(int k = 0; k < NODES; ++k) for(int i = 0; i < NODES; ++i) for(int j = 0; j < NODES; ++j) reach_[i][j] |= (uint8_t)(reach_[i][k] & reach_[k][j]);
  return files;
}
}
extern "C" void harness_dbtopo() {
  auto files = makeFiles();
  DependencyGraph g{std::move(files), DependencyGraph::IgnoreResolveErrors{}};
  msx_assert(size(g) == NODES, "C04: the graph does not have one node per source file");
  uint8_t cyclic = 0; for(int i = 0; i < NODES; ++i) cyclic |= reach_[i][i];
  uint8_t visits[NODES]; for(auto& v : visits) v = 0;
  bool threw = false;
  try { visitNodesInTopoOrder([&](SourceFileRecordConst const& n, Dependency const*) {
          auto const me = n.id().value(); msx_assert(me < NODES, "C04: node id out of range");
          for(unsigned j = 0; j < NODES; ++j) msx_assert((adj[me][j] & (uint8_t)(visits[j] != 1)) == 0, "C01: a file is visited before something it depends on");
          ++visits[me]; }, g); }
  catch(std::runtime_error const&) { threw = true; }
  msx_observe(threw);
  if(threw) { msx_reach("rejected"); msx_assert(cyclic, "C02: an acyclic source tree is rejected as cyclic"); }
  else { msx_reach("accepted"); msx_assert(!cyclic, "C02: a cyclic source tree is accepted"); for(unsigned i = 0; i < NODES; ++i) msx_assert(visits[i] == 1, "C01: a file is not visited exactly once"); }
}
extern "C" void harness_dbclosure() {
  auto files = makeFiles();
  DependencyGraph g{std::move(files), DependencyGraph::IgnoreResolveErrors{}};
  auto const root = (size_t)msx_range(0, NODES - 1, "root");
  bool threw = false; std::vector<Dependency> d;
  try { d = getUseDepsRecursive(g, g.nodes()[root]); } catch(std::runtime_error const&) { threw = true; }
  msx_observe(threw); msx_observe(d.size());
  uint8_t in[NODES], cyclic = 0;
  for(unsigned i = 0; i < NODES; ++i) { in[i] = 0; for(unsigned r = 0; r < NODES; ++r) in[i] |= (uint8_t)((root == r) & reach_[r][i]); }
  for(unsigned i = 0; i < NODES; ++i) { cyclic |= (uint8_t)(in[i] & reach_[i][i]); for(unsigned r = 0; r < NODES; ++r) cyclic |= (uint8_t)((root == r) & reach_[r][r]); }
  if(threw) { msx_reach("rejected"); msx_assert(cyclic, "C03: an acyclic closure is rejected"); return; }
  msx_reach("accepted"); msx_assert(!cyclic, "C03: a cyclic closure is accepted");
  uint8_t seen[NODES]; for(auto& v : seen) v = 0;
  for(auto const& x : d) { msx_assert(x.reference().valid(), "C03: an unresolved dependency is reported");
    auto const me = x.reference().value(); msx_assert(x.name() == letter((unsigned)me), "C03: a reported dependency refers to another file than it names");
    for(unsigned j = 0; j < NODES; ++j) msx_assert((adj[me][j] & (uint8_t)(seen[j] != 1)) == 0, "C03: a dependency is reported before something it depends on");
    ++seen[me]; }
  for(unsigned i = 0; i < NODES; ++i) msx_assert(seen[i] == in[i], "C03: the reported dependencies are not the exact closure, each once");
}
// C04: exact resolution; names are arbitrary strings of up to LEN bytes
#ifndef LEN
#define LEN 3
#endif
extern "C" void harness_resolve() {
  char const* names[] = {"b", "b/c", "bc", "d"}; constexpr unsigned N = 4;
  char s[LEN + 1]; auto const n = msx_range(1, LEN, "len"); msx_symbolic(s, LEN, "name"); for(unsigned i = 0; i < LEN; ++i) msx_assume(s[i] != 0); 
  auto const nn = msx_concretize(n); std::string text(s, nn); fs::path const want{text};
  auto const kind = msx_range(0, 1, "kind"); auto const strict = msx_range(0, 1, "strict"); auto const at = msx_concretize(msx_range(0, N - 1, "at"));
  DependencyGraph::SourceFileList files;
  for(unsigned i = 0; i < N; ++i) { auto f = info(); std::vector<Dependency> v; if(i == at) v.push_back(dep(want)); if(kind) f.useDeps(std::move(v)); else f.buildDeps(std::move(v)); files.insert(std::make_pair(fs::path{names[i]}, std::move(f))); }
  int expect = -1; for(unsigned i = 0; i < N; ++i) if(want == fs::path{names[i]}) expect = (int)i;
  bool threw = false;
  try {
    DependencyGraph g{std::move(files), DependencyGraph::IgnoreResolveErrors{strict == 0}};
    auto const me = getNode(g, fs::path{names[at]}); msx_assert(me.valid() && me.path() == fs::path{names[at]}, "C04: an existing file is not found");
    auto const& d = kind ? me.sourceFileInfo().useDeps() : me.sourceFileInfo().buildDeps(); msx_assert(d.size() == 1, "C04: dependencies were lost or added");
    if(expect < 0) { msx_reach("unresolved"); msx_assert(!d[0].reference().valid(), "C04: a dependency on a file that does not exist was resolved"); msx_assert(!getNode(g, want).valid(), "C04: lookup of a file that does not exist succeeds"); }
    else { msx_reach("resolved"); msx_assert(d[0].reference().valid(), "C04: a dependency on an existing file was not resolved"); auto const& r = getNodeById(g, d[0].reference()); msx_assert(r.path() == want, "C04: a dependency was resolved to another file");
      auto const x = getNode(g, want); msx_assert(x.valid() && x.id() == d[0].reference(), "C04: lookup and resolution disagree"); }
    msx_observe((uint64_t)(expect + 1)); }
  catch(std::runtime_error const&) { threw = true; }
  if(threw) { msx_reach("error"); msx_assert(strict == 1 && expect < 0, "C04: a resolvable dependency, or one that may be ignored, was rejected"); }
  else msx_assert(strict == 0 || expect >= 0, "C04: a dependency on a file that does not exist was accepted");
}
