// C01/C02: every directed graph within the bounds (ordered edge lists with symbolic targets, including
// duplicate, self and unresolved references).
#include "msx.h"
#include "core/utils/graphutils.hpp"
#include <algorithm>
#include <vector>
#include <stdexcept>
#ifndef NODES
#define NODES 3
#endif
#ifndef DEG
#define DEG 2
#endif
namespace {
struct Edge { int m_id; };
int reference(Edge const& e) { return e.m_id; }
struct Node { int m_id; std::vector<Edge> m_edges; };
template <class F> void visitEdges(F&& f, Node const& n) { for(auto const& e : n.m_edges) f(e); }
int id(Node const& n) { return n.m_id; }
struct Graph { using node_type = Node; using edge_type = Edge; std::vector<Node> m_nodes; };
Node const& getNodeById(Graph const& g, int id) { return g.m_nodes[static_cast<size_t>(id)]; }
size_t size(Graph const& g) { return g.m_nodes.size(); }
template <class F> void visitNodes(F&& f, Graph const& g) { for(auto const& n : g.m_nodes) f(n); }

uint8_t adj[NODES][NODES], reach_[NODES][NODES];

// Targets stay symbolic: reference -1 (unresolved) .. NODES-1.
Graph makeGraph() {
  Graph g;
  for(int i = 0; i < NODES; ++i) for(int j = 0; j < NODES; ++j) adj[i][j] = 0;
  for(int i = 0; i < NODES; ++i) {
    g.m_nodes.push_back(Node{i, {}});
    for(int k = 0; k < DEG; ++k) { int const t = (int)msx_range(0, NODES, "target") - 1; g.m_nodes[(size_t)i].m_edges.push_back(Edge{t}); for(int j = 0; j < NODES; ++j) adj[i][j] |= (uint8_t)(t == j); }
  }
  for(int i = 0; i < NODES; ++i) for(int j = 0; j < NODES; ++j) reach_[i][j] = adj[i][j];
  for(int k = 0; k < NODES; ++k) for(int i = 0; i < NODES; ++i) for(int j = 0; j < NODES; ++j) reach_[i][j] |= (uint8_t)(reach_[i][k] & reach_[k][j]);
  return g;
}
}

extern "C" void harness_topo() {
  auto g = makeGraph();
  uint8_t cyclic = 0; for(int i = 0; i < NODES; ++i) cyclic |= reach_[i][i];
  uint8_t visits[NODES]; for(int i = 0; i < NODES; ++i) visits[i] = 0;
  bool threw = false;
  try { Maike::visitNodesInTopoOrder([&](Node const& n, Edge const*) {
          for(int i = 0; i < NODES; ++i) { uint8_t const me = (uint8_t)(n.m_id == i);
            for(int j = 0; j < NODES; ++j) msx_assert((me & adj[i][j] & (uint8_t)(visits[j] != 1)) == 0, "C01: a node is visited before something it depends on"); }
          for(int i = 0; i < NODES; ++i) visits[i] = (uint8_t)(visits[i] + (n.m_id == i)); }, g); }
  catch(std::runtime_error const&) { threw = true; }
  msx_observe(threw); msx_observe(cyclic);
  if(threw) { msx_reach("rejected"); msx_assert(cyclic, "C02: an acyclic graph is rejected as cyclic"); }
  else {
    msx_reach("accepted"); msx_assert(!cyclic, "C02: a cyclic graph is accepted");
    for(int i = 0; i < NODES; ++i) msx_assert(visits[i] == 1, "C01: a node is not visited exactly once");
  }
}

// C03: the closure of one node.
extern "C" void harness_closure() {
  auto g = makeGraph(); size_t const root = (size_t)msx_range(0, NODES - 1, "root");
  uint8_t visits[NODES]; for(int i = 0; i < NODES; ++i) visits[i] = 0;
  bool threw = false;
  try { Maike::processGraphNodeRecursive([&](Node const& n, Edge const* e) {
          for(int i = 0; i < NODES; ++i) { uint8_t const me = (uint8_t)(n.m_id == i);
            for(int j = 0; j < NODES; ++j) msx_assert((me & adj[i][j] & (uint8_t)(visits[j] != 1)) == 0, "C03: a node is reported before something it depends on"); }
          for(int i = 0; i < NODES; ++i) visits[i] = (uint8_t)(visits[i] + (n.m_id == i));
          if(e == nullptr) msx_assert(n.m_id == (int)root, "C03: a node other than the root is reported without an edge");
          else msx_assert(e->m_id == n.m_id, "C03: node reported with an edge that does not lead to it"); }, g, g.m_nodes[root]); }
  catch(std::runtime_error const&) { threw = true; }
  msx_observe(threw);
  uint8_t cyclic = 0, in[NODES];
  for(int i = 0; i < NODES; ++i) { in[i] = (uint8_t)(root == (size_t)i); for(int r = 0; r < NODES; ++r) in[i] |= (uint8_t)((root == (size_t)r) & reach_[r][i]); }
  for(int i = 0; i < NODES; ++i) cyclic |= (uint8_t)(in[i] & reach_[i][i]);
  if(threw) { msx_reach("rejected"); msx_assert(cyclic, "C02: an acyclic closure is rejected as cyclic"); }
  else { msx_reach("accepted"); msx_assert(!cyclic, "C02: a cycle reachable from the root is not detected");
    for(int i = 0; i < NODES; ++i) msx_assert(visits[i] == in[i], "C03: the set of reported nodes is not the exact closure of the root"); }
}
