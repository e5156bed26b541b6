// @sources /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 60000000}
// Contracts: the graph data structures, disjoint sets and symmetric matrices.
//
// Directed graphs: the representation invariant (degrees and numbers count the adjacency matrix, the closure
// matrix is its reflexive transitive closure) is assumed for an arbitrary matrix on four vertices and
// re-established by every operation, which covers all histories of graphs of that size.
#include "vp.h"
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"

#include <vector>
using namespace qc;
namespace {
using U64 = std::uint64_t;
constexpr std::size_t N = 4;
// ---------------------------------------------------------------- relations on four vertices
struct Rel {
  bool r[N][N];
};
Rel closure(const Rel& a) {
  Rel c = a;
  for (std::size_t i = 0; i < N; i++) c.r[i][i] = true;
  for (std::size_t k = 0; k < N; k++)
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++) c.r[i][j] = c.r[i][j] | (c.r[i][k] & c.r[k][j]);
  return c;
}
U64 bits(const bool* r) {
  U64 w = 0;
  for (std::size_t j = 0; j < N; j++) w |= static_cast<U64>(r[j]) << j;
  return w;
}
U64& word(std::vector<bool>& v) { return *v._M_impl._M_start._M_p; }
bool bit(std::vector<bool>& v, std::size_t j) { return ((word(v) >> j) & 1) != 0; }
int name(std::size_t i) { return static_cast<int>(10 + 3 * i); }
template <class G> void build(G& g, std::size_t n = N) {
  for (std::size_t i = 0; i < n; i++) g.addVertex(name(i));
}
template <class G> Rel arbitrary(G& g, std::size_t n = N) {
  Rel a;
  g.nEdges = 0;
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++) a.r[i][j] = i < n && j < n ? vp_bool("edge") : false;
  for (std::size_t i = 0; i < n; i++) {
    word(g.adjacencyMatrix[i]) = bits(a.r[i]);
    g.outDegrees[i] = g.inDegrees[i] = 0;
    for (std::size_t j = 0; j < n; j++) {
      g.outDegrees[i] += a.r[i][j];
      g.inDegrees[i] += a.r[j][i];
      g.nEdges += a.r[i][j];
    }
  }
  return a;
}
template <class G> void counted(G& g, const Rel& a) {
  std::size_t n = 0;
  for (std::size_t i = 0; i < N; i++) {
    std::size_t in = 0, out = 0;
    for (std::size_t j = 0; j < N; j++) {
      vp_assert(bit(g.adjacencyMatrix[i], j) == a.r[i][j], "exactly the added edges are present");
      out += a.r[i][j];
      in += a.r[j][i];
    }
    n += out;
    vp_assert(g.getOutDegree(name(i)) == out, "the out-degree counts the edges");
    vp_assert(g.getInDegree(name(i)) == in, "the in-degree counts the edges");
  }
  vp_assert(g.getNEdges() == n, "the edges are counted");
  vp_assert(g.getNVertices() == N, "the vertices are counted");
}
template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
} // namespace
VP_HARNESS H_directed() {
  vp_bounded("graphs on four vertices");
  DirectedGraph<int> g;
  build(g);
  Rel a = arbitrary(g);
  const auto i = vp_choose("u", N), j = vp_choose("v", N);
  vp_assert(g.isEdge(name(i), name(j)) == a.r[i][j], "edges are known");
  g.addEdge(name(i), name(j));
  a.r[i][j] = true;
  counted(g, a);
  vp_cover("directed");
}
namespace {
void assumeAcyclic(const Rel& a, const Rel& c) {
  bool cyclic = false;
  for (std::size_t i = 0; i < N; i++) {
    cyclic = cyclic | a.r[i][i];
    for (std::size_t j = 0; j < i; j++) cyclic = cyclic | (c.r[i][j] & c.r[j][i]);
  }
  vp_assume(!cyclic);
}
void acyclic(std::size_t i) {
  vp_bounded("graphs on four vertices");
  DirectedAcyclicGraph<int> g;
  build(g);
  Rel a = arbitrary(g);
  Rel c = closure(a);
  assumeAcyclic(a, c);
  for (std::size_t k = 0; k < N; k++) word(g.closureMatrix[k]) = bits(c.r[k]);
  const auto j = vp_choose("v", N);
  vp_assert(g.isReachable(name(i), name(j)) == c.r[i][j], "reachability follows the edges");
  const bool bad = throws([&] { g.addEdge(name(i), name(j)); });
  vp_assert(bad == c.r[j][i], "exactly the edges that close a cycle are rejected");
  if (!bad) a.r[i][j] = true;
  counted(g, a);
  c = closure(a);
  for (std::size_t k = 0; k < N; k++)
    for (std::size_t l = 0; l < N; l++) vp_assert(bit(g.closureMatrix[k], l) == c.r[k][l], "the closure matrix is the closure of the edges");
  vp_cover("acyclic");
}
} // namespace
VP_HARNESS H_acyclic_0() { acyclic(0); }
VP_HARNESS H_acyclic_1() { acyclic(1); }
VP_HARNESS H_acyclic_2() { acyclic(2); }
VP_HARNESS H_acyclic_3() { acyclic(3); }
VP_HARNESS H_vertices() {
  vp_bounded("graphs on up to four vertices");
  const std::size_t n = vp_choose("n", 4);
  DirectedAcyclicGraph<int> g;
  build(g, n);
  const Rel a = arbitrary(g, n);
  Rel c = closure(a);
  assumeAcyclic(a, c);
  for (std::size_t k = 0; k < n; k++) word(g.closureMatrix[k]) = bits(c.r[k]);
  if (n > 0) vp_assert(throws([&] { g.addVertex(name(vp_choose("known", static_cast<std::uint32_t>(n)))); }), "vertices are added once");
  vp_assert(throws([&] { (void)g.getInDegree(name(n)); }) && throws([&] { (void)g.getOutDegree(name(n)); }) && throws([&] { (void)g.isEdge(name(0), name(n)); }) && throws([&] { (void)g.isReachable(name(n), name(0)); }), "unknown vertices are rejected");
  if (vp_choose("through an edge", 2) == 1 && n > 0) {
    // both ways of adding the edge introduce the vertex
    Rel b = a;
    if (vp_choose("direction", 2) == 0) {
      g.addEdge(name(0), name(n));
      b.r[0][n] = true;
    } else {
      g.addEdge(name(n), name(0));
      b.r[n][0] = true;
    }
    c = closure(b);
    vp_assert(g.isEdge(name(0), name(n)) == b.r[0][n] && g.isEdge(name(n), name(0)) == b.r[n][0], "exactly the added edge is present");
  } else {
    g.addVertex(name(n));
    for (std::size_t k = 0; k <= n; k++) vp_assert(!g.isEdge(name(k), name(n)) && !g.isEdge(name(n), name(k)), "new vertices have no edges");
  }
  vp_assert(g.getNVertices() == n + 1, "the vertices are counted");
  for (std::size_t k = 0; k <= n; k++)
    for (std::size_t l = 0; l <= n; l++) vp_assert(g.isReachable(name(k), name(l)) == c.r[k][l], "the closure matrix is the closure of the edges");
  vp_cover("vertices");
}
namespace {
void order(std::size_t n) {
  vp_bounded("graphs on up to four vertices");
  DirectedAcyclicGraph<int> g;
  build(g, n);
  const Rel a = arbitrary(g, n);
  assumeAcyclic(a, closure(a));
  const auto o = g.orderTopologically();
  vp_assert(o.size() == n, "the order lists every vertex once");
  std::size_t at[N], seen = 0;
  for (std::size_t k = 0; k < o.size(); k++) {
    const auto v = static_cast<std::size_t>((o[k] - 10) / 3);
    vp_assert(v < n && name(v) == o[k], "the order lists vertices of the graph");
    at[v] = k;
    seen |= std::size_t{1} << v;
  }
  vp_assert(seen == (std::size_t{1} << n) - 1, "the order lists every vertex once");
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) vp_assert(!a.r[i][j] | (at[i] < at[j]), "the order respects the edges");
  vp_cover("order");
}
} // namespace
VP_HARNESS H_order_1() { order(1); }
VP_HARNESS H_order_2() { order(2); }
VP_HARNESS H_order_3() { order(3); }
VP_HARNESS H_order_4() { order(4); }
// ---------------------------------------------------------------- undirected graphs
VP_HARNESS H_undirected() {
  vp_bounded("graphs on three vertices");
  constexpr std::size_t K = 3;
  UndirectedGraph<int, int> g;
  for (std::size_t i = 0; i < K; i++) g.addVertex(name(i));
  bool e[K][K];
  int label[K][K];
  for (std::size_t i = 0; i < K; i++)
    for (std::size_t j = i; j < K; j++) {
      e[i][j] = e[j][i] = vp_choose("edge", 2) == 1;
      label[i][j] = label[j][i] = vp_i32("label");
      if (!e[i][j]) continue;
      const bool turn = vp_choose("direction", i == j ? 1 : 2) == 1;
      g.addEdge(name(turn ? j : i), name(turn ? i : j), label[i][j]);
    }
  const auto u = vp_choose("u", K), v = vp_choose("v", K);
  vp_assert(g.isAdjacent(name(u), name(v)) == e[u][v], "adjacency is symmetric and follows the edges");
  if (e[u][v]) {
    vp_assert(g.getEdge(name(u), name(v)) == label[u][v], "edges keep their labels");
    vp_assert(throws([&] { g.addEdge(name(u), name(v), 1); }), "edges are added once");
  } else vp_assert(throws([&] { (void)g.getEdge(name(u), name(v)); }), "missing edges are rejected");
  std::size_t n = 0, d = 0;
  for (std::size_t i = 0; i < K; i++) {
    d += e[u][i];
    for (std::size_t j = i; j < K; j++) n += e[i][j];
  }
  vp_assert(g.getDegree(name(u)) == d, "the degree counts the edges");
  vp_assert(g.getNEdges() == n && g.getNVertices() == K, "vertices and edges are counted");
  const auto nb = g.getNeighbours(name(u));
  vp_assert(nb.size() == d, "the neighbours are the adjacent vertices");
  for (std::size_t i = 0; i < K; i++) vp_assert((nb.find(name(i)) != nb.end()) == e[u][i], "the neighbours are the adjacent vertices");
  const auto adj = g.getAdjacentEdges(name(u));
  vp_assert(adj.size() == d, "the adjacent edges lead to the neighbours");
  for (const auto& [x, y] : adj) vp_assert(x == name(u) && nb.find(y) != nb.end(), "the adjacent edges lead to the neighbours");
  vp_cover("undirected");
}
// ---------------------------------------------------------------- disjoint sets
namespace {
void sets(std::size_t first) {
  vp_bounded("three unions of four elements");
  std::vector<int> el;
  for (std::size_t i = 0; i < N; i++) el.push_back(name(i));
  DisjointSet<int> d(el.begin(), el.end());
  std::size_t cls[N];
  for (std::size_t i = 0; i < N; i++) cls[i] = i;
  for (int k = 0; k < 3; k++) {
    const std::size_t x = k == 0 ? first : vp_choose("x", N), y = vp_choose("y", N);
    d.unionSet(el[x], el[y]);
    const auto from = cls[x], to = cls[y];
    for (auto& c : cls)
      if (c == from) c = to;
  }
  int root[N];
  for (std::size_t i = 0; i < N; i++) {
    root[i] = d.findSet(el[i]);
    vp_assert((root[i] - 10) % 3 == 0 && cls[(root[i] - 10) / 3] == cls[i], "the representative is an element of the set");
  }
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++) vp_assert((root[i] == root[j]) == (cls[i] == cls[j]), "elements are in the same set exactly if they were united");
  vp_cover("sets");
}
} // namespace
VP_HARNESS H_sets_0() { sets(0); }
VP_HARNESS H_sets_2() { sets(2); }
// ---------------------------------------------------------------- symmetric matrices
VP_HARNESS H_matrix() {
  vp_bounded("matrices of up to four rows");
  const std::size_t n = 1 + vp_choose("n", N);
  const auto init = vp_u64("initial");
  SymmetricMatrix<U64> m(n, init);
  vp_assert(m.size() == n, "the size is kept");
  const auto i = vp_choose("i", static_cast<std::uint32_t>(n)), j = vp_choose("j", static_cast<std::uint32_t>(n));
  const auto x = vp_u64("value");
  m(i, j) = x;
  const auto& c = m;
  for (std::size_t a = 0; a < n; a++)
    for (std::size_t b = 0; b < n; b++) {
      const bool same = (a == i && b == j) || (a == j && b == i);
      vp_assert(c(a, b) == (same ? x : init), "entries are symmetric and independent");
      vp_assert(&m(a, b) == &c(a, b), "reading and writing agree");
    }
  vp_cover("matrix");
}
