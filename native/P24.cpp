// Native companion of contracts/P24.cpp: graphs, disjoint sets and symmetric matrices
#include "datastructures/DirectedAcyclicGraph.hpp"
#include "datastructures/DirectedGraph.hpp"
#include "datastructures/DisjointSet.hpp"
#include "datastructures/SymmetricMatrix.hpp"
#include "datastructures/UndirectedGraph.hpp"
#include "vpn.hpp"

#include <algorithm>
#include <map>
#include <set>
namespace {
using Pairs = std::set<std::pair<int, int>>;
std::string str(const std::vector<std::pair<int, int>>& e) {
  std::string s;
  for (auto& [a, b] : e) s += "(" + std::to_string(a) + "," + std::to_string(b) + ") ";
  return s;
}
// reflexive transitive closure by search
bool reach(const Pairs& e, int a, int b) {
  std::set<int> seen{a};
  std::vector<int> todo{a};
  while (!todo.empty()) {
    const auto x = todo.back();
    todo.pop_back();
    for (auto& [u, v] : e)
      if (u == x && seen.insert(v).second) todo.push_back(v);
  }
  return seen.count(b) > 0;
}
template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
template <class G> void directed(vpn::Rng& r) {
  constexpr bool DAG = std::is_same_v<G, qc::DirectedAcyclicGraph<int>>;
  G g;
  const int n = 1 + static_cast<int>(r.below(6));
  std::set<int> v;
  Pairs e;
  std::vector<std::pair<int, int>> log;
  for (int k = static_cast<int>(r.below(14)); k > 0; k--) {
    const int a = static_cast<int>(r.below(n)) * 3, b = static_cast<int>(r.below(n)) * 3;
    log.emplace_back(a, b);
    vpn::what = std::string(DAG ? "acyclic " : "directed ") + str(log);
    if (r.coin(0.15)) {
      vpn::require(throws([&] { g.addVertex(a); }) == (v.count(a) > 0), "vertices are added once");
      v.insert(a);
      continue;
    }
    const bool bad = DAG && reach(e, b, a);
    vpn::require(throws([&] { g.addEdge(a, b); }) == bad, "exactly the edges that close a cycle are rejected");
    v.insert(a);
    v.insert(b);
    if (!bad) e.emplace(a, b);
  }
  vpn::require(g.getNVertices() == v.size() && g.getNEdges() == e.size(), "vertices and edges are counted");
  const auto vs = g.getVertices();
  vpn::require(std::set<int>(vs.begin(), vs.end()) == v, "the vertices are known");
  for (int a : v) {
    std::size_t in = 0, out = 0;
    for (auto& [x, y] : e) {
      in += y == a;
      out += x == a;
    }
    vpn::require(g.getInDegree(a) == in && g.getOutDegree(a) == out, "degrees are counted");
    for (int b : v) {
      vpn::require(g.isEdge(a, b) == (e.count({a, b}) > 0), "edges are known");
      if constexpr (DAG) vpn::require(g.isReachable(a, b) == reach(e, a, b), "reachability is the closure of the edges");
    }
  }
  vpn::require(throws([&] { (void)g.isEdge(1, 0); }) && throws([&] { (void)g.getInDegree(1); }), "unknown vertices are rejected");
  if constexpr (DAG) {
    const auto o = g.orderTopologically();
    vpn::require(o.size() == v.size() && std::set<int>(o.begin(), o.end()) == v, "the order lists every vertex once");
    for (auto& [x, y] : e) vpn::require(std::find(o.begin(), o.end(), x) < std::find(o.begin(), o.end(), y), "the order respects the edges");
  }
}
void undirected(vpn::Rng& r) {
  qc::UndirectedGraph<int, int> g;
  const int n = 1 + static_cast<int>(r.below(6));
  std::set<int> v;
  std::map<std::pair<int, int>, int> e;
  std::vector<std::pair<int, int>> log;
  for (int k = static_cast<int>(r.below(12)); k > 0; k--) {
    const int a = static_cast<int>(r.below(n)) * 3, b = static_cast<int>(r.below(n)) * 3, x = static_cast<int>(r.below(100));
    log.emplace_back(a, b);
    vpn::what = "undirected " + str(log);
    const auto key = std::minmax(a, b);
    const bool known = e.count(key) > 0;
    vpn::require(throws([&] { g.addEdge(a, b, x); }) == known, "edges are added once");
    v.insert(a);
    v.insert(b);
    if (!known) e[key] = x;
  }
  vpn::require(g.getNVertices() == v.size() && g.getNEdges() == e.size(), "vertices and edges are counted");
  const auto text = g.toString();
  std::size_t drawn = 0;
  for (auto p = text.find(" -- "); p != std::string::npos; p = text.find(" -- ", p + 1)) drawn++;
  vpn::require(drawn == e.size(), "every edge is drawn once");
  for (int a : v) {
    std::set<int> nb;
    for (int b : v) {
      const auto it = e.find(std::minmax(a, b));
      vpn::require(g.isAdjacent(a, b) == (it != e.end()), "adjacency is symmetric and follows the edges");
      if (it != e.end()) {
        nb.insert(b);
        vpn::require(g.getEdge(a, b) == it->second, "edges keep their labels");
      } else vpn::require(throws([&] { (void)g.getEdge(a, b); }), "missing edges are rejected");
    }
    const auto have = g.getNeighbours(a);
    vpn::require(std::set<int>(have.begin(), have.end()) == nb && g.getDegree(a) == nb.size(), "neighbours and degrees follow the edges");
    const auto adj = g.getAdjacentEdges(a);
    vpn::require(adj.size() == nb.size() && std::all_of(adj.begin(), adj.end(), [&](const auto& p) { return p.first == a && nb.count(p.second) > 0; }), "adjacent edges follow the edges");
  }
}
void sets(vpn::Rng& r) {
  const int n = 1 + static_cast<int>(r.below(8));
  std::vector<int> el;
  for (int i = 0; i < n; i++) el.push_back(5 * i + 1);
  qc::DisjointSet<int> d(el.begin(), el.end());
  std::vector<int> cls(n);
  for (int i = 0; i < n; i++) cls[i] = i;
  std::vector<std::pair<int, int>> log;
  for (int k = static_cast<int>(r.below(12)); k > 0; k--) {
    const auto a = r.below(n), b = r.below(n);
    log.emplace_back(a, b);
    vpn::what = "unions " + str(log);
    d.unionSet(el[a], el[b]);
    const auto from = cls[a], to = cls[b];
    for (auto& c : cls)
      if (c == from) c = to;
    if (r.coin()) (void)d.findSet(el[r.below(n)]);
  }
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++) vpn::require((d.findSet(el[a]) == d.findSet(el[b])) == (cls[a] == cls[b]), "elements are in the same set exactly if they were united");
}
void matrix(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(6);
  qc::SymmetricMatrix<int> m(n, 7);
  std::map<std::pair<std::size_t, std::size_t>, int> want;
  vpn::what = "matrix";
  for (std::size_t k = r.below(12); k > 0; k--) {
    const auto i = r.below(n), j = r.below(n);
    m(i, j) = want[std::minmax(i, j)] = static_cast<int>(r.below(100));
  }
  vpn::require(m.size() == n, "size");
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) {
      const auto it = want.find(std::minmax(i, j));
      vpn::require(std::as_const(m)(i, j) == (it == want.end() ? 7 : it->second), "entries are symmetric and keep their values");
    }
}
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  switch (std::getenv("VPK") ? std::atoi(std::getenv("VPK")) : r.below(5)) {
  case 0: directed<qc::DirectedGraph<int>>(r); break;
  case 1: directed<qc::DirectedAcyclicGraph<int>>(r); break;
  case 2: undirected(r); break;
  case 3: sets(r); break;
  default: matrix(r); break;
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
