// Runs one history of operations on lib/Utils/Graph/Graph.h, read from stdin.
#include "simalloc.h"
#include "lib/Utils/Graph/Graph.h"
#include <iostream>
#include <memory>
#include <sstream>
#include <string>

using namespace mlir::heir::graph;

struct Node {
  int id;
  char pad[24];
};

template <typename V>
struct Space;

template <>
struct Space<int> {
  int make(int i) { return i * 10 - 50; }
  int id(int v) { return (v + 50) / 10; }
};

template <>
struct Space<Node *> {
  std::map<int, Node *> all;
  Node *make(int i) {
    auto &p = all[i];
    if (!p) p = new Node{i, {}};
    return p;
  }
  int id(Node *v) { return v ? v->id : -1; }
};

template <typename V>
struct Run {
  Space<V> sp;
  std::map<int, Graph<V>> gs;
  std::map<int, UndirectedGraph<V>> us;
  GreedyGraphColoring<V> kept;

  std::string list(const std::vector<V> &v) {
    std::string s;
    for (auto &x : v) s += (s.empty() ? "" : ",") + std::to_string(sp.id(x));
    return s;
  }
  std::string ids(const std::set<V> &v) {
    std::set<int> t;
    for (auto &x : v) t.insert(sp.id(x));
    std::string s;
    for (int x : t) s += (s.empty() ? "" : ",") + std::to_string(x);
    return s;
  }
  std::string sorted(const std::vector<V> &v) {
    std::vector<int> t;
    for (auto &x : v) t.push_back(sp.id(x));
    std::sort(t.begin(), t.end());
    std::string s;
    for (int x : t) s += (s.empty() ? "" : ",") + std::to_string(x);
    return s;
  }
  std::string edges(Graph<V> &g) {
    std::set<std::pair<int, int>> t;
    for (auto &[a, b] : g.getEdges()) t.insert({sp.id(a), sp.id(b)});
    std::string s;
    for (auto &[a, b] : t) s += (s.empty() ? "" : ",") + std::to_string(a) + ">" + std::to_string(b);
    return s;
  }
  std::function<void(V &, const V &)> merger(Graph<V> &g, int mode, std::string *out) {
    if (mode == 0) return nullptr;
    return [this, &g, mode, out](V &a, const V &b) {
      *out += std::to_string(sp.id(a)) + "+" + std::to_string(sp.id(b)) + " ";
      if (mode == 2) (void)g.getEdges();
      if (mode == 3) {
        (void)g.edgesOutOf(b);
        (void)g.getEdges();
        (void)g.topologicalSort();
      }
    };
  }

  std::string op(std::istringstream &in) {
    std::string k;
    in >> k;
    int gi = 0, a = 0, b = 0, c = 0;
    in >> gi >> a >> b >> c;
    if (k[0] == 'u' || k == "color") {
      auto &u = us[gi];
      if (k == "uaddv") return u.addVertex(sp.make(a)), "";
      if (k == "uadde") return u.addEdge(sp.make(a), sp.make(b)) ? "1" : "0";
      if (k == "uhas") return u.hasEdge(sp.make(a), sp.make(b)) ? "1" : "0";
      if (k == "uin") return sorted(u.edgesIncidentTo(sp.make(a)));
      if (k == "ucont") return u.contains(sp.make(a)) ? "1" : "0";
      if (k == "uempty") return u.empty() ? "1" : "0";
      if (k == "uverts") return ids(u.getVertices());
      if (k == "color") {
        auto pr = [&](const std::unordered_map<V, int> &m) {
          std::map<int, int> t;
          for (auto &[v, col] : m) t[sp.id(v)] = col;
          std::string s;
          for (auto &[v, col] : t) s += (s.empty() ? "" : ",") + std::to_string(v) + ":" + std::to_string(col);
          return s;
        };
        std::string x = pr(kept.color(u));
        GreedyGraphColoring<V> fresh;
        return x + "|" + pr(fresh.color(u));
      }
    }
    if (k == "copy") return gs[a] = gs[gi], "";
    if (k == "clear") return gs[gi] = Graph<V>(), "";
    auto &g = gs[gi];
    if (k == "addv") return g.addVertex(sp.make(a)), "";
    if (k == "adde") return g.addEdge(sp.make(a), sp.make(b)) ? "1" : "0";
    if (k == "addw") return g.addEdge(sp.make(a), sp.make(b), c) ? "1" : "0";
    if (k == "has") return g.hasEdge(sp.make(a), sp.make(b)) ? "1" : "0";
    if (k == "cont") return g.contains(sp.make(a)) ? "1" : "0";
    if (k == "empty") return g.empty() ? "1" : "0";
    if (k == "verts") return ids(g.getVertices());
    if (k == "edges") return edges(g);
    if (k == "out") return sorted(g.edgesOutOf(sp.make(a)));
    if (k == "in") return sorted(g.edgesInto(sp.make(a)));
    if (k == "deg") return std::to_string(g.getInDegree(sp.make(a))) + "," + std::to_string(g.getOutDegree(sp.make(a)));
    if (k == "contract") {
      std::string s;
      bool ok = g.contractEdge(sp.make(a), sp.make(b), merger(g, c, &s));
      return std::string(ok ? "1 " : "0 ") + s;
    }
    if (k == "condense") {
      std::string s;
      g.condenseGraph(merger(g, a, &s));
      return s + "|" + ids(g.getVertices());
    }
    if (k == "scc") {
      std::set<std::string> t;
      int n = 0;
      for (auto &x : g.getStronglyConnectedComponents()) t.insert(ids(x)), ++n;
      std::string s = std::to_string(n);
      for (auto &x : t) s += "|" + x;
      return s;
    }
    if (k == "topo") {
      auto r = g.topologicalSort();
      return failed(r) ? "fail" : "ok " + list(*r);
    }
    if (k == "levels") {
      auto r = g.sortGraphByLevels();
      if (failed(r)) return "fail";
      std::string s = "ok ";
      for (auto &l : *r) s += sorted(l) + "|";
      return s;
    }
    if (k == "src") return ids(g.getSources());
    if (k == "sink") return ids(g.getSinks());
    if (k == "sp") {
      auto r = g.getShortestPath(sp.make(a), sp.make(b));
      return failed(r) ? "fail" : "ok " + list(*r);
    }
    if (k == "spw") {
      auto r = g.getShortestPath(sp.make(a), sp.make(b), [&](V x, V y) -> uint64_t {
        return 1 + (uint64_t)(sp.id(x) * 7 + sp.id(y) * 13 + c) % 9;
      });
      return failed(r) ? "fail" : "ok " + list(*r);
    }
#ifdef SIM_LONGEST
    if (k == "longest") {
      auto r = g.getLongestSourceToSinkPath();
      return failed(r) ? "fail" : "ok " + list(*r);
    }
#endif
    if (k == "crit") {
      auto r = g.findApproximateCriticalPath();
      return failed(r) ? "fail" : "ok " + list(*r);
    }
    return "?";
  }
};

template <typename V>
int go() {
  Run<V> r;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::cout << r.op(in) << std::endl;
  }
  std::cout << "end " << simalloc::reused << " " << simalloc::fresh << std::endl;
  _Exit(0);
}

int main(int, char **argv) {
  alarm(5);
  simalloc::rng = strtoull(argv[2], nullptr, 10) | 1;
  simalloc::reuse = atoi(argv[3]);
  simalloc::live = true;
  return argv[1][0] == 'i' ? go<int>() : go<Node *>();
}
