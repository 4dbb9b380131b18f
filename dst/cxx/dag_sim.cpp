// Runs one history of building, evaluating and dropping arithmetic kernels.
#include "simalloc.h"
#include "lib/Analysis/RotationAnalysis/RotationEvalVisitor.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "lib/Kernel/EvalVisitor.h"
#include "lib/Kernel/RotationCountVisitor.h"
#include "lib/Kernel/TestingUtils.h"
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>
#include <string>

using namespace mlir::heir;
using namespace mlir::heir::kernel;

template <typename T>
using P = std::shared_ptr<ArithmeticDagNode<T>>;

struct DoubleEval : CachingVisitor<double, std::vector<double>> {
  using R = std::vector<double>;
  using CachingVisitor<double, R>::operator();
  double one(const P<double> &n) { return this->process(n)[0]; }
  R operator()(const ConstantScalarNode &n) override { return {n.value}; }
  R operator()(const LeafNode<double> &n) override { return {n.value}; }
  R operator()(const AddNode<double> &n) override { return {one(n.left) + one(n.right)}; }
  R operator()(const SubtractNode<double> &n) override { return {one(n.left) - one(n.right)}; }
  R operator()(const MultiplyNode<double> &n) override { return {one(n.left) * one(n.right)}; }
  R operator()(const PowerNode<double> &n) override { return {std::pow(one(n.base), (double)n.exponent)}; }
  R operator()(const SplatNode &n) override { return {n.value}; }
  R operator()(const ComparisonNode<double> &n) override {
    double l = one(n.left), r = one(n.right);
    bool b = false;
    switch (n.predicate) {
      case ComparisonPredicate::LT: b = l < r; break;
      case ComparisonPredicate::LE: b = l <= r; break;
      case ComparisonPredicate::GT: b = l > r; break;
      case ComparisonPredicate::GE: b = l >= r; break;
      case ComparisonPredicate::EQ: b = l == r; break;
      case ComparisonPredicate::NE: b = l != r; break;
    }
    return {b ? 1.0 : 0.0};
  }
  R operator()(const IfElseNode<double> &n) override { return one(n.condition) != 0 ? process(n.thenBody) : process(n.elseBody); }
  R operator()(const VariableNode<double> &n) override { return {n.value.value()}; }
  R operator()(const YieldNode<double> &n) override {
    R r;
    for (auto &e : n.elements) r.push_back(one(e));
    return r;
  }
  R operator()(const ResultAtNode<double> &n) override { return {process(n.operand)[n.index]}; }
  R operator()(const ForLoopNode<double> &n) override {
    R v;
    for (auto &i : n.inits) v.push_back(one(i));
    for (int i = n.lower; i < n.upper; i += n.step) {
      std::get<VariableNode<double>>(n.inductionVar->node_variant).value = i;
      for (size_t j = 0; j < v.size(); ++j) std::get<VariableNode<double>>(n.iterArgs[j]->node_variant).value = v[j];
      clearSubtreeCache(n.body);
      v = process(n.body);
    }
    return v;
  }
};

std::string str(const std::vector<double> &v) {
  std::string s;
  char b[40];
  for (double x : v) snprintf(b, sizeof b, "%.17g ", x), s += b;
  return s;
}
std::string str(const EvalResults &r) {
  std::string s;
  for (auto &l : r) {
    auto &v = l.get();
    if (auto *i = std::get_if<int>(&v)) s += std::to_string(*i);
    else if (auto *w = std::get_if<std::vector<int>>(&v)) {
      s += "[";
      for (int x : *w) s += std::to_string(x) + ",";
      s += "]";
    } else {
      s += "{";
      for (auto &row : std::get<std::vector<std::vector<int>>>(v)) {
        for (int x : row) s += std::to_string(x) + ",";
        s += ";";
      }
      s += "}";
    }
    s += " ";
  }
  return s;
}
std::string str(const std::string &s) { return s; }
std::string str(double d) { return std::to_string(d); }
std::string str(int64_t d) { return std::to_string(d); }

template <typename T>
struct Builder {
  using N = ArithmeticDagNode<T>;
  std::map<int, P<T>> slot;

  static P<T> leaf(std::istringstream &in) {
    if constexpr (std::is_same_v<T, double>) {
      double d;
      in >> d;
      return N::leaf(d);
    } else if constexpr (std::is_same_v<T, LiteralValue>) {
      int kind, n, m;
      in >> kind;
      if (kind == 0) {
        in >> n;
        return N::leaf(LiteralValue(n));
      }
      in >> n;
      if (kind == 1) {
        std::vector<int> v(n);
        for (int &x : v) in >> x;
        return N::leaf(LiteralValue(v));
      }
      in >> m;
      std::vector<std::vector<int>> v(n, std::vector<int>(m));
      for (auto &r : v)
        for (int &x : r) in >> x;
      return N::leaf(LiteralValue(v));
    } else {
      int secret;
      in >> secret;
      return N::leaf(SymbolicValue({4}, secret));
    }
  }

  static DagType type(int k) { return k ? DagType::intTensor(32, {4}) : DagType::integer(32); }

  // one node definition; nested loops read their own body lines
  void def(std::istringstream &in, std::istream &more) {
    std::string k;
    int d, a = 0, b = 0, c = 0;
    in >> d >> k;
    auto s = [&](int i) { return slot.at(i); };
    P<T> n;
    if (k == "leaf") n = leaf(in);
    else if (k == "const") { double x; in >> x; n = N::constantScalar(x, DagType::index()); }
    else if (k == "cvec") { std::vector<double> v(4); for (auto &x : v) in >> x; n = N::constantTensor(v, DagType::intTensor(32, {4})); }
    else if (k == "splat") { double x; in >> x >> a; n = N::splat(x, type(a)); }
    else if (k == "add") { in >> a >> b; n = N::add(s(a), s(b)); }
    else if (k == "sub") { in >> a >> b; n = N::sub(s(a), s(b)); }
    else if (k == "mul") { in >> a >> b; n = N::mul(s(a), s(b)); }
    else if (k == "fdiv") { in >> a >> b; n = N::floorDiv(s(a), b); }
    else if (k == "pow") { in >> a >> b; n = N::power(s(a), b); }
    else if (k == "rot") { in >> a >> b; n = N::leftRotate(s(a), (int64_t)b); }
    else if (k == "rotn") { in >> a >> b; n = N::leftRotate(s(a), s(b)); }
    else if (k == "bulk") { in >> a >> b >> c; n = N::leftRotateBulk(s(a), {s(b), s(c)}); }
    else if (k == "ext") { in >> a >> b; n = N::extract(s(a), s(b)); }
    else if (k == "ins") { in >> a >> b >> c; n = N::insert(s(a), s(b), s(c)); }
    else if (k == "cmp") { in >> a >> b >> c; n = N::comparison(s(a), s(b), (ComparisonPredicate)c); }
    else if (k == "if") { in >> a >> b >> c; n = N::ifElse(s(a), s(b), s(c)); }
    else if (k == "at") { in >> a >> b; n = N::resultAt(s(a), b); }
    else if (k == "loop") {
      // loop INITS... ; body: lines until "yield"
      int cnt, lo, hi, st, vec, ivslot;
      in >> lo >> hi >> st >> vec >> ivslot >> cnt;
      std::vector<P<T>> inits;
      std::vector<DagType> tys;
      std::vector<int> args;
      for (int i = 0; i < cnt; ++i) {
        in >> a >> b;
        inits.push_back(s(a));
        args.push_back(b);
        tys.push_back(type(vec));
      }
      n = N::loop(llvm::ArrayRef<P<T>>(inits), llvm::ArrayRef<DagType>(tys), lo, hi, st,
                  [&](P<T> iv, const std::vector<P<T>> &its) -> P<T> {
                    slot[ivslot] = iv;
                    for (int i = 0; i < cnt; ++i) slot[args[i]] = its[i];
                    std::string line;
                    while (std::getline(more, line)) {
                      std::istringstream l(line);
                      std::string w;
                      l >> w;
                      if (w == "yield") {
                        std::vector<P<T>> v;
                        int x;
                        for (int i = 0; i < cnt; ++i) l >> x, v.push_back(slot.at(x));
                        slot.erase(ivslot);
                        for (int y : args) slot.erase(y);
                        while (l >> x) slot.erase(x);
                        return N::yield(v);
                      }
                      def(l, more);
                    }
                    abort();
                  });
    } else abort();
    slot[d] = n;
  }
};

template <typename V, typename T>
std::string both(std::map<int, std::unique_ptr<V>> &kept, int k, const P<T> &n) {
  auto &v = kept[k];
  if (!v) v = std::make_unique<V>();
  V fresh;
  auto f = [&] { return str(fresh.process(n)); };
  std::string x, y;
  if (k % 2) {  // which of the two goes first differs
    x = str(v->process(n));
    y = f();
  } else {
    y = f();
    x = str(v->process(n));
  }
  return x + "|" + y;
}

template <typename T>
int go() {
  Builder<T> b;
  std::map<int, std::unique_ptr<EvalVisitor>> ev;
  std::map<int, std::unique_ptr<PrintVisitor>> pr;
  std::map<int, std::unique_ptr<MultiplicativeDepthVisitorImpl>> dp;
  std::map<int, std::unique_ptr<RotationEvalVisitor>> re;
  std::map<int, std::unique_ptr<RotationCountVisitor>> rc;
  std::map<int, std::unique_ptr<DoubleEval>> de;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string k;
    int a = 0, c = 0;
    in >> k;
    std::string out;
    if (k == "def") b.def(in, std::cin);
    else {
      in >> a >> c;
      if (k == "drop") b.slot.erase(a);
      else if (k == "reset") ev.erase(a), pr.erase(a), dp.erase(a), re.erase(a), rc.erase(a), de.erase(a);
      else {
        auto n = b.slot.at(c);
        if constexpr (std::is_same_v<T, double>) {
          if (k == "eval") out = both<DoubleEval>(de, a, n);
        } else if constexpr (std::is_same_v<T, SymbolicValue>) {
          if (k == "count") out = both<RotationCountVisitor>(rc, a, n);
        } else {
          if (k == "eval") out = both<EvalVisitor>(ev, a, n);
          if (k == "print") out = both<PrintVisitor>(pr, a, n);
          if (k == "depth") out = both<MultiplicativeDepthVisitorImpl>(dp, a, n);
          if (k == "reval") out = both<RotationEvalVisitor>(re, a, n);
          if (k == "rots") {
            for (int x : evalRotations(n)) out += std::to_string(x) + ",";
          }
          if (k == "many") {
            int d;
            in >> d;
            auto r = multiEvalKernel({n, b.slot.at(d)});
            out = str(r[0]) + "|" + str(r[1]);
          }
        }
      }
    }
    std::cout << out << std::endl;
  }
  std::cout << "end " << simalloc::reused << " " << simalloc::fresh << std::endl;
  _Exit(0);
}

int main(int, char **argv) {
  alarm(5);
  simalloc::rng = strtoull(argv[2], nullptr, 10) | 1;
  simalloc::reuse = atoi(argv[3]);
  simalloc::live = true;
  switch (argv[1][0]) {
    case 'd': return go<double>();
    case 's': return go<SymbolicValue>();
    default: return go<LiteralValue>();
  }
}
