// Explicit description of a model, its brute-force semantics, and a probe that
// exposes the protected state of the real one.
#pragma once
#include "common.h"
#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>
#include <algorithm>
namespace vh {
using EFG::model::ConditionalRandomField;
using EFG::model::RandomField;
using FExpPtr = std::shared_ptr<FactorExponential>;

struct FSpec {
  std::vector<int> vars;
  Table raw;
  bool expo = false, tunable = false;
  float w = 1.f;
  int share = -1;  // index of the spec owning the weight
  std::shared_ptr<Immutable> live;
  float image(const Comb &full) const {
    Comb c;
    for (int v : vars) c.push_back(full[v]);
    return expo ? expf(w * at(raw, c)) : at(raw, c);
  }
  float feature(const Comb &full) const {
    Comb c;
    for (int v : vars) c.push_back(full[v]);
    return at(raw, c);
  }
};
struct MSpec {
  VariablesSoup vars;
  std::vector<FSpec> f;
  std::map<int, std::size_t> ev;
  Comb sizes() const { return sizes_of(vars); }
  int index(const VariablePtr &v) const {
    for (std::size_t k = 0; k < vars.size(); ++k) if (vars[k] == v) return (int)k;
    return -1;
  }
  bool in_model(int v) const {
    for (auto &x : f) for (int y : x.vars) if (y == v) return true;
    return false;
  }
  bool linked(int a, int b) const {
    for (auto &x : f) if (x.vars.size() == 2 && ((x.vars[0] == a && x.vars[1] == b) || (x.vars[0] == b && x.vars[1] == a))) return true;
    return false;
  }
  // components of the hidden variables
  std::vector<int> comp() const {
    std::vector<int> c(vars.size());
    for (std::size_t k = 0; k < c.size(); ++k) c[k] = (int)k;
    std::function<int(int)> root = [&](int x) { return c[x] == x ? x : c[x] = root(c[x]); };
    for (auto &x : f)
      if (x.vars.size() == 2 && !ev.count(x.vars[0]) && !ev.count(x.vars[1])) c[root(x.vars[0])] = root(x.vars[1]);
    for (std::size_t k = 0; k < c.size(); ++k) c[k] = root((int)k);
    return c;
  }
  bool forest() const {
    std::vector<int> c(vars.size());
    for (std::size_t k = 0; k < c.size(); ++k) c[k] = (int)k;
    std::function<int(int)> root = [&](int x) { return c[x] == x ? x : c[x] = root(c[x]); };
    for (auto &x : f)
      if (x.vars.size() == 2 && !ev.count(x.vars[0]) && !ev.count(x.vars[1])) {
        int a = root(x.vars[0]), b = root(x.vars[1]);
        if (a == b) return false;
        c[a] = b;
      }
    return true;
  }
  // all (combination, unnormalised probability) compatible with the evidence
  void each(const std::function<void(const Comb &, double)> &cb) const {
    Comb sz = sizes();
    for (std::size_t q = 0; q < prod(sz); ++q) {
      Comb c = unrank(sz, q);
      bool ok = true;
      for (auto &[v, x] : ev) ok = ok && c[v] == x;
      if (!ok) continue;
      double p = 1;
      for (auto &x : f) p *= x.image(c);
      cb(c, p);
    }
  }
  std::vector<double> marginal(int v) const {
    std::vector<double> m(vars[v]->size(), 0.0);
    if (large()) { for (auto &[c, p] : joint_tree({v})) m[c[0]] = p; return m; }
    double z = 0;
    each([&](const Comb &c, double p) { m[c[v]] += p; z += p; });
    for (auto &x : m) x = z > 0 ? x / z : std::nan("");
    return m;
  }
  std::map<Comb, double> joint(const std::vector<int> &vs) const {
    if (large()) return joint_tree(vs);
    std::map<Comb, double> m;
    double z = 0;
    each([&](const Comb &c, double p) { Comb s; for (int v : vs) s.push_back(c[v]); m[s] += p; z += p; });
    for (auto &x : m) x.second /= z;
    return m;
  }
  double mass() const { double z = 0; each([&](const Comb &, double p) { z += p; }); return z; }
  // The same quantities by variable elimination on the forest of the hidden
  // variables, for models too large to be enumerated: log of the sum (or of the
  // maximum) over the combinations compatible with the evidence e.
  bool large() const { double n = 1; for (auto &v : vars) n *= v->size(); return n > 3000; }
  double log_mass(const std::map<int, std::size_t> &e, bool mx) const {
    double total = 0;
    std::vector<std::vector<double>> un(vars.size());
    std::vector<std::vector<std::pair<int, int>>> nb(vars.size());  // (neighbour, factor)
    for (std::size_t v = 0; v < vars.size(); ++v) un[v].assign(vars[v]->size(), 1.0);
    Comb full(vars.size(), 0);
    for (auto &[v, x] : e) full[v] = x;
    for (std::size_t q = 0; q < f.size(); ++q) {
      std::vector<int> free;
      for (int v : f[q].vars) if (!e.count(v)) free.push_back(v);
      if (free.empty()) total += std::log((double)f[q].image(full));
      else if (free.size() == 1)
        for (std::size_t x = 0; x < un[free[0]].size(); ++x) { full[free[0]] = x; un[free[0]][x] *= f[q].image(full); }
      else { nb[free[0]].push_back({free[1], (int)q}); nb[free[1]].push_back({free[0], (int)q}); }
      for (int v : free) full[v] = 0;
    }
    std::vector<char> seen(vars.size(), 0);
    std::function<std::vector<double>(int, int)> up = [&](int v, int from) {
      seen[v] = 1;
      auto b = un[v];
      for (auto &[o, q] : nb[v]) {
        if (o == from) continue;
        auto m = up(o, v);
        for (std::size_t x = 0; x < b.size(); ++x) {
          double a = 0;
          for (std::size_t y = 0; y < m.size(); ++y) {
            full[v] = x; full[o] = y;
            double w = m[y] * f[q].image(full);
            a = mx ? std::max(a, w) : a + w;
          }
          b[x] *= a;
        }
        full[v] = full[o] = 0;
      }
      double s = 0;
      for (double x : b) s = std::max(s, x);
      if (s > 0) { for (double &x : b) x /= s; total += std::log(s); } else total = -INFINITY;
      return b;
    };
    for (std::size_t v = 0; v < vars.size(); ++v)
      if (!seen[v] && !e.count((int)v)) {
        auto b = up((int)v, -1);
        double a = 0;
        for (double x : b) a = mx ? std::max(a, x) : a + x;
        total += std::log(a);
      }
    return total;
  }
  std::map<Comb, double> joint_tree(const std::vector<int> &vs, bool mx = false) const {
    std::map<Comb, double> m;
    Comb sz; for (int v : vs) sz.push_back(vars[v]->size());
    double z = log_mass(ev, mx);
    for (std::size_t q = 0; q < prod(sz); ++q) {
      Comb c = unrank(sz, q);
      auto e = ev;
      bool ok = true;
      for (std::size_t k = 0; k < vs.size(); ++k) { auto it = e.emplace(vs[k], c[k]).first; ok = ok && it->second == c[k]; }
      m[c] = ok ? std::exp(log_mass(e, mx) - z) : 0.0;
    }
    return m;
  }
  std::string show() const {
    std::ostringstream s;
    for (auto &v : vars) s << v->name() << ":" << v->size() << " ";
    for (auto &x : f) {
      s << "| f(";
      for (int v : x.vars) s << vars[v]->name() << " ";
      s << ")" << (x.tunable ? "tunable" : x.expo ? "exp" : "");
      if (x.expo) s << " w=" << x.w;
      if (x.share >= 0) s << " share=" << x.share;
      for (auto &[c, v] : x.raw) s << " " << str(c) << "=" << v;
    }
    s << "| evidence";
    for (auto &[v, x] : ev) s << " " << vars[v]->name() << "=" << x;
    return s.str();
  }
};

inline FSpec rnd_factor(Rng &r, const MSpec &m, std::vector<int> vs, bool zeros = false) {
  FSpec s;
  s.vars = vs;
  Comb sz;
  for (int v : vs) sz.push_back(m.vars[v]->size());
  for (std::size_t q = 0; q < prod(sz); ++q) {
    float v = zeros && r.chance(25) ? 0.f : r.img();
    s.raw[unrank(sz, q)] = v;
  }
  if (r.chance(40)) {
    s.expo = true;
    s.w = r.weight();
    for (auto &[c, v] : s.raw) v = std::min(v, 2.5f);
  }
  return s;
}
inline std::shared_ptr<Immutable> make_live(const MSpec &m, const FSpec &s, bool permuted = false) {
  VariablesSoup vs;
  for (int v : s.vars) vs.push_back(m.vars[v]);
  auto f = std::make_shared<Factor>(Group{vs});
  for (auto &[c, v] : s.raw) f->set(c, v);
  if (s.expo) return std::make_shared<FactorExponential>(*f, s.w);
  return f;
}
template <typename M> void insert(M &model, MSpec &m, FSpec s) {
  s.live = make_live(m, s);
  if (s.tunable) {
    auto e = std::dynamic_pointer_cast<FactorExponential>(s.live);
    if (s.share >= 0) {
      VariablesSet g;
      for (int v : m.f[s.share].vars) g.emplace(m.vars[v]);
      model.addTunableFactor(e, g);
      s.w = m.f[s.share].w;
    } else model.addTunableFactor(e);
  } else model.addConstFactor(s.live);
  m.f.push_back(s);
}

struct Probe : RandomField {
  using EFG::strct::StateAware::state;
  using EFG::strct::BeliefAware::wouldNeedPropagation;
};

// every query of the model against brute force; requires a forest
template <typename M> void exact(M &model, const MSpec &m, Rng &r, std::size_t threads = 1, double tol = 1e-3) {
  std::vector<int> in;
  for (std::size_t k = 0; k < m.vars.size(); ++k) if (m.in_model((int)k)) in.push_back((int)k);
  if (in.empty() || !(m.large() ? std::isfinite(m.log_mass(m.ev, false)) : m.mass() > 0)) return;
  std::vector<int> order = in;
  for (std::size_t z = order.size(); z > 1; --z) std::swap(order[z - 1], order[r.below(z)]);
  bool mapfirst = r.chance(50);
  auto do_map = [&] {
    auto hid = model.getHiddenVariables();
    auto got = model.getHiddenSetMAP(threads);
    REQ(got.size() == hid.size(), "MAP length");
    double best = -1, second = -1;
    Comb bc(m.vars.size(), 0);
    if (m.large()) { // max-marginals: a unique maximiser when each has one winner
      best = 1; second = 0;
      for (std::size_t v = 0; v < m.vars.size(); ++v) {
        if (!m.in_model((int)v)) continue;
        double b1 = -1, b2 = -1;
        for (auto &[c, p] : m.joint_tree({(int)v}, true)) if (p > b1) { b2 = b1; b1 = p; bc[v] = c[0]; } else b2 = std::max(b2, p);
        second = std::max(second, b2);
      }
    } else
    m.each([&](const Comb &c, double p) {
      bool irrelevant = false;
      for (std::size_t v = 0; v < c.size(); ++v) if (!m.in_model((int)v) && c[v] != 0) irrelevant = true;
      if (irrelevant) return;
      if (p > best) { second = best; best = p; bc = c; } else if (p > second) second = p;
    });
    if (second < best * 0.99) {  // unique maximiser, with a margin
      std::size_t k = 0;
      for (auto &v : hid) {
        int i = m.index(v);
        REQ(got[k] == bc[i], "most probable value of ", v->name(), " is ", bc[i], " reported ", got[k]);
        REQ(model.getMAP(v, threads) == bc[i], "getMAP of ", v->name());
        ++k;
      }
      for (auto &[v, x] : m.ev) REQ(model.getMAP(m.vars[v], threads) == x, "getMAP of an observed variable");
    }
  };
  if (mapfirst) do_map();
  for (int v : order) {
    auto e = m.marginal(v);
    auto g = r.chance(50) ? model.getMarginalDistribution(m.vars[v], threads)
                          : model.getMarginalDistribution(m.vars[v]->name(), threads);
    REQ(g.size() == e.size(), "marginal length of ", m.vars[v]->name());
    for (std::size_t q = 0; q < e.size(); ++q)
      REQ(close(g[q], e[q], tol), "marginal of ", m.vars[v]->name(), " is ", str(g), " expected ", str(e));
    if (m.ev.count(v)) for (std::size_t q = 0; q < e.size(); ++q) REQ(g[q] == (q == m.ev.at(v) ? 1.f : 0.f), "observed mass");
  }
  if (!mapfirst) do_map();
  // joint of a connected subgroup (with observed ones thrown in)
  {
    int s = order[0];
    std::vector<int> sub{s};
    for (auto &x : m.f)
      if (x.vars.size() == 2 && sub.size() < 3)
        for (int side = 0; side < 2; ++side)
          if (std::find(sub.begin(), sub.end(), x.vars[side]) != sub.end() &&
              std::find(sub.begin(), sub.end(), x.vars[1 - side]) == sub.end() && !m.ev.count(x.vars[0]) &&
              !m.ev.count(x.vars[1]) && r.chance(70)) {
            sub.push_back(x.vars[1 - side]);
            break;
          }
    for (auto &[v, x] : m.ev)
      if (std::find(sub.begin(), sub.end(), v) == sub.end() && sub.size() < 4 && r.chance(60)) sub.push_back(v);
    for (std::size_t z = sub.size(); z > 1; --z) std::swap(sub[z - 1], sub[r.below(z)]);
    VariablesSoup vs;
    std::vector<std::string> names;
    for (int v : sub) { vs.push_back(m.vars[v]); names.push_back(m.vars[v]->name()); }
    auto e = m.joint(sub);
    Factor g = r.chance(50) ? model.getJointMarginalDistribution(Group{vs}, threads)
                            : model.getJointMarginalDistribution(names, threads);
    REQ(g.function().vars().getVariables() == vs, "order of the joint");
    auto p = g.getProbabilities();
    Comb sz = sizes_of(vs);
    for (std::size_t q = 0; q < prod(sz); ++q)
      REQ(close(p[q], e[unrank(sz, q)], tol), "joint of ", str(names), " at ", str(unrank(sz, q)), " is ", p[q],
          " expected ", e[unrank(sz, q)]);
  }
}
} // namespace vh
