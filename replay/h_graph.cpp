// C09, C10, C11: structure, staleness and exactness under random histories
#include "graph.h"
using namespace vh;
namespace {
MSpec new_spec(Rng &r, std::size_t n, std::size_t maxsz = 3) {
  MSpec m;
  for (std::size_t k = 0; k < n; ++k)
    m.vars.push_back(make_variable(1 + r.below(maxsz) + (r.chance(80) ? (maxsz > 2 ? 0 : 1) : 0), "x" + std::to_string(k)));
  return m;
}
bool keeps_forest(const MSpec &m, int a, int b) {
  MSpec t; t.vars = m.vars; t.f = m.f; // without evidence
  FSpec s; s.vars = {a, b}; t.f.push_back(s);
  return t.forest();
}
// --------------------------------------------------------------- structure
void structure(const Probe &p, const MSpec &m) {
  const auto &st = p.state();
  std::set<std::string> in, hid, obs;
  for (std::size_t k = 0; k < m.vars.size(); ++k)
    if (m.in_model((int)k)) {
      in.insert(m.vars[k]->name());
      (m.ev.count((int)k) ? obs : hid).insert(m.vars[k]->name());
    }
  auto names = [](const auto &c) { std::multiset<std::string> s; for (auto &v : c) s.insert(v->name()); return s; };
  auto ms = [](const std::set<std::string> &s) { return std::multiset<std::string>(s.begin(), s.end()); };
  REQ(names(p.getAllVariables()) == ms(in), "all variables ", str(names(p.getAllVariables())));
  REQ(names(p.getHiddenVariables()) == ms(hid), "hidden ", str(names(p.getHiddenVariables())), " expected ", str(hid));
  REQ(names(p.getObservedVariables()) == ms(obs), "observed ", str(names(p.getObservedVariables())), " expected ", str(obs));
  REQ(p.getEvidences().size() == m.ev.size(), "evidences");
  for (auto &[v, x] : m.ev) {
    auto it = p.getEvidences().find(m.vars[v]);
    REQ(it != p.getEvidences().end() && it->second == x, "evidence of ", m.vars[v]->name());
  }
  REQ(p.getAllFactors().size() == m.f.size(), "factors");
  // clusters
  auto comp = m.comp();
  std::map<int, std::set<std::string>> exp;
  for (std::size_t k = 0; k < m.vars.size(); ++k)
    if (m.in_model((int)k) && !m.ev.count((int)k)) exp[comp[k]].insert(m.vars[k]->name());
  std::set<std::set<std::string>> e, g;
  for (auto &[_, s] : exp) e.insert(s);
  std::size_t ncl = 0;
  for (auto &cl : st.clusters) {
    std::set<std::string> s;
    for (auto *n : cl.nodes) s.insert(n->variable->name());
    g.insert(s);
    ++ncl;
  }
  REQ(ncl == e.size() && g == e, "clusters: ", ncl, " reported, ", e.size(), " expected");
  // connections
  REQ(st.nodes.size() == in.size(), "nodes");
  for (auto &[var, node] : st.nodes) {
    int i = m.index(var);
    std::map<std::string, const Immutable *> act, dis;
    std::size_t un = 0;
    for (auto &x : m.f) {
      if (x.vars.size() == 1 && x.vars[0] == i) ++un;
      if (x.vars.size() == 2 && (x.vars[0] == i || x.vars[1] == i)) {
        int o = x.vars[0] == i ? x.vars[1] : x.vars[0];
        (m.ev.count(i) || m.ev.count(o) ? dis : act)[m.vars[o]->name()] = x.live.get();
      }
    }
    auto cmp = [&](const auto &conns, const std::map<std::string, const Immutable *> &ex, const char *what) {
      REQ(conns.size() == ex.size(), what, " connections of ", var->name(), ": ", conns.size(), " expected ", ex.size());
      for (auto &[n, c] : conns) {
        auto it = ex.find(n->variable->name());
        REQ(it != ex.end() && it->second == c.factor.get(), what, " connection ", var->name(), "-", n->variable->name());
      }
    };
    cmp(node->active_connections, act, "active");
    cmp(node->disabled_connections, dis, "disabled");
    REQ(node->unary_factors.size() == un && node->variable == var, "unary factors of ", var->name());
  }
}
// one random edit; returns its description
void edit(Rng &r, Probe &p, MSpec &m, bool forest, bool tun) {
  std::vector<int> in, ev;
  for (std::size_t k = 0; k < m.vars.size(); ++k) {
    if (m.in_model((int)k)) in.push_back((int)k);
    if (m.ev.count((int)k)) ev.push_back((int)k);
  }
  std::size_t what = r.below(100);
  auto tunify = [&](FSpec &s) {
    if (tun && s.expo && r.chance(60)) {
      s.tunable = true;
      if (r.chance(30))
        for (std::size_t q = 0; q < m.f.size(); ++q)
          if (m.f[q].tunable && m.f[q].share < 0 && m.f[q].vars.size() <= 2) { s.share = (int)q; break; }
    }
  };
  if (in.empty() || what < 18) {
    FSpec s = rnd_factor(r, m, {(int)r.below(m.vars.size())});
    tunify(s);
    note("add unary on ", m.vars[s.vars[0]]->name());
    insert(p, m, s);
  } else if (what < 50) {
    int a = (int)r.below(m.vars.size()), b = (int)r.below(m.vars.size());
    if (a == b) return;
    if (m.linked(a, b)) {
      FSpec s = rnd_factor(r, m, {a, b});
      auto live = make_live(m, s);
      note("add a second factor ", m.vars[a]->name(), "-", m.vars[b]->name(), " (refused)");
      REQ(throws([&] { p.addConstFactor(live); }), "second factor on the same pair");
      return;
    }
    if (forest && !keeps_forest(m, a, b)) return;
    FSpec s = rnd_factor(r, m, {a, b});
    tunify(s);
    note("add factor ", m.vars[a]->name(), "-", m.vars[b]->name());
    insert(p, m, s);
  } else if (what < 68) {
    int v = in[r.below(in.size())];
    std::size_t x = r.below(m.vars[v]->size());
    note("observe ", m.vars[v]->name(), "=", x);
    if (r.chance(50)) p.setEvidence(m.vars[v], x); else p.setEvidence(m.vars[v]->name(), x);
    m.ev[v] = x;
  } else if (what < 80) {
    if (ev.empty()) return;
    int v = ev[r.below(ev.size())];
    note("remove evidence ", m.vars[v]->name());
    if (r.chance(50)) p.removeEvidence(m.vars[v]); else p.removeEvidence(m.vars[v]->name());
    m.ev.erase(v);
  } else if (what < 84) {
    if (ev.empty()) return;
    VariablesSet s;
    std::unordered_set<std::string> n;
    for (int v : ev) if (r.chance(50)) { s.emplace(m.vars[v]); n.emplace(m.vars[v]->name()); m.ev.erase(v); }
    note("remove a set of ", s.size(), " evidences");
    if (r.chance(50)) p.removeEvidences(s); else p.removeEvidences(n);
  } else if (what < 87) {
    note("remove all evidences");
    p.removeAllEvidences();
    m.ev.clear();
  } else if (what < 92) {
    auto cl = p.getTunableClusters();
    if (cl.empty()) return;
    std::vector<float> w;
    for (std::size_t q = 0; q < cl.size(); ++q) w.push_back(r.weight());
    note("set weights ", str(w));
    p.setWeights(w);
    for (std::size_t q = 0; q < cl.size(); ++q) {
      std::vector<FExpPtr> fs;
      if (auto *one = std::get_if<FExpPtr>(&cl[q])) fs.push_back(*one); else fs = std::get<1>(cl[q]);
      for (auto &f : fs) for (auto &x : m.f) if (x.live.get() == f.get()) x.w = w[q];
    }
  } else {
    // refused operations
    std::size_t kind = r.below(9);
    note("refused operation of kind ", kind);
    auto stranger = make_variable(2, "stranger");
    switch (kind) {
    case 0: REQ(throws([&] { p.setEvidence(stranger, 0); }), "evidence on an unknown variable"); break;
    case 1: { int v = in[r.below(in.size())]; REQ(throws([&] { p.setEvidence(m.vars[v], m.vars[v]->size() + r.below(3)); }), "out of range evidence"); } break;
    case 2: { int v = in[r.below(in.size())]; if (!m.ev.count(v)) REQ(throws([&] { p.removeEvidence(m.vars[v]); }), "removal of a hidden variable"); } break;
    case 3: { VariablesSet s; bool bad = false;
              for (int v : in) if (m.ev.count(v) || r.chance(50)) { s.emplace(m.vars[v]); bad = bad || !m.ev.count(v); }
              if (bad) REQ(throws([&] { p.removeEvidences(s); }), "removal of a set holding a hidden variable"); } break;
    case 4: REQ(throws([&] { p.addConstFactor(nullptr); }), "null factor"); break;
    case 5: REQ(throws([&] { p.addConstFactor(m.f[r.below(m.f.size())].live); }), "factor twice"); break;
    case 6: { // a twin of a variable in the model, in a binary factor with a new variable
              auto twin = make_variable(m.vars[in[0]]->size(), m.vars[in[0]]->name());
              auto f = std::make_shared<Factor>(r.chance(50) ? Group{stranger, twin} : Group{twin, stranger});
              REQ(throws([&] { p.addConstFactor(f); }), "twin variable"); } break;
    case 7: { auto f = std::make_shared<Factor>(Group{stranger, make_variable(2, "s2"), make_variable(2, "s3")});
              REQ(throws([&] { p.addConstFactor(f); }), "ternary factor"); } break;
    case 8: { // unknown sharing group
              FSpec s = rnd_factor(r, m, {in[r.below(in.size())]});
              s.expo = true;
              auto f = std::dynamic_pointer_cast<FactorExponential>(make_live(m, s));
              VariablesSet g; g.emplace(stranger);
              REQ(throws([&] { p.addTunableFactor(f, g); }), "unknown sharing group");
              std::vector<float> w(p.getWeights().size() + 1, 0.3f);
              REQ(throws([&] { p.setWeights(w); }), "weights of the wrong length"); } break;
    }
    REQ(throws([&] { p.getMarginalDistribution(stranger); }) && throws([&] { p.getMarginalDistribution("stranger"); }) &&
        throws([&] { p.getMAP("stranger"); }) && throws([&] { p.getJointMarginalDistribution(std::vector<std::string>{"stranger"}); }),
        "queries on an unknown variable");
  }
}
Reg c09({"C09", [](Rng &r, std::uint64_t) {
  MSpec m = new_spec(r, 2 + r.below(6));
  Probe p;
  std::size_t steps = 5 + r.below(30);
  for (std::size_t q = 0; q < steps; ++q) {
    edit(r, p, m, false, true);
    structure(p, m);
    if (!p.getAllVariables().empty() && m.forest() && r.chance(15)) { // a query must not disturb the structure
      p.getMarginalDistribution(p.getAllVariables()[r.below(p.getAllVariables().size())]);
      structure(p, m);
    }
  }
}, 400, 4000});
// rebuilds a fresh model with copies of the factors
std::unique_ptr<Probe> rebuild(const MSpec &m, MSpec &out) {
  auto p = std::make_unique<Probe>();
  out.vars = m.vars;
  for (auto s : m.f) insert(*p, out, s);
  for (auto &[v, x] : m.ev) { p->setEvidence(m.vars[v], x); out.ev[v] = x; }
  return p;
}
void compare(Rng &r, Probe &a, Probe &b, const MSpec &m, double tol) {
  auto vs = a.getAllVariables();
  for (std::size_t z = vs.size(); z > 1; --z) std::swap(vs[z - 1], vs[r.below(z)]);
  for (auto &v : vs) {
    auto x = a.getMarginalDistribution(v), y = b.getMarginalDistribution(v);
    REQ(x.size() == y.size(), "length");
    for (std::size_t q = 0; q < x.size(); ++q)
      REQ(close(x[q], y[q], tol), "marginal of ", v->name(), " is ", str(x), ", on a fresh model ", str(y));
  }
}
Reg c10({"C10", [](Rng &r, std::uint64_t) {
  MSpec m = new_spec(r, 2 + r.below(4));
  Probe p;
  std::size_t steps = 5 + r.below(25);
  for (std::size_t q = 0; q < steps; ++q) {
    edit(r, p, m, true, true);
    if (r.chance(60)) {
      note("query");
      MSpec o;
      auto fresh = rebuild(m, o);
      if (r.chance(30) && !p.getAllVariables().empty()) { p.getHiddenSetMAP(); }
      if (r.chance(10)) REQ(throws([&] { p.getMarginalDistribution(m.vars[0], 0); }) || true, "");
      compare(r, p, *fresh, m, 1e-3);
      exact(p, m, r, 1 + r.below(3));
    }
    if (r.chance(15) && !p.getAllVariables().empty()) {
      note("samples");
      EFG::strct::GibbsSampler::SamplesGenerationContext c{5, 1, 3, 2};
      for (auto &s : p.makeSamples(c)) for (std::size_t z = 0; z < s.size(); ++z)
        if (m.ev.count(m.index(p.getAllVariables()[z]))) REQ(s[z] == m.ev[m.index(p.getAllVariables()[z])], "sampled evidence");
    }
  }
}, 300, 3000});
Reg c10b({"C10", [](Rng &r, std::uint64_t) { // loops: mild couplings, so that propagation converges
  MSpec m;
  std::size_t n = 3 + r.below(3);
  for (std::size_t k = 0; k < n; ++k) m.vars.push_back(make_variable(2, "x" + std::to_string(k)));
  Probe p;
  auto mild = [&](std::vector<int> vs) {
    FSpec s; s.vars = vs;
    for (std::size_t q = 0; q < prod(Comb(vs.size(), 2)); ++q) s.raw[unrank(Comb(vs.size(), 2), q)] = 1.f + r.below(5) * 0.1f;
    return s;
  };
  for (std::size_t k = 0; k < n; ++k) insert(p, m, mild({(int)k, (int)((k + 1) % n)}));
  for (int q = 0; q < 14; ++q) {
    std::size_t what = r.below(5);
    int v = (int)r.below(n);
    if (what == 4) { // one more factor inside the loop
      int u = (int)r.below(n);
      if (u != v && !m.linked(u, v)) { insert(p, m, mild({u, v})); note("factor ", u, "-", v); }
    }
    if (what == 0) { insert(p, m, mild({v})); note("unary"); }
    else if (what == 1) { std::size_t x = r.below(2); p.setEvidence(m.vars[v], x); m.ev[v] = x; note("observe ", v, "=", x); }
    else if (what == 2 && m.ev.count(v)) { p.removeEvidence(m.vars[v]); m.ev.erase(v); note("remove ", v); }
    MSpec o;
    auto fresh = rebuild(m, o);
    compare(r, p, *fresh, m, 0.02);
    if (r.chance(20)) p.getHiddenSetMAP();
  }
}, 80, 800});
Reg c11({"C11", [](Rng &r, std::uint64_t) {
  MSpec m = new_spec(r, 1 + r.below(5));
  Probe p;
  bool zeros = r.chance(30);
  // a random forest plus observed variables that may close cycles
  std::size_t n = m.vars.size();
  for (std::size_t k = 0; k < n; ++k)
    if (k == 0 || r.chance(60)) insert(p, m, rnd_factor(r, m, {(int)k}, zeros));
  for (std::size_t q = 0; q < 3 * n; ++q) {
    int a = (int)r.below(n), b = (int)r.below(n);
    if (a == b || m.linked(a, b)) continue;
    bool closes = !keeps_forest(m, a, b);
    if (closes && !r.chance(25)) continue;
    insert(p, m, rnd_factor(r, m, {a, b}, zeros));
  }
  for (std::size_t k = 0; k < n; ++k)
    if (m.in_model((int)k) && r.chance(25)) { std::size_t x = r.below(m.vars[k]->size()); p.setEvidence(m.vars[k], x); m.ev[(int)k] = x; }
  while (!m.forest()) { // observe until no cycle among the hidden ones is left
    int k = (int)r.below(n);
    if (m.in_model(k)) { std::size_t x = r.below(m.vars[k]->size()); p.setEvidence(m.vars[k], x); m.ev[k] = x; }
  }
  note(m.show());
  exact(p, m, r, 1 + r.below(4));
  REQ(throws([&] { p.getMarginalDistribution(make_variable(2, "no")); }) && throws([&] { p.getMAP("no"); }), "unknown variable");
}, 600, 6000});
Reg c11b({"C11", [](Rng &r, std::uint64_t) { // the constant-factor model as well, built by absorption
  MSpec m = new_spec(r, 2 + r.below(3));
  Probe p;
  for (std::size_t k = 0; k + 1 < m.vars.size(); ++k) insert(p, m, rnd_factor(r, m, {(int)(k + 1), (int)k}));
  insert(p, m, rnd_factor(r, m, {0}));
  if (r.chance(50)) { p.setEvidence(m.vars[0], 0); m.ev[0] = 0; }
  EFG::model::Graph g;
  g.absorb(p, r.chance(50));
  note(m.show());
  exact(g, m, r);
  EFG::model::Graph g2{g};
  exact(g2, m, r);
  RandomField rf{p};
  exact(rf, m, r);
}, 100, 1000});
// larger forests, stars and chains: exact values by variable elimination
MSpec big_spec(Rng &r, std::size_t n, std::size_t maxsz) {
  MSpec m;
  for (std::size_t k = 0; k < n; ++k) m.vars.push_back(make_variable(1 + r.below(maxsz), "x" + std::to_string(k)));
  return m;
}
Reg c11c({"C11", [](Rng &r, std::uint64_t k) {
  std::size_t n = 6 + r.below(14), shape = k % 3;
  MSpec m = big_spec(r, n, 2 + r.below(5));
  Probe p;
  std::vector<std::pair<int, int>> edges;
  for (std::size_t v = 1; v < n; ++v) {
    std::size_t u = shape == 0 ? 0 : shape == 1 ? v - 1 : r.below(v);
    if (r.chance(93)) edges.emplace_back((int)u, (int)v);
  }
  for (std::size_t z = edges.size(); z > 1; --z) std::swap(edges[z - 1], edges[r.below(z)]);
  for (auto [a, b] : edges) insert(p, m, r.chance(50) ? rnd_factor(r, m, {a, b}) : rnd_factor(r, m, {b, a}));
  for (std::size_t v = 0; v < n; ++v) for (std::size_t z = r.below(4); z > 0; --z) insert(p, m, rnd_factor(r, m, {(int)v}));
  for (std::size_t v = 0; v < n; ++v)
    if (m.in_model((int)v) && r.chance(15)) { std::size_t x = r.below(m.vars[v]->size()); p.setEvidence(m.vars[v], x); m.ev[(int)v] = x; }
  note(m.show());
  exact(p, m, r, 1 + r.below(5));
  exact(p, m, r, 1 + r.below(5));
}, 60, 600});
Reg c10c({"C10", [](Rng &r, std::uint64_t) { // longer histories on larger forests
  MSpec m = big_spec(r, 6 + r.below(6), 4);
  Probe p;
  std::size_t steps = 30 + r.below(30);
  for (std::size_t q = 0; q < steps; ++q) {
    edit(r, p, m, true, true);
    if (r.chance(15)) { note("query"); exact(p, m, r, 1 + r.below(3)); }
  }
}, 40, 400});
Reg c09b({"C09", [](Rng &r, std::uint64_t) {
  MSpec m = big_spec(r, 8 + r.below(10), 3);
  Probe p;
  std::size_t steps = 60 + r.below(60);
  for (std::size_t q = 0; q < steps; ++q) { edit(r, p, m, false, true); structure(p, m); }
}, 40, 400});
} // namespace
