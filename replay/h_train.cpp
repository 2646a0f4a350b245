#include <optional>
// C12, C13, C14, C16, C17
#include "graph.h"
#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <EasyFactorGraph/structure/bases/PoolAware.h>
#include <atomic>
#include <fstream>
#include <unistd.h>
#include "io/Utils.h"
using namespace vh;
using EFG::train::TrainSet;
using Ctxt = EFG::strct::GibbsSampler::SamplesGenerationContext;
namespace {
MSpec new_spec(Rng &r, std::size_t n) {
  MSpec m;
  for (std::size_t k = 0; k < n; ++k) m.vars.push_back(make_variable(r.chance(80) ? 2 + r.below(2) : 1 + r.below(6), "x" + std::to_string(k)));
  return m;
}
bool keeps_forest(const MSpec &m, int a, int b) {
  MSpec t; t.vars = m.vars; t.f = m.f;
  FSpec s; s.vars = {a, b}; t.f.push_back(s);
  return t.forest();
}
FSpec rnd_tunable(Rng &r, const MSpec &m, std::vector<int> vs) {
  FSpec s;
  s.vars = vs;
  Comb sz;
  for (int v : vs) sz.push_back(m.vars[v]->size());
  for (std::size_t q = 0; q < prod(sz); ++q) s.raw[unrank(sz, q)] = 0.1f * r.below(20);
  s.expo = s.tunable = true;
  s.w = r.weight();
  return s;
}
std::vector<TrainSet> rnd_train(Rng &r, const VariablesSoup &order) {
  std::vector<Comb> rows(1 + r.below(6));
  for (auto &c : rows) for (auto &v : order) c.push_back(r.below(v->size()));
  return {TrainSet{rows}};
}
// ------------------------------------------------------------------- C12
Reg c12({"C12", [](Rng &r, std::uint64_t k) {
  std::size_t th = 1 + k % 8, n = r.below(40);
  note("threads ", th, " tasks ", n);
  EFG::strct::Pool pool(th);
  REQ(pool.size() == th, "size");
  for (int rep = 0; rep < 30; ++rep) {
    std::vector<std::atomic<int>> cnt(n);
    std::vector<int> who(n, -1);
    std::atomic<int> done{0}, bad{0};
    EFG::strct::Tasks tasks;
    for (std::size_t q = 0; q < n; ++q)
      tasks.emplace_back([&, q](const std::size_t id) {
        ++cnt[q];
        if (id >= th) ++bad;
        who[q] = (int)id;
        ++done;
      });
    pool.parallelFor(tasks);
    REQ(done == (int)n, "returned after ", done.load(), " of ", n);
    REQ(bad == 0, "worker index out of range");
    for (std::size_t q = 0; q < n; ++q) REQ(cnt[q] == 1, "task ", q, " ran ", cnt[q].load(), " times");
  }
  REQ(throws([] { EFG::strct::Pool p(0); }), "no threads");
}, 64, 400});
Reg c12b({"C12", [](Rng &r, std::uint64_t) { // results on loops do not depend on the number of (>1) threads
  MSpec m;
  std::size_t n = 3 + r.below(4);
  for (std::size_t k = 0; k < n; ++k) m.vars.push_back(make_variable(2 + r.below(2), "x" + std::to_string(k)));
  Probe p;
  auto mild = [&](std::vector<int> vs) {
    FSpec s; s.vars = vs;
    Comb sz; for (int v : vs) sz.push_back(m.vars[v]->size());
    for (std::size_t q = 0; q < prod(sz); ++q) s.raw[unrank(sz, q)] = 1.f + r.below(10) * 0.1f;
    return s;
  };
  for (std::size_t k = 0; k < n; ++k) { insert(p, m, mild({(int)k, (int)((k + 1) % n)})); insert(p, m, mild({(int)k})); }
  if (n > 3 && r.chance(50)) insert(p, m, mild({0, 2}));
  // an isolated unit and a tree part
  m.vars.push_back(make_variable(2, "lone")); insert(p, m, mild({(int)n}));
  m.vars.push_back(make_variable(2, "leaf")); insert(p, m, mild({(int)n + 1, 0}));
  std::vector<std::vector<float>> ref;
  for (std::size_t th : {2, 3, 4, 7, 2, 5}) {
    p.setEvidence(m.vars[n], 0);   // forces a new propagation
    p.removeEvidence(m.vars[n]);
    std::vector<std::vector<float>> got;
    for (std::size_t k = 0; k < n + 2; ++k) got.push_back(p.getMarginalDistribution(m.vars[k], th));
    if (ref.empty()) ref = got;
    for (std::size_t k = 0; k < got.size(); ++k) for (std::size_t q = 0; q < got[k].size(); ++q)
      REQ(close(got[k][q], ref[k][q], 1e-6), "marginal of ", m.vars[k]->name(), " with ", th, " threads ", str(got[k]), " vs ", str(ref[k]));
  }
  p.setEvidence(m.vars[n], 0);
  p.removeEvidence(m.vars[n]);
  for (std::size_t k = 0; k < n + 2; ++k) { // sequential schedule: same fixed point
    auto g = p.getMarginalDistribution(m.vars[k], 1);
    for (std::size_t q = 0; q < g.size(); ++q) REQ(close(g[q], ref[k][q], 0.02), "marginal of ", m.vars[k]->name(), " with one thread");
  }
  // sampling and gradients use the pool as well
  Ctxt c{6, 1, 7, 3};
  for (std::size_t th : {2, 3, 5}) p.makeSamples(c, th);
  Probe t;
  MSpec mt; mt.vars = m.vars;
  for (std::size_t k = 0; k < n; ++k) insert(t, mt, rnd_tunable(r, mt, {(int)k, (int)((k + 1) % n)}));
  for (std::size_t k = 0; k < n; ++k) if (r.chance(50)) insert(t, mt, rnd_tunable(r, mt, {(int)k}));
  auto ts = rnd_train(r, t.getAllVariables());
  auto it = ts[0].makeIterator();
  auto g2 = t.getWeightsGradient(it, 2), g4 = t.getWeightsGradient(it, 4);
  REQ(g2.size() == g4.size(), "length of the gradient");
  for (std::size_t q = 0; q < g2.size(); ++q) REQ(close(g2[q], g4[q], 1e-5), "gradient entry ", q, " with 2 threads ", g2[q], ", with 4 ", g4[q]);
}, 40, 300});

// ------------------------------------------------------------------- C13
Reg c13({"C13", [](Rng &r, std::uint64_t) {
  MSpec m = new_spec(r, 1 + r.below(5));
  Probe p;
  std::size_t n = m.vars.size();
  for (std::size_t k = 0; k < n; ++k) insert(p, m, rnd_factor(r, m, {(int)k}));
  for (std::size_t q = 0; q < 2 * n; ++q) {
    int a = (int)r.below(n), b = (int)r.below(n);
    if (a != b && !m.linked(a, b)) insert(p, m, rnd_factor(r, m, {a, b}));
  }
  for (std::size_t k = 0; k < n; ++k)
    if (r.chance(25)) { std::size_t x = r.below(m.vars[k]->size()); p.setEvidence(m.vars[k], x); m.ev[(int)k] = x; }
  note(m.show());
  std::size_t N = r.below(12), d = r.below(5), tr = r.below(6), th = 1 + r.below(4), seed = 1 + r.below(1000);
  note("samples ", N, " delta ", d, " transient ", tr, " threads ", th);
  auto shape = [&](const std::vector<Comb> &s, std::size_t cnt) {
    REQ(s.size() == cnt, "number of samples ", s.size(), " requested ", cnt);
    for (auto &c : s) {
      REQ(c.size() == p.getAllVariables().size(), "length of a sample");
      for (std::size_t z = 0; z < c.size(); ++z) {
        int i = m.index(p.getAllVariables()[z]);
        REQ(c[z] < m.vars[i]->size(), "range");
        if (m.ev.count(i)) REQ(c[z] == m.ev[i], "observed value of ", m.vars[i]->name(), " is ", c[z]);
      }
    }
  };
  auto s = p.makeSamples(Ctxt{N, d, seed, tr}, th);
  shape(s, N);
  shape(p.makeSamples(Ctxt{N, std::nullopt, std::nullopt, std::nullopt}, th), N);
  // same seed, all the evolutions stored: the request is a regular extract of it
  std::size_t dd = std::max<std::size_t>(1, d);
  auto all = p.makeSamples(Ctxt{tr + N * dd + 1, 1, seed, 0}, th);
  for (std::size_t q = 0; q < N; ++q)
    REQ(s[q] == all[tr + q * dd], "sample ", q, " is ", str(s[q]), " expected the one after ", tr + q * dd, " evolutions, ", str(all[tr + q * dd]));
  // default spacing: ceil(N/10) evolutions, burn-in ten times that
  if (N > 0) {
    std::size_t de = std::max<std::size_t>(1, (std::size_t)ceil(N * 0.1));
    auto dft = p.makeSamples(Ctxt{N, std::nullopt, seed, std::nullopt}, th);
    auto ex = p.makeSamples(Ctxt{N, de, seed, 10 * de}, th);
    REQ(dft == ex, "default spacing and burn-in");
  }
}, 250, 2500});
Reg c13b({"C13", [](Rng &r, std::uint64_t k) { // long run frequencies against the exact distribution
  MSpec m = new_spec(r, 2 + r.below(2));
  Probe p;
  std::size_t n = m.vars.size();
  auto soft = [&](std::vector<int> vs) {
    FSpec s; s.vars = vs;
    Comb sz; for (int v : vs) sz.push_back(m.vars[v]->size());
    for (std::size_t q = 0; q < prod(sz); ++q) s.raw[unrank(sz, q)] = 0.5f + 0.5f * r.below(8);
    return s;
  };
  for (std::size_t q = 0; q < n; ++q) insert(p, m, soft({(int)q}));
  for (std::size_t q = 0; q < n; ++q) for (std::size_t z = q + 1; z < n; ++z)
    if (!m.linked((int)q, (int)z) && r.chance(80)) insert(p, m, r.chance(50) ? soft({(int)q, (int)z}) : soft({(int)z, (int)q}));
  if (r.chance(40)) { std::size_t x = m.vars[0]->size() - 1; p.setEvidence(m.vars[0], x); m.ev[0] = x; }
  note(m.show());
  const std::size_t N = 4000;
  auto s = p.makeSamples(Ctxt{N, 3, 17 + k, 50}, 1 + r.below(2));
  std::map<Comb, double> f;
  for (auto &c : s) {
    Comb x(n);
    for (std::size_t z = 0; z < n; ++z) x[m.index(p.getAllVariables()[z])] = c[z];
    f[x] += 1.0 / N;
  }
  double Z = m.mass();
  m.each([&](const Comb &c, double w) {
    double e = w / Z, tol = 8 * std::sqrt(e * (1 - e) / N) + 0.012;
    REQ(std::fabs(f[c] - e) < tol, "frequency of ", str(c), " is ", f[c], " expected ", e);
  });
}, 12, 120});
Reg c13d({"C13", [](Rng &r, std::uint64_t k) { // variables with many neighbours: long run frequencies of each value
  std::size_t n = 5 + r.below(4);
  MSpec m;
  for (std::size_t q = 0; q < n; ++q) m.vars.push_back(make_variable(2 + (q == 0 && r.chance(50) ? 1 : 0), "x" + std::to_string(q)));
  Probe p;
  auto skew = [&](std::vector<int> vs) {
    FSpec s; s.vars = vs;
    Comb sz; for (int v : vs) sz.push_back(m.vars[v]->size());
    std::size_t top = r.below(2);
    for (std::size_t q = 0; q < prod(sz); ++q) {
      Comb c = unrank(sz, q);
      bool hi = vs.size() == 1 ? c[0] == top : c[0] == c[1];
      s.raw[c] = hi ? 3.f : 1.f;
    }
    return s;
  };
  for (std::size_t q = 1; q < n; ++q) insert(p, m, r.chance(50) ? skew({0, (int)q}) : skew({(int)q, 0}));
  for (std::size_t q = 1; q < n; ++q) insert(p, m, skew({(int)q}));
  if (r.chance(40)) { p.setEvidence(m.vars[1], 1); m.ev[1] = 1; }
  note(m.show());
  const std::size_t N = 4000;
  auto s = p.makeSamples(Ctxt{N, 4, 29 + k, 60}, 1 + r.below(3));
  auto order = p.getAllVariables();
  for (std::size_t z = 0; z < order.size(); ++z) {
    int v = m.index(order[z]);
    std::vector<double> h(order[z]->size(), 0.0);
    for (auto &c : s) h[c[z]] += 1.0 / N;
    auto e = m.marginal(v);
    for (std::size_t q = 0; q < e.size(); ++q)
      REQ(std::fabs(h[q] - e[q]) < 0.06, "frequency of ", order[z]->name(), "=", q, " is ", h[q], " expected ", e[q]);
  }
}, 8, 80});
Reg c13c({"C13", [](Rng &r, std::uint64_t k) { // impossible values are never drawn
  MSpec m;
  std::size_t n = 2 + r.below(3);
  for (std::size_t q = 0; q < n; ++q) m.vars.push_back(make_variable(3, "x" + std::to_string(q)));
  Probe p;
  FSpec u; u.vars = {0}; std::size_t zero = r.below(3);
  for (std::size_t q = 0; q < 3; ++q) u.raw[{q}] = q == zero ? 0.f : 1.f;
  insert(p, m, u);
  for (std::size_t q = 1; q < n; ++q) {
    FSpec b; b.vars = {(int)q - 1, (int)q};
    for (std::size_t a = 0; a < 3; ++a) for (std::size_t c = 0; c < 3; ++c) b.raw[{a, c}] = c == (a + 2) % 3 && q == 1 ? 0.f : 1.f;
    insert(p, m, b);
  }
  auto s = p.makeSamples(Ctxt{3000, 1, 5 + k, 10}, 1);
  for (auto &c : s) {
    Comb x(n);
    for (std::size_t z = 0; z < n; ++z) x[m.index(p.getAllVariables()[z])] = c[z];
    REQ(x[0] != zero, "value ", zero, " of x0 has null probability");
    REQ(x[1] != (x[0] + 2) % 3, "combination ", str(x), " has null probability");
  }
  // the sampler itself
  EFG::strct::UniformSampler us;
  us.resetSeed(k);
  std::vector<float> d(2 + r.below(5));
  float sum = 0;
  for (auto &x : d) { x = r.chance(40) ? 0.f : r.img(); sum += x; }
  if (sum > 0) {
    for (auto &x : d) x /= sum;
    std::vector<double> h(d.size());
    for (int q = 0; q < 20000; ++q) { auto v = us.sampleFromDiscrete(d); REQ(v < d.size() && d[v] > 0, "sampled ", v, " from ", str(d)); h[v] += 1.0 / 20000; }
    for (std::size_t q = 0; q < d.size(); ++q) REQ(std::fabs(h[q] - d[q]) < 0.03, "frequency ", str(h), " of ", str(d));
    std::vector<float> shrunk = d; // a sum slightly below one, as rounding gives
    shrunk.push_back(0.f);
    for (auto &x : shrunk) x *= 0.9f;
    for (int q = 0; q < 2000; ++q) { auto v = us.sampleFromDiscrete(shrunk); REQ(shrunk[v] > 0, "sampled ", v, " from ", str(shrunk)); }
  }
}, 24, 200});

// ------------------------------------------------------------------- C14
std::vector<std::vector<int>> tuner_groups(const Probe &p, const MSpec &m) { // spec indices of each entry, by identity of the factors
  std::vector<std::vector<int>> g;
  for (auto &cl : p.getTunableClusters()) {
    std::vector<FExpPtr> fs;
    if (auto *one = std::get_if<FExpPtr>(&cl)) fs.push_back(*one); else fs = std::get<1>(cl);
    std::vector<int> ids;
    for (auto &f : fs) for (std::size_t q = 0; q < m.f.size(); ++q) if (m.f[q].live.get() == f.get()) ids.push_back((int)q);
    g.push_back(ids);
  }
  return g;
}
Reg c14({"C14", [](Rng &r, std::uint64_t) {
  MSpec m = new_spec(r, 1 + r.below(4));
  Probe p;
  std::size_t n = m.vars.size();
  std::vector<std::vector<int>> exp; // expected grouping, in order of insertion
  auto add = [&](std::vector<int> vs) {
    if (r.chance(25)) { insert(p, m, rnd_factor(r, m, vs)); return; }
    FSpec s = rnd_tunable(r, m, vs);
    int id = (int)m.f.size();
    if (!exp.empty() && r.chance(35)) {
      std::size_t g = r.below(exp.size());
      int owner = exp[g][r.below(exp[g].size())];
      // a group is looked for by its variables: the first match gets it
      for (std::size_t z = 0; z < exp.size(); ++z) for (int o : exp[z]) {
        std::set<int> a(m.f[o].vars.begin(), m.f[o].vars.end()), b(m.f[owner].vars.begin(), m.f[owner].vars.end());
        if (a == b && z < g) { g = z; owner = o; }
      }
      s.share = owner;
      insert(p, m, s);
      m.f.back().w = m.f[exp[g][0]].w;
      exp[g].push_back(id);
    } else { insert(p, m, s); exp.push_back({id}); }
  };
  for (std::size_t k = 0; k < n; ++k) if (k == 0 || r.chance(60)) add({(int)k});
  for (std::size_t q = 0; q < 3 * n; ++q) {
    int a = (int)r.below(n), b = (int)r.below(n);
    if (a != b && !m.linked(a, b) && keeps_forest(m, a, b)) add({a, b});
  }
  note(m.show());
  REQ(tuner_groups(p, m) == exp, "tunable clusters");
  auto weights_ok = [&](const char *what) {
    auto w = p.getWeights();
    REQ(w.size() == exp.size(), what, ": number of weights");
    for (std::size_t q = 0; q < exp.size(); ++q)
      for (int id : exp[q]) {
        auto e = std::dynamic_pointer_cast<FactorExponential>(m.f[id].live);
        REQ(e->getWeight() == m.f[id].w && w[q] == m.f[id].w, what, ": weight ", q, " is ", w[q], ", factor has ", e->getWeight(), " expected ", m.f[id].w);
      }
  };
  weights_ok("after insertion");
  std::optional<EFG::train::TrainSet::Iterator> slot; // iterators of different train sets, at the same address
  auto gradient_ok = [&](const char *what) {
    if (exp.empty()) return;
    auto ts = rnd_train(r, p.getAllVariables())[0];
    slot.reset();
    slot.emplace(ts.makeIterator());
    auto &it = *slot;
    m.ev.clear(); // the gradient refers to the model without evidence
    auto g = p.getWeightsGradient(it, 1 + r.below(3));
    REQ(g.size() == exp.size(), "length of the gradient");
    double Z = m.mass();
    for (std::size_t q = 0; q < exp.size(); ++q) {
      double e = 0;
      for (int id : exp[q]) {
        double a = 0, b = 0;
        for (auto &row : ts.getCombinations()) {
          Comb full(n, 0);
          for (std::size_t z = 0; z < row.size(); ++z) full[m.index(p.getAllVariables()[z])] = row[z];
          a += m.f[id].feature(full) / ts.getCombinations().size();
        }
        m.each([&](const Comb &c, double w) { b += m.f[id].feature(c) * w / Z; });
        e += a - b;
      }
      REQ(close(g[q], e, 2e-3), what, ": gradient entry ", q, " is ", g[q], " expected ", e);
    }
    if (r.chance(50)) return;
    auto sub = ts.makeSubSetIterator(1.f);
    auto g2 = p.getWeightsGradient(sub);
    for (std::size_t q = 0; q < g.size(); ++q) REQ(close(g[q], g2[q], 1e-4), "gradient twice");
  };
  gradient_ok("first");
  for (int q = 0; q < 3; ++q) {
    std::vector<float> w;
    for (std::size_t z = 0; z < exp.size(); ++z) w.push_back(r.weight());
    auto wrong = w;
    if (r.chance(50) || w.empty()) wrong.push_back(0.5f); else wrong.pop_back();
    REQ(throws([&] { p.setWeights(wrong); }), "wrong length accepted");
    weights_ok("after a refusal");
    if (r.chance(30)) { int v = m.index(p.getAllVariables()[0]); p.setEvidence(m.vars[v], 0); m.ev[v] = 0; }
    p.setWeights(w);
    for (std::size_t z = 0; z < exp.size(); ++z) for (int id : exp[z]) m.f[id].w = w[z];
    REQ(p.getWeights() == w, "weights read back");
    weights_ok("after setWeights");
    exact(p, m, r);
    gradient_ok("after setWeights");
  }
  EFG::train::set_ones(p);
  for (std::size_t z = 0; z < exp.size(); ++z) for (int id : exp[z]) m.f[id].w = 1.f;
  weights_ok("after set_ones");
}, 250, 2500});

// ------------------------------------------------------------------- C16
struct Dir { // scratch directory, removed with its content
  std::string path;
  Dir() { std::string t = "/tmp/verif_h_XXXXXX"; path = mkdtemp(t.data()); }
  ~Dir() { std::remove((path + "/m.json").c_str()); std::remove((path + "/ts.txt").c_str()); rmdir(path.c_str()); }
};
Reg c16({"C16", [](Rng &r, std::uint64_t k) {
  MSpec m = new_spec(r, 1 + r.below(4));
  if (r.chance(30)) m.vars.back() = make_variable(8 + r.below(6), "large");
  if (r.chance(40)) m.vars[0] = make_variable(m.vars[0]->size(), k % 2 ? "a \"quoted\" name" : "back\\slash\tand tab");
  Probe p;
  std::size_t n = m.vars.size();
  const bool own = r.chance(40); // groups of factors over the same variables
  auto add = [&](std::vector<int> vs) {
    FSpec s = r.chance(50) ? rnd_tunable(r, m, vs) : rnd_factor(r, m, vs, true);
    float sc = r.chance(60) ? 1.f : r.chance(50) ? 1e-5f : 1.2345678f;
    if (!s.expo) for (auto &[c, v] : s.raw) v *= sc;
    if (s.expo && r.chance(40)) s.w *= 1e-3f;
    if (s.expo && r.chance(20)) for (auto &[c, v] : s.raw) v = r.chance(50) ? 0.f : v * 1.0000123f;
    if (s.tunable && own) {
      if (r.chance(60))
        for (std::size_t q = 0; q < m.f.size(); ++q)
          if (m.f[q].tunable && std::set<int>(m.f[q].vars.begin(), m.f[q].vars.end()) == std::set<int>(vs.begin(), vs.end())) { s.share = (int)q; break; }
    } else if (s.tunable && r.chance(40))
      for (std::size_t q = 0; q < m.f.size(); ++q) if (m.f[q].tunable && m.f[q].share < 0) { s.share = (int)q; break; }
    insert(p, m, s);
  };
  for (std::size_t q = 0; q < n; ++q) while (!m.in_model((int)q) ? (q == 0 || r.chance(50)) : r.chance(30)) add({(int)q});
  for (std::size_t q = 0; q < 2 * n; ++q) {
    int a = (int)r.below(n), b = (int)r.below(n);
    if (a != b && !m.linked(a, b)) add({a, b});
    if (m.in_model(a) && r.chance(15)) add({a});
  }
  for (std::size_t q = 0; q < n; ++q)
    if (m.in_model((int)q) && r.chance(30)) { std::size_t x = r.below(m.vars[q]->size()); p.setEvidence(m.vars[q], x); m.ev[(int)q] = x; }
  note(m.show());
  Probe o;
  if (r.chance(50)) {
    auto j = EFG::io::json::Exporter::exportToJson(p);
    EFG::io::json::Importer::importFromJson(o, j);
  } else {
    Dir dir;
    auto f = dir.path + "/m.json";
    EFG::io::json::Exporter::exportToFile(p, f);
    EFG::io::json::Importer::importFromFile(o, f);
    std::remove(f.c_str());
  }
  std::map<std::string, std::size_t> va, vb;
  for (auto &v : p.getAllVariables()) va[v->name()] = v->size();
  for (auto &v : o.getAllVariables()) vb[v->name()] = v->size();
  REQ(va == vb && o.getAllVariables().size() == va.size(), "variables");
  std::map<std::string, std::size_t> ea, eb;
  for (auto &[v, x] : p.getEvidences()) ea[v->name()] = x;
  for (auto &[v, x] : o.getEvidences()) eb[v->name()] = x;
  REQ(ea == eb, "evidences");
  auto key = [](const Immutable &f) { std::vector<std::string> s; for (auto &v : f.function().vars().getVariables()) s.push_back(v->name()); return s; };
  auto same = [&](const Immutable &a, const Immutable &b) {
    if (key(a) != key(b)) return false;
    Comb sz = sizes_of(a.function().vars().getVariables());
    for (std::size_t q = 0; q < prod(sz); ++q) {
      auto c = unrank(sz, q);
      float x = a.function().findImage(c), y = b.function().findImage(c);
      if (std::fabs(x - y) > 1e-5f * std::fabs(x)) return false;
      float tx = a.function().findTransformed(c), ty = b.function().findTransformed(c);
      if (std::fabs(tx - ty) > 1e-4f * std::fabs(tx)) return false;
    }
    auto *ea = dynamic_cast<const FactorExponential *>(&a), *eb = dynamic_cast<const FactorExponential *>(&b);
    if ((ea == nullptr) != (eb == nullptr)) return false;
    return !ea || std::fabs(ea->getWeight() - eb->getWeight()) <= 1e-5f * std::fabs(ea->getWeight());
  };
  auto match = [&](auto &A, auto &B, const char *what) {
    REQ(A.size() == B.size(), what, " factors: ", B.size(), " expected ", A.size());
    std::vector<const Immutable *> left;
    for (auto &b : B) left.push_back(b.get());
    for (auto &a : A) {
      auto it = std::find_if(left.begin(), left.end(), [&](const Immutable *b) { return same(*a, *b); });
      REQ(it != left.end(), what, " factor over ", str(key(*a)), " is not reproduced");
      left.erase(it);
    }
  };
  match(p.getConstFactors(), o.getConstFactors(), "constant");
  match(p.getTunableFactors(), o.getTunableFactors(), "tunable");
  auto groups = [&](const Probe &x) {
    std::multiset<std::multiset<std::vector<std::string>>> g;
    for (auto &cl : x.getTunableClusters()) {
      std::multiset<std::vector<std::string>> s;
      if (auto *one = std::get_if<FExpPtr>(&cl)) s.insert(key(**one)); else for (auto &f : std::get<1>(cl)) s.insert(key(*f));
      g.insert(s);
    }
    return g;
  };
  REQ(groups(p) == groups(o), "sharing groups");
  REQ(p.getWeights().size() == o.getWeights().size(), "number of weights ", o.getWeights().size(), " expected ", p.getWeights().size());
}, 200, 2000});
// listed in KNOWN_FINDINGS.txt: a sharing group is named in the file by the variables of its first factor, which
// another group may contain as well
Reg k16({"K16", [](Rng &, std::uint64_t) {
  auto A = make_variable(2, "A"), B = make_variable(2, "B"), C = make_variable(2, "C");
  auto mk = [](const VariablePtr &v, float w) { Factor f{Group{v}}; f.set({1}, 1.f); return std::make_shared<FactorExponential>(f, w); };
  Probe p, o;
  p.addTunableFactor(mk(B, 1.f));
  p.addTunableFactor(mk(A, 2.f));
  p.addTunableFactor(mk(C, 2.f), VariablesSet{A});
  p.addTunableFactor(mk(A, 1.f), VariablesSet{B});
  EFG::io::json::Importer::importFromJson(o, EFG::io::json::Exporter::exportToJson(p));
  auto size = [](const Probe &x) {
    std::vector<std::size_t> r;
    for (auto &cl : x.getTunableClusters()) r.push_back(std::get_if<FExpPtr>(&cl) ? 1 : std::get<1>(cl).size());
    return r;
  };
  REQ(size(p) == size(o), "groups of ", str(size(o)), " factors, expected ", str(size(p)));
}, 1, 1});
Reg c16b({"C16", [](Rng &r, std::uint64_t k) {
  std::vector<Comb> rows(1 + r.below(r.chance(80) ? 6 : 60), Comb(1 + r.below(r.chance(80) ? 4 : 20)));
  std::size_t most = r.chance(60) ? 5 : 130;
  bool ragged = rows.size() > 1 && r.chance(25);
  for (auto &c : rows) for (auto &x : c) x = r.below(most);
  if (ragged) rows[1 + r.below(rows.size() - 1)].push_back(1);
  Dir dir;
  auto f = dir.path + "/ts.txt";
  {
    std::ofstream s(f);
    for (std::size_t q = 0; q < rows.size(); ++q) {
      for (std::size_t z = 0; z < rows[q].size(); ++z) s << (z ? (r.chance(80) ? " " : "  ") : "") << rows[q][z];
      if (q + 1 < rows.size() || r.chance(70)) s << "\n";
    }
    if (r.chance(20)) s << "\n";
  }
  for (auto &c : rows) note("row ", str(c));
  if (ragged) { REQ(throws([&] { EFG::io::import_train_set(f); }), "rows of different lengths accepted"); }
  else {
    auto ts = EFG::io::import_train_set(f);
    REQ(ts.getCombinations() == rows, "imported ", ts.getCombinations().size(), " rows, the first is ", str(ts.getCombinations()[0]));
  }
  std::remove(f.c_str());
  REQ(throws([&] { EFG::io::import_train_set(dir.path + "/none.txt"); }), "inexistent file");
  // factor values
  auto A = make_variable(2, "A"), B = make_variable(3, "B");
  Factor fa{Group{A, B}};
  fa.set({0, 0}, 9.f);
  Table t;
  {
    std::ofstream s(f);
    for (std::size_t q = 0; q < 6; ++q) if (r.chance(60)) { Comb c = unrank({2, 3}, q); float v = 0.25f * r.below(20); t[c] = v; s << c[0] << " " << c[1] << " " << v << "\n"; }
  }
  EFG::io::import_values(fa, f);
  same_table(fa, t, "imported values");
  { std::ofstream s(f); s << (r.chance(50) ? "0 1 1 0.5\n" : "0 3 0.5\n"); }
  REQ(throws([&] { EFG::io::import_values(fa, f); }), "invalid values accepted");
  std::remove(f.c_str());
}, 150, 1500});

// ------------------------------------------------------------------- C17
using CrfProbe = ConditionalRandomField;
Reg c17({"C17", [](Rng &r, std::uint64_t) {
  MSpec m = new_spec(r, 3 + r.below(5));
  std::size_t n = m.vars.size();
  std::size_t nev = 1 + r.below(std::min<std::size_t>(r.chance(30) ? 6 : 3, n - 1));
  // scramble who is observed
  std::vector<int> perm;
  for (std::size_t k = 0; k < n; ++k) perm.push_back((int)k);
  for (std::size_t z = n; z > 1; --z) std::swap(perm[z - 1], perm[r.below(z)]);
  std::set<int> obs(perm.begin(), perm.begin() + nev);
  Probe p;
  std::vector<int> order = perm;
  for (std::size_t z = n; z > 1; --z) std::swap(order[z - 1], order[r.below(z)]);
  std::vector<std::vector<int>> exp;
  // the hidden ones form a forest; each observed one is linked to some hidden ones
  MSpec hid; hid.vars = m.vars;
  auto add = [&](std::vector<int> vs) {
    if (vs.size() == 2 && r.chance(50)) std::swap(vs[0], vs[1]);
    FSpec s = r.chance(70) ? rnd_tunable(r, m, vs) : rnd_factor(r, m, vs);
    if (s.tunable) {
      if (!exp.empty() && r.chance(25)) { s.share = exp[0][0]; insert(p, m, s); m.f.back().w = m.f[exp[0][0]].w; exp[0].push_back((int)m.f.size() - 1); }
      else { insert(p, m, s); exp.push_back({(int)m.f.size() - 1}); }
    } else insert(p, m, s);
  };
  for (int v : order) {
    if (!obs.count(v)) {
      if (r.chance(60)) add({v});
      for (int u : order) if (u != v && !obs.count(u) && !m.linked(u, v)) {
        MSpec t; t.vars = m.vars;
        for (auto &x : m.f) if (x.vars.size() == 2 && !obs.count(x.vars[0]) && !obs.count(x.vars[1])) t.f.push_back(x);
        if (keeps_forest(t, u, v) && r.chance(50)) add({u, v});
      }
    } else {
      bool any = false;
      for (int u : order) if (!obs.count(u) && !m.linked(u, v) && (r.chance(50) || !any)) { add({u, v}); any = true; }
    }
  }
  REQ(throws([&] { ConditionalRandomField(p, true); }), "no evidence");
  std::vector<int> eo(obs.begin(), obs.end());
  for (std::size_t z = eo.size(); z > 1; --z) std::swap(eo[z - 1], eo[r.below(z)]);
  for (int v : eo) { std::size_t x = r.below(m.vars[v]->size()); p.setEvidence(m.vars[v], x); m.ev[v] = x; }
  note(m.show());
  bool copy = r.chance(50);
  CrfProbe c{p, copy};
  auto names = [](const auto &s) { std::multiset<std::string> x; for (auto &v : s) x.insert(v->name()); return x; };
  REQ(names(c.getObservedVariables()) == names(p.getObservedVariables()), "observed variables");
  REQ(c.getAllFactors().size() == m.f.size(), "factors");
  REQ(c.getWeights().size() == exp.size(), "weights");
  exact(c, m, r);
  // evidence vectors
  auto order_of = [&] { std::vector<int> o; for (auto &v : c.getObservedVariables()) o.push_back(m.index(v)); return o; };
  for (int q = 0; q < 3; ++q) {
    auto o = order_of();
    std::vector<std::size_t> val;
    for (int v : o) val.push_back(r.below(m.vars[v]->size()));
    auto bad = val;
    if (r.chance(30)) bad.push_back(0); else if (r.chance(40)) bad.pop_back(); else bad[bad.size() - 1] = m.vars[o.back()]->size();
    REQ(throws([&] { c.setEvidences(bad); }), "wrong evidences accepted");
    for (auto &[v, x] : m.ev) REQ(c.getEvidences().find(m.vars[v])->second == x, "evidence after a refusal");
    c.setEvidences(val);
    for (std::size_t z = 0; z < o.size(); ++z) m.ev[o[z]] = val[z];
    for (auto &[v, x] : m.ev) REQ(c.getEvidences().find(m.vars[v])->second == x, "evidence of ", m.vars[v]->name(), " expected ", x);
    exact(c, m, r);
  }
  // gradient: rows are in the order of the variables of the model
  if (!exp.empty()) {
    auto all = c.getAllVariables();
    auto ts = rnd_train(r, all)[0];
    auto it = ts.makeIterator();
    auto g = c.getWeightsGradient(it, 1 + r.below(2));
    REQ(g.size() == exp.size(), "length of the gradient");
    // locate the entries by the tables of their factors: same order as the source's clusters
    std::vector<double> e(exp.size(), 0.0);
    MSpec t = m;
    for (auto &row : ts.getCombinations()) {
      Comb full(n, 0);
      for (std::size_t z = 0; z < row.size(); ++z) full[m.index(all[z])] = row[z];
      for (auto &[v, x] : t.ev) x = full[v];
      double Z = t.mass();
      for (std::size_t q = 0; q < exp.size(); ++q) for (int id : exp[q]) {
        double b = 0;
        t.each([&](const Comb &cc, double w) { b += m.f[id].feature(cc) * w / Z; });
        e[q] += (m.f[id].feature(full) - b) / ts.getCombinations().size();
      }
    }
    for (std::size_t q = 0; q < e.size(); ++q) REQ(close(g[q], e[q], 3e-3), "gradient entry ", q, " is ", g[q], " expected ", e[q]);
    for (auto &[v, x] : m.ev) x = c.getEvidences().find(m.vars[v])->second;
  }
  // training sets
  std::size_t tot = 1;
  for (int v : obs) tot *= m.vars[v]->size();
  if (tot <= 100) {
    float pct = r.chance(30) ? 1.f : r.chance(30) ? 0.f : r.below(100) / 100.f;
    auto rows = c.makeTrainSet(Ctxt{2, 1, 3, 1}, pct);
    REQ(!rows.empty() && rows.size() <= 2 * tot, "rows ", rows.size(), " for percentage ", pct, " of ", tot);
    if (pct == 1.f) {
      REQ(rows.size() == 2 * tot, "rows for the whole range");
      std::set<Comb> ev;
      for (auto &row : rows) { Comb x; for (std::size_t z = 0; z < row.size(); ++z) if (obs.count(m.index(c.getAllVariables()[z]))) x.push_back(row[z]); ev.insert(x); }
      REQ(ev.size() == tot, "evidences covered ", ev.size(), " of ", tot);
    }
    REQ(throws([&] { c.makeTrainSet(Ctxt{1, 1, 3, 1}, -0.1f); }) && throws([&] { c.makeTrainSet(Ctxt{1, 1, 3, 1}, 1.1f); }), "percentage");
  }
  CrfProbe c2{c};
  REQ(names(c2.getObservedVariables()) == names(c.getObservedVariables()), "copy's observed variables");
  for (auto &[v, x] : c.getEvidences()) REQ(c2.getEvidences().find(v)->second == x, "copy's evidence");
}, 250, 2500});
} // namespace
