// C01..C08, C15: categoric, factor and train-set layers, through public API
#include "common.h"
#include <EasyFactorGraph/structure/SpecialFactors.h>
#include <EasyFactorGraph/trainable/TrainSet.h>
#include <algorithm>
#include <limits>
using namespace vh;
namespace cat = EFG::categoric;
namespace fac = EFG::factor;
namespace {
// the first cases enumerate all small shapes, later ones are random
Comb pick_sizes(Rng &r, std::uint64_t k, std::size_t maxlen = 4, std::size_t maxsz = 4) {
  static std::vector<Comb> small = [] {
    std::vector<Comb> v;
    for (std::size_t n = 1; n <= 3; ++n) {
      Comb lim(n, 3);
      for (std::size_t q = 0; q < prod(lim); ++q) {
        Comb c = unrank(lim, q);
        for (auto &x : c) ++x;
        v.push_back(c);
      }
    }
    return v;
  }();
  if (k < small.size()) return small[k];
  Comb s(1 + r.below(maxlen));
  for (auto &x : s) x = 1 + r.below(maxsz);
  return s;
}
VariablesSoup mk_vars(const Comb &sizes, const std::string &pfx = "v") {
  VariablesSoup v;
  for (std::size_t k = 0; k < sizes.size(); ++k)
    v.push_back(make_variable(sizes[k], pfx + std::to_string(k)));
  return v;
}
bool rclose(double a, double b, double tol) {
  return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + 1e-36;
}
float pick_scale(Rng &r) { // images of any magnitude
  if (r.chance(65)) return 1.f;
  float s = 1.f;
  for (std::size_t q = 1 + r.below(7); q > 0; --q) s *= 0.1f;
  return s;
}
// random table on f, recorded in t
void fill(Rng &r, Factor &f, Table &t, int pct, float scale = 1.f) {
  Comb sz = sizes_of(f.function().vars().getVariables());
  for (std::size_t q = 0; q < prod(sz); ++q)
    if (r.chance(pct)) {
      Comb c = unrank(sz, q);
      float v = r.chance(15) ? 0.f : r.img() * scale;
      f.set(c, v);
      t[c] = v;
    }
}

// ------------------------------------------------------------------- C01
Reg c01({"C01", [](Rng &r, std::uint64_t k) {
  Comb sz = pick_sizes(r, k, 5, 4);
  note("sizes ", str(sz));
  bool byGroup = r.chance(50);
  auto mk = [&] { return byGroup ? GroupRange{Group{mk_vars(sz)}} : GroupRange{sz}; };
  std::size_t n = prod(sz), cut = r.below(n);
  GroupRange it = mk();
  std::unique_ptr<GroupRange> copy;
  for (std::size_t q = 0; q < n; ++q) {
    REQ(it != cat::RANGE_END && !(it == cat::RANGE_END), "ended after ", q, " of ", n);
    REQ(*it == unrank(sz, q), "step ", q, " gives ", str(*it));
    REQ(it->size() == sz.size(), "arrow");
    GroupRange other = mk();
    for (std::size_t z = 0; z < std::min<std::size_t>(q, 3); ++z) ++other;
    REQ((other == it) == (std::min<std::size_t>(q, 3) == q), "equality at ", q);
    if (q == cut) copy = std::make_unique<GroupRange>(it);
    GroupRange &res = ++it;
    REQ(&res == &it, "++ returns itself");
  }
  REQ(it == cat::RANGE_END && !(it != cat::RANGE_END), "not exhausted after ", n);
  REQ(throws([&] { ++it; }), "advancing the end");
  GroupRange endcopy{it};
  REQ(endcopy == it && endcopy == cat::RANGE_END && endcopy == GroupRange::end(), "copy of the end");
  for (std::size_t q = cut; q < n; ++q) {
    REQ(**copy == unrank(sz, q), "copy at ", q);
    REQ(*copy != it, "copy is not exhausted");
    ++*copy;
  }
  REQ(*copy == it && *copy == cat::RANGE_END, "copy exhausted");
  GroupRange all = mk();
  std::vector<Comb> seen;
  cat::for_each_combination(all, [&](const Comb &c) { seen.push_back(c); });
  REQ(seen.size() == n, "for_each count ", seen.size());
  for (std::size_t q = 0; q < n; ++q) REQ(seen[q] == unrank(sz, q), "for_each at ", q);
  // iterations over different shapes
  Comb sz2 = pick_sizes(r, 1000, 3, 3);
  GroupRange o{sz2};
  GroupRange f{sz};
  if (sz2.size() == sz.size()) REQ(f == o, "both at all zeros"); else REQ(f != o, "different lengths");
}, 300, 4000});
Reg c01b({"C01", [](Rng &r, std::uint64_t) {
  // construction must not depend on the joint size being materialised
  std::size_t n = 20 + r.below(20);
  Comb sz(n, 2);
  GroupRange it{Group{mk_vars(sz)}};
  note("binary variables ", n);
  for (std::size_t q = 0; q < 50; ++q) { REQ(*it == unrank(sz, q), "step ", q); ++it; }
}, 10, 20});

// ------------------------------------------------------------------- C02
void agree(const fac::Immutable &f, const Table &t) {
  Comb sz = sizes_of(f.function().vars().getVariables());
  same_table(f, t, "findImage");
  std::size_t q = 0;
  f.function().forEachCombination<false>([&](const Comb &c, float v) {
    REQ(q < prod(sz) && c == unrank(sz, q), "enumeration step ", q, " gives ", str(c));
    REQ(v == at(t, c), "enumeration value at ", str(c), " is ", v, " expected ", at(t, c));
    ++q;
  });
  REQ(q == prod(sz), "enumeration visits ", q);
  std::map<Comb, int> cnt;
  f.function().forEachNonNullCombination<false>([&](const Comb &c, float v) {
    ++cnt[c];
    REQ(v == at(t, c), "non null value at ", str(c), " is ", v, " expected ", at(t, c));
    REQ(v != 0, "null entry visited at ", str(c));
  });
  for (const auto &[c, v] : t)
    if (v != 0) REQ(cnt[c] == 1, "non null entry ", str(c), " visited ", cnt[c], " times");
  f.function().forEachNonNullCombination<true>([&](const Comb &c, float v) {
    REQ(v == f.function().findTransformed(c), "transformed non null value");
  });
  f.function().forEachCombination<true>([&](const Comb &c, float v) {
    REQ(v == f.function().findTransformed(c), "transformed value");
  });
}
Reg c02({"C02", [](Rng &r, std::uint64_t k) {
  Comb sz = pick_sizes(r, k, 4, 5);
  note("sizes ", str(sz));
  Group g{mk_vars(sz)};
  Factor f{g};
  Table t;
  agree(f, t);
  std::size_t steps = 3 + r.below(2 * prod(sz) + 4);
  for (std::size_t q = 0; q < steps; ++q) {
    if (r.chance(3)) { f.clear(); t.clear(); note("clear"); }
    else if (r.chance(3)) {
      Factor o{f};
      same_table(o, t, "copy");
      Comb c = unrank(sz, r.below(prod(sz)));
      o.set(c, 77.f);
      same_table(f, t, "original after writing the copy");
      f.set(c, 78.f); t[c] = 78.f;
      REQ(o.function().findImage(c) == 77.f, "copy after writing the original");
      note("copy, write ", str(c), "=78");
    } else {
      Comb c = unrank(sz, r.below(prod(sz)));
      float v = r.chance(20) ? 0.f : r.img();
      f.set(c, v); t[c] = v;
      note("set ", str(c), "=", v);
    }
    agree(f, t);
  }
}, 150, 1500});
Reg c02b({"C02", [](Rng &r, std::uint64_t k) {
  // image copies between tables, through the switch of storage
  Comb sz = pick_sizes(r, 30 + k, 3, 4);
  note("sizes ", str(sz));
  VariablesSoup vs = mk_vars(sz);
  struct F : fac::Function { using fac::Function::Function; };
  F a{Group{vs}}, b{Group{vs}};
  Table ta, tb;
  for (int q = 0; q < 40; ++q) {
    Comb c = unrank(sz, r.below(prod(sz)));
    if (r.chance(15)) { b.cloneImages(a); tb = ta; note("b:=a"); }
    else if (r.chance(10)) { a.clear(); ta.clear(); note("a.clear"); }
    else { float v = r.img(); (r.chance(50) ? (ta[c] = v, a.set(c, v)) : (tb[c] = v, b.set(c, v))); }
    for (std::size_t z = 0; z < prod(sz); ++z) {
      Comb x = unrank(sz, z);
      REQ(a.findImage(x) == at(ta, x), "a at ", str(x));
      REQ(b.findImage(x) == at(tb, x), "b at ", str(x));
    }
  }
}, 60, 600});

// ------------------------------------------------------------------- C03
Reg c03({"C03", [](Rng &r, std::uint64_t k) {
  Comb sz = pick_sizes(r, k, 4, 4);
  note("sizes ", str(sz));
  Factor f{Group{mk_vars(sz)}};
  Table t;
  fill(r, f, t, r.below(101));
  for (int q = 0; q < 12; ++q) {
    Comb c = unrank(sz, r.below(prod(sz)));
    float v = r.img();
    bool good = true;
    switch (r.below(7)) {
    case 0: v = -v; good = false; break;
    case 1: { std::size_t p = r.below(c.size()); c[p] = sz[p] + (r.chance(60) ? 0 : r.below(5)); good = false; } break;
    case 2: c.push_back(0); good = false; break;
    case 3: c.pop_back(); good = false; break;
    case 4: { std::size_t p = c.size() - 1; c[p] = sz[p]; good = false; } break;
    case 5: v = 0; break;
    }
    note("set ", str(c), "=", v);
    bool thrown = throws([&] { f.set(c, v); });
    REQ(thrown == !good, "write of ", v, " at ", str(c), thrown ? " refused" : " accepted");
    if (good) t[c] = v;
    same_table(f, t, "after a write");
  }
  REQ(throws([&] { make_variable(0, "x"); }), "size 0");
  REQ(throws([&] { make_variable(1 + r.below(5), ""); }), "empty name");
  std::size_t s = 1 + r.below(4);
  auto var = make_variable(s, "x");
  REQ(var->size() == s && var->name() == "x", "variable content");
  for (std::size_t v = 0; v < s + 3; ++v)
    REQ(throws([&] { fac::Indicator(var, v); }) == (v >= s), "indicator ", v, " of ", s);
  bool same = sz.size() >= 2 && std::all_of(sz.begin(), sz.end(), [&](auto x) { return x == sz[0]; });
  REQ(throws([&] { Factor(Group{mk_vars(sz)}, Factor::SimplyCorrelatedTag{}); }) == !same, "correlating ", str(sz));
  REQ(throws([&] { Factor(Group{mk_vars(sz)}, Factor::SimplyAntiCorrelatedTag{}); }) == !same, "anti-correlating ", str(sz));
}, 300, 3000});

// ------------------------------------------------------------------- C04
void group_is(const Group &g, const VariablesSoup &v, bool same = true) {
  if (!same) { REQ(g.size() == prod(sizes_of(v)), "joint size ", g.size(), " expected ", prod(sizes_of(v))); return; }
  REQ(g.getVariables() == v, "order");
  REQ(g.getVariablesSet().size() == v.size(), "set view size ", g.getVariablesSet().size());
  for (const auto &x : v) REQ(g.getVariablesSet().count(x) == 1, "set view misses ", x->name());
  REQ(g.size() == prod(sizes_of(v)), "joint size ", g.size());
}
Reg c04({"C04", [](Rng &r, std::uint64_t k) {
  Comb sz = pick_sizes(r, k, 5, 3);
  VariablesSoup v = mk_vars(sz);
  note("sizes ", str(sz));
  VariablesSoup twin = mk_vars(sz); // equal variables, other instances
  Group g{v};
  group_is(g, v);
  group_is(Group{v[0]}, {v[0]});
  if (v.size() >= 2) {
    group_is(Group{v[0], v[1]}, {v[0], v[1]});
    REQ(throws([&] { Group(v[0], v[0]); }), "two equal");
    REQ(throws([&] { Group(v[0], v[1], twin[0]); }), "three with a twin");
    if (v.size() >= 3) group_is(Group{v[2], v[0], v[1]}, {v[2], v[0], v[1]});
  }
  REQ(throws([&] { Group(VariablesSoup{}); }), "empty");
  { VariablesSoup d = v; d.insert(d.begin() + r.below(d.size() + 1), twin[r.below(v.size())]);
    REQ(throws([&] { Group{d}; }), "duplicate"); }
  { std::size_t p = r.below(v.size());
    REQ(throws([&] { g.add(r.chance(50) ? v[p] : twin[p]); }), "adding an element again");
    group_is(g, v); }
  auto extra = make_variable(1 + r.below(3), "extra");
  { VariablesSoup e = v; e.push_back(extra); g.add(extra); group_is(g, e);
    REQ(throws([&] { g.add(extra); }), "extra twice"); group_is(g, e); }
  // replacements
  for (int q = 0; q < 8; ++q) {
    Group h{v};
    VariablesSoup n = mk_vars(sz, "n");
    bool good = true;
    std::string what;
    switch (r.below(6)) {
    case 0: what = "fine"; break;
    case 1: { std::size_t p = r.below(n.size()); n[p] = make_variable(sz[p] + 1, "n" + std::to_string(p)); good = false; what = "size"; } break;
    case 2: n.push_back(make_variable(2, "z")); good = false; what = "longer"; break;
    case 3: n.pop_back(); good = false; what = "shorter"; break;
    case 4: n.push_back(n[r.below(n.size())]); good = false; what = "longer by a repeated variable"; break;
    case 5: if (n.size() >= 2) { n[n.size() - 1] = n[0]; good = false; what = "repeated"; } break;
    }
    note("replace: ", what);
    REQ(throws([&] { h.replaceVariables(n); }) == !good, what);
    group_is(h, good ? n : v);
  }
  // sets
  VariablesSet a, b;
  VariablesSoup pool = mk_vars(Comb(8, 2), "s");
  std::set<std::string> na, nb;
  for (auto &x : pool) {
    if (r.chance(50)) { a.emplace(x); na.insert(x->name()); }
    if (r.chance(50)) { b.emplace(x); nb.insert(x->name()); }
  }
  VariablesSet a2 = a, comp = cat::get_complementary(a, b);
  VariablesSet &ret = (a2 -= b);
  REQ(&ret == &a2, "-= returns its subject");
  for (auto *s : {&a2, &comp}) {
    std::set<std::string> got;
    for (auto &x : *s) got.insert(x->name());
    std::set<std::string> exp;
    for (auto &x : na) if (!nb.count(x)) exp.insert(x);
    REQ(got == exp && s->size() == exp.size(), "difference ", str(got), " expected ", str(exp));
  }
  REQ(a.size() == na.size() && b.size() == nb.size(), "operands of get_complementary");
  VariablesSet vs = cat::to_vars_set(v);
  REQ(vs.size() == v.size(), "to_vars_set");
  { VariablesSoup sh = v; std::reverse(sh.begin(), sh.end()); REQ((Group{v} == Group{sh}), "equal groups"); }
  { // joint sizes of any magnitude (nothing is enumerated)
    Comb big(2 + r.below(4));
    std::size_t bits = 60 / big.size();
    for (auto &x : big) x = 1 + r.below(std::size_t(1) << (1 + r.below(bits)));
    note("big group ", str(big));
    group_is(Group{mk_vars(big, "big")}, mk_vars(big, "big"), false);
  }
}, 300, 3000});

// ------------------------------------------------------------------- C05
struct Op { std::shared_ptr<fac::Immutable> f; VariablesSoup vars; Table t; };
Op mk_op(Rng &r, const VariablesSoup &vars) {
  Op o;
  o.vars = vars;
  auto f = std::make_shared<Factor>(Group{vars});
  Table t;
  fill(r, *f, t, 30 + r.below(71), pick_scale(r));
  if (r.chance(25)) {
    float w = r.weight();
    auto e = std::make_shared<FactorExponential>(*f, w);
    Comb sz = sizes_of(vars);
    for (std::size_t q = 0; q < prod(sz); ++q) { Comb c = unrank(sz, q); o.t[c] = expf(w * at(t, c)); }
    o.f = e;
  } else { o.f = f; o.t = t; }
  return o;
}
Comb project(const Comb &c, const VariablesSoup &big, const VariablesSoup &small) {
  Comb res;
  for (auto &v : small) res.push_back(c[std::find(big.begin(), big.end(), v) - big.begin()]);
  return res;
}
Reg c05({"C05", [](Rng &r, std::uint64_t k) {
  Comb sz(3 + r.below(2));
  for (auto &x : sz) x = 1 + r.below(3);
  VariablesSoup pool = mk_vars(sz);
  std::vector<Op> ops;
  std::size_t n = 1 + r.below(4);
  std::set<VariablePtr> uni;
  for (std::size_t q = 0; q < n; ++q) {
    VariablesSoup vs;
    if (q > 0 && r.chance(35)) vs = ops[r.below(q)].vars;  // same group again, maybe re-ordered
    else for (auto &v : pool) if (r.chance(50)) vs.push_back(v);
    if (vs.empty()) vs.push_back(pool[0]);
    for (std::size_t z = vs.size(); z > 1; --z) if (r.chance(60)) std::swap(vs[z - 1], vs[r.below(z)]);
    ops.push_back(mk_op(r, vs));
    uni.insert(vs.begin(), vs.end());
    std::string nm; for (auto &v : vs) nm += v->name() + ":" + std::to_string(v->size()) + " ";
    note("operand over ", nm);
  }
  std::vector<const Immutable *> ptr;
  for (auto &o : ops) ptr.push_back(o.f.get());
  Factor m{ptr};
  const auto &mv = m.function().vars().getVariables();
  REQ(mv.size() == uni.size() && std::set<VariablePtr>(mv.begin(), mv.end()) == uni, "variables of the merge");
  auto check_merge = [&](const Immutable &mm) {
    const auto &vv = mm.function().vars().getVariables();
    Comb ms = sizes_of(vv);
    for (std::size_t q = 0; q < prod(ms); ++q) {
      Comb c = unrank(ms, q);
      double e = 1;
      for (auto &o : ops) e *= at(o.t, project(c, vv, o.vars));
      float got = mm.function().findTransformed(c);
      REQ(rclose(got, e, 1e-5), "merge at ", str(c), " is ", got, " expected ", e);
      if (e == 0) REQ(got == 0, "merge zero at ", str(c));
    }
  };
  check_merge(m);
  if (n == 2) check_merge(Factor::merge(*ptr[0], *ptr[1]));
  if (n == 3) check_merge(Factor::merge(*ptr[0], *ptr[1], *ptr[2]));
  // permutation
  {
    VariablesSoup nv = mv;
    for (std::size_t z = nv.size(); z > 1; --z) std::swap(nv[z - 1], nv[r.below(z)]);

    Factor p = m.cloneWithPermutedGroup(Group{nv});
    REQ(p.function().vars().getVariables() == nv, "order of the permuted factor");
    Comb ms = sizes_of(mv);
    for (std::size_t q = 0; q < prod(ms); ++q) {
      Comb c = unrank(ms, q), d(c.size());
      for (std::size_t i = 0; i < c.size(); ++i)
        for (std::size_t j = 0; j < nv.size(); ++j)
          if (nv[j]->name() == mv[i]->name()) d[j] = c[i];
      REQ(p.function().findImage(d) == m.function().findImage(c), "permuted image at ", str(c), " -> ", str(d));
    }
    VariablesSoup wrong = nv;
    if (r.chance(50)) wrong.push_back(make_variable(2, "zz")); else wrong[0] = make_variable(wrong[0]->size(), "zz");
    REQ(throws([&] { m.cloneWithPermutedGroup(Group{wrong}); }), "not a permutation");
  }
  // copies
  {
    Factor c{m};
    REQ(c.function().vars().getVariables() == mv, "copy's variables");
    Comb ms = sizes_of(mv);
    for (std::size_t q = 0; q < prod(ms); ++q)
      REQ(c.function().findImage(unrank(ms, q)) == m.function().findImage(unrank(ms, q)), "copy");
    for (auto &o : ops) {
      Factor d{*o.f, Factor::CloneTrasformedImagesTag{}};
      REQ(d.function().vars().getVariables() == o.vars, "clone's variables");
      same_table(d, o.t, "clone of the transformed images");
    }
  }
  // finders
  for (auto &o : ops) {
    VariablesSoup big = pool;
    for (std::size_t z = big.size(); z > 1; --z) std::swap(big[z - 1], big[r.below(z)]);
    auto fd = o.f->makeFinder(big);
    Comb bs = sizes_of(big);
    for (std::size_t q = 0; q < prod(bs); ++q) {
      Comb c = unrank(bs, q), s = project(c, big, o.vars);
      REQ(fd.findImage(c) == o.f->function().findImage(s), "finder at ", str(c));
      REQ(fd.findTransformed(c) == at(o.t, s), "finder, transformed, at ", str(c));
    }
    VariablesSoup miss;
    for (auto &v : big) if (v != o.vars[0]) miss.push_back(v);
    miss.push_back(make_variable(o.vars[0]->size(), "other"));
    REQ(throws([&] { o.f->makeFinder(miss); }), "missing variable");
  }
  // same variable, two instances
  {
    auto a = make_variable(2, "dup"), b = make_variable(2, "dup");
    Factor fa{Group{a}}, fb{Group{b}};
    REQ(throws([&] { Factor::merge(fa, fb); }), "two instances of one variable");
    REQ(throws([&] { Factor{std::vector<const Immutable *>{}}; }), "no operands");
  }
}, 400, 4000});
Reg c05b({"C05", [](Rng &r, std::uint64_t k) {
  std::size_t n = 2 + k % 3, s = 1 + (k / 3) % 5;
  Group g{mk_vars(Comb(n, s))};
  note("correlation of ", n, " variables of size ", s);
  Factor c{g, Factor::SimplyCorrelatedTag{}}, a{g, Factor::SimplyAntiCorrelatedTag{}};
  for (std::size_t q = 0; q < prod(Comb(n, s)); ++q) {
    Comb x = unrank(Comb(n, s), q);
    bool same = std::all_of(x.begin(), x.end(), [&](auto z) { return z == x[0]; });
    REQ(c.function().findImage(x) == (same ? 1.f : 0.f), "correlated at ", str(x));
    REQ(a.function().findImage(x) == (same ? 0.f : 1.f), "anti-correlated at ", str(x));
  }
  // still a regular factor afterwards
  Comb x = unrank(Comb(n, s), r.below(prod(Comb(n, s))));
  c.set(x, 3.f); a.set(x, 4.f);
  REQ(c.function().findImage(x) == 3.f && a.function().findImage(x) == 4.f, "write afterwards");
}, 15, 15});

// ------------------------------------------------------------------- C06
Reg c06({"C06", [](Rng &r, std::uint64_t k) {
  Comb sz = pick_sizes(r, k, 3, 4);
  Factor f{Group{mk_vars(sz)}};
  Table t;
  float sc = pick_scale(r);
  fill(r, f, t, r.below(101), sc);
  const float big = r.chance(50) ? 1.f / sc : 1.f; // small images, large weights
  float w = r.chance(20) ? 1.f : r.weight() * big;
  note("sizes ", str(sz), " weight ", w);
  FactorExponential e = w == 1.f ? FactorExponential{f} : FactorExponential{f, w};
  auto check = [&](const FactorExponential &x, float ww, const char *what) {
    REQ(x.getWeight() == ww, what, ": weight");
    same_table(x, t, what);
    for (std::size_t q = 0; q < prod(sz); ++q) {
      Comb c = unrank(sz, q);
      float exp = expf(ww * at(t, c));
      REQ(rclose(x.function().findTransformed(c), exp, 2e-6), what, " at ", str(c), " reads ",
          x.function().findTransformed(c), " expected ", exp);
    }
    std::size_t q = 0;
    x.function().forEachCombination<true>([&](const Comb &c, float v) {
      REQ(c == unrank(sz, q) && rclose(v, expf(ww * at(t, c)), 2e-6), what, ": enumeration at ", str(c));
      ++q;
    });
    REQ(q == prod(sz), "enumeration");
  };
  check(e, w, "fresh");
  FactorExponential copy{e};
  check(copy, w, "copy");
  Comb c0 = unrank(sz, r.below(prod(sz)));
  f.set(c0, 55.f);
  if (r.chance(50)) f.clear();
  check(e, w, "after a change of the source");
  float w2 = r.weight() * big;
  e.setWeight(w2);
  check(e, w2, "after setWeight");
  check(copy, w, "copy after setWeight on the original");
  copy.setWeight(0.f);
  check(copy, 0.f, "copy with its own weight");
  check(e, w2, "original after setWeight on the copy");
  FactorExponential copy2{e};
  check(copy2, w2, "copy of a re-weighted factor");
}, 200, 2000});

// ------------------------------------------------------------------- C07
void probs_ok(const Immutable &f, const std::vector<double> &img) {
  auto p = f.getProbabilities();
  REQ(p.size() == img.size(), "length ", p.size());
  double s = 0, z = 0;
  for (auto x : img) z += x;
  for (std::size_t q = 0; q < p.size(); ++q) {
    s += p[q];
    double e = z == 0 ? 1.0 / p.size() : img[q] / z;
    REQ(p[q] >= 0 && close(p[q], e, 1e-4), "entry ", q, " is ", p[q], " expected ", e);
  }
  REQ(close(s, 1, 1e-3), "sum ", s);
}
Reg c07({"C07", [](Rng &r, std::uint64_t k) {
  Comb sz = pick_sizes(r, k, 3, 4);
  Factor f{Group{mk_vars(sz)}};
  Table t;
  fill(r, f, t, r.chance(20) ? 0 : r.below(101));
  note("sizes ", str(sz));
  float scale = r.chance(60) ? 1.f : (r.chance(70) ? pick_scale(r) * 1e-2f : 1e4f);
  for (auto &[c, v] : t) { v *= scale; f.set(c, v); }
  std::vector<double> img, eimg;
  float w = r.weight();
  FactorExponential e{f, scale > 1 ? 0.f : w};
  for (std::size_t q = 0; q < prod(sz); ++q) {
    img.push_back(at(t, unrank(sz, q)));
    eimg.push_back(expf(e.getWeight() * at(t, unrank(sz, q))));
  }
  probs_ok(f, img);
  same_table(f, t, "after getProbabilities");
  probs_ok(f, img);
  probs_ok(e, eimg);
  same_table(e, t, "exponential after getProbabilities");
}, 300, 3000});

// ------------------------------------------------------------------- C08
using fac::UnaryFactor;
Reg c08({"C08", [](Rng &r, std::uint64_t k) {
  std::size_t na = 1 + r.below(4), nb = 1 + r.below(4);
  auto A = make_variable(na, "A"), B = make_variable(nb, "B"), C = make_variable(na, "C");
  bool ab = r.chance(50);
  VariablesSoup vs = ab ? VariablesSoup{A, B} : VariablesSoup{B, A};
  int pct = r.chance(15) ? 0 : 20 + r.below(81);
  auto raw = std::make_shared<Factor>(Group{vs});
  Table t;
  fill(r, *raw, t, pct, pick_scale(r));
  std::shared_ptr<Immutable> bin = raw;
  float w = r.weight();
  bool expo = r.chance(30);
  if (expo) bin = std::make_shared<FactorExponential>(*raw, w);
  auto phi = [&](std::size_t a, std::size_t b) {
    float x = at(t, ab ? Comb{a, b} : Comb{b, a});
    return expo ? expf(w * x) : x;
  };
  // merged unaries over A
  std::vector<std::shared_ptr<Factor>> us;
  std::vector<std::vector<double>> ui;
  std::size_t n = 1 + r.below(3);
  for (std::size_t q = 0; q < n; ++q) {
    us.push_back(std::make_shared<Factor>(Group{A}));
    Table ut;
    fill(r, *us.back(), ut, r.chance(10) ? 0 : 70 + r.below(31), pick_scale(r));
    std::vector<double> im;
    for (std::size_t a = 0; a < na; ++a) im.push_back(at(ut, {a}));
    ui.push_back(im);
    note("unary ", str(im));
  }
  note("na ", na, " nb ", nb, " first listed ", ab ? "A" : "B", expo ? " exponential " : " plain ", w);
  std::vector<const Immutable *> up;
  for (auto &u : us) up.push_back(u.get());
  fac::MergedUnaries merged{up};
  std::vector<double> exp(na, 1.0);
  for (auto &im : ui) for (std::size_t a = 0; a < na; ++a) exp[a] *= im[a];
  auto proportional = [&](const Immutable &f, const std::vector<double> &e, const char *what) {
    double sg = 0, se = 0;
    for (std::size_t q = 0; q < e.size(); ++q) {
      double g = f.function().findTransformed({q});
      REQ(std::isfinite(g) && g >= 0, what, " entry ", q, " is ", g);
      sg += g; se += e[q];
    }
    REQ((sg == 0) == (se == 0), what, ": scale, sum is ", sg, " expected ", se);
    for (std::size_t q = 0; q < e.size(); ++q) {
      double g = f.function().findTransformed({q});
      if (se > 0) REQ(close(g / sg, e[q] / se, 1e-4), what, " entry ", q, " share ", g / sg, " expected ", e[q] / se);
    }
  };
  REQ(merged.getVariable() == A, "merged variable");
  REQ(merged.function().vars().getVariables() == VariablesSoup{A}, "merged group");
  proportional(merged, exp, "merged unaries");
  probs_ok(merged, exp);
  fac::MergedUnaries ones{A};
  for (std::size_t a = 0; a < na; ++a) REQ(ones.function().findTransformed({a}) == 1.f, "all ones");
  std::vector<double> bel;
  for (std::size_t a = 0; a < na; ++a) bel.push_back(merged.function().findTransformed({a}));
  fac::MessageSUM ms{merged, *bin};
  fac::MessageMAP mm{merged, *bin};
  REQ(ms.getVariable() == B && mm.getVariable() == B, "receiver");
  for (std::size_t b = 0; b < nb; ++b) {
    double s = 0, m = 0;
    for (std::size_t a = 0; a < na; ++a) { double v = bel[a] * phi(a, b); s += v; m = std::max(m, v); }
    REQ(rclose(ms.function().findTransformed({b}), s, 1e-5), "sum message at ", b, " is ",
        ms.function().findTransformed({b}), " expected ", s);
    REQ(rclose(mm.function().findTransformed({b}), m, 1e-5), "max message at ", b);
    if (m == 0) REQ(mm.function().findTransformed({b}) == 0, "max message at ", b, " of zeros is ",
                    mm.function().findTransformed({b}));
  }
  // slices
  for (std::size_t a = 0; a < na; ++a) {
    fac::Evidence ev{*bin, A, a};
    REQ(ev.getVariable() == B, "slice variable");
    for (std::size_t b = 0; b < nb; ++b)
      REQ(rclose(ev.function().findTransformed({b}), phi(a, b), 1e-6), "slice A=", a, " at ", b);
  }
  for (std::size_t b = 0; b < nb; ++b) {
    fac::Evidence ev{*bin, B, b};
    REQ(ev.getVariable() == A, "slice variable");
    for (std::size_t a = 0; a < na; ++a)
      REQ(rclose(ev.function().findTransformed({a}), phi(a, b), 1e-6), "slice B=", b, " at ", a);
  }
  std::size_t v = r.below(na);
  fac::Indicator ind{A, v};
  for (std::size_t a = 0; a < na; ++a) REQ(ind.function().findImage({a}) == (a == v ? 1.f : 0.f), "indicator");
  // distance
  auto p1 = merged.getProbabilities(), p2 = ones.getProbabilities();
  double d = 0;
  for (std::size_t a = 0; a < na; ++a) d += std::fabs(p1[a] - p2[a]);
  REQ(close(merged.diff(ones), d, 1e-4) && close(ones.diff(merged), d, 1e-4), "distance ", merged.diff(ones), " expected ", d);
  REQ(close(merged.diff(merged), 0, 1e-6), "self distance");
  // refusals
  Factor otherVar{Group{B}}, twin{Group{make_variable(na, "A")}}, big{Group{A, B}}, three{Group{A, B, C}};
  for (const Immutable *x : {(const Immutable *)&otherVar, (const Immutable *)&twin, (const Immutable *)&big}) {
    REQ(throws([&] { fac::MergedUnaries m2{std::vector<const Immutable *>{us[0].get(), x}}; }), "merge of a foreign factor");
    REQ(throws([&] { fac::MergedUnaries m2{A}; m2.merge(*x); }), "merge() of a foreign factor");
  }
  REQ(throws([&] { fac::Evidence(three, A, 0); }) && throws([&] { fac::Evidence(*us[0], A, 0); }), "slice arity");
  REQ(throws([&] { fac::MessageSUM(merged, three); }) && throws([&] { fac::MessageSUM(merged, *us[0]); }), "sum arity");
  REQ(throws([&] { fac::MessageMAP(merged, three); }) && throws([&] { fac::MessageMAP(merged, *us[0]); }), "max arity");
}, 400, 4000});

// ------------------------------------------------------------------- C15
using EFG::train::TrainSet;
Reg c15({"C15", [](Rng &r, std::uint64_t k) {
  std::size_t rows = r.below(12), len = r.below(4);
  std::vector<Comb> data(rows, Comb(len));
  std::size_t ctr = 0;
  for (auto &row : data) for (auto &x : row) x = ++ctr * 3 + r.below(2);
  bool uniform = true;
  if (rows > 1 && r.chance(30)) {
    std::size_t p = r.below(rows);
    if (r.chance(30)) data[p].clear();
    else if (r.chance(50) || !len) data[p].push_back(1);
    else data[p].pop_back();
  }
  for (auto &row : data) uniform = uniform && row.size() == data[0].size() && !row.empty();
  bool good = rows > 0 && uniform;
  note("rows ", rows, " length ", len, " uniform ", uniform);
  REQ(throws([&] { TrainSet{data}; }) == !good, "construction");
  if (!good) return;
  TrainSet ts{data};
  REQ(ts.getCombinations() == data, "stored combinations");
  auto all = ts.makeIterator();
  std::vector<Comb> seen;
  all.forEachSample([&](const Comb &c) { seen.push_back(c); });
  REQ(seen == data && all.size() == data.size(), "full iteration");
  for (float p : {0.f, -0.5f, 1.0001f, 2.f}) REQ(throws([&] { ts.makeSubSetIterator(p); }), "percentage ", p);
  float p = static_cast<float>(1 + r.below(1000)) / 1000.f;
  auto sub = ts.makeSubSetIterator(p);
  seen.clear();
  sub.forEachSample([&](const Comb &c) { seen.push_back(c); });
  std::size_t e = p == 1.f ? rows : static_cast<std::size_t>(floorf(p * rows));
  REQ(seen.size() == e && sub.size() == e, "subset of ", p, " has ", seen.size(), " expected ", e);
  for (auto &c : seen) REQ(std::find(data.begin(), data.end(), c) != data.end(), "not an element ", str(c));
  auto one = ts.makeSubSetIterator(1.f);
  seen.clear();
  one.forEachSample([&](const Comb &c) { seen.push_back(c); });
  REQ(seen == data, "percentage 1");
  // iterators outlive the set
  auto it = std::make_unique<TrainSet>(data)->makeIterator();
  seen.clear();
  it.forEachSample([&](const Comb &c) { seen.push_back(c); });
  REQ(seen == data, "iterator of a destroyed set");
}, 500, 5000});
} // namespace
