"""Specification functions (ghost) and lemmas. Every axiom offered to the verifier is either a definition or a
lemma whose inductive proof is discharged by z3 on every run (prove_lemmas)."""
import z3, time
from z3 import *
from sorts import *

VI = VecDT.of(IntSort())
AI = z3.ArraySort(IntSort(), IntSort())
AR = z3.ArraySort(IntSort(), RealSort())


class Spec:
    def __init__(self):
        V = VI.sort
        I, R, B = IntSort(), RealSort(), BoolSort()
        self.prodS = z3.Function('prodS', V, I, I)
        self.rankS = z3.Function('rankS', V, V, I, I)
        self.unrank = z3.Function('unrank', V, I, V)
        self.inDom = z3.Function('inDom', V, V, B)
        self.iw = z3.Function('inDom_w', V, V, I)
        self.posd = z3.Function('posdims', V, B)
        self.pw = z3.Function('posdims_w', V, I)
        self.rank = z3.Function('rank', V, V, I)
        self.tot = z3.Function('tot', V, I)
        self.horner = z3.Function('horner', V, V, I, I)
        self.agree_w = z3.Function('agree_w', V, V, I, I)
        self.sum = {'R': z3.Function('sumR', AR, I, R), 'I': z3.Function('sumI', AI, I, I)}
        self.prod = {'R': z3.Function('prodR', AR, I, R), 'I': z3.Function('prodI', AI, I, I)}
        self.max = {'R': z3.Function('maxR', R, AR, I, R), 'I': z3.Function('maxI', I, AI, I, I)}
        self.axioms = []
        self.groups = {}
        self.lemmas = []
        self.build()

    def fold(self, op, real):
        return {'sum': self.sum, 'prod': self.prod, 'max': self.max}[op]['R' if real else 'I']

    def fold_base(self, op, real, d, init=None):
        F = self.fold(op, real)
        if op == 'max': return F(init, d, I0) == init
        k = {'sum': 0, 'prod': 1}[op]
        return F(d, I0) == (z3.RealVal(k) if real else z3.IntVal(k))

    def fold_step(self, op, real, d, n, e, init=None):
        """F(d,n+1) from F(d,n), valid for n >= 0"""
        F = self.fold(op, real)
        if op == 'sum': return F(d, n + 1) == F(d, n) + e
        if op == 'prod': return F(d, n + 1) == F(d, n) * e
        return F(init, d, n + 1) == z3.If(F(init, d, n) < e, e, F(init, d, n))

    # ---- definitions as instances
    def d_prod(self, s, k):
        return z3.And(z3.Implies(k == VI.len(s), self.prodS(s, k) == 1),
                      z3.Implies(z3.And(0 <= k, k < VI.len(s)), self.prodS(s, k) == VI.at(s, k) * self.prodS(s, k + 1)))

    def d_rank(self, s, c, k):
        return z3.And(z3.Implies(k == VI.len(s), self.rankS(s, c, k) == 0),
                      z3.Implies(z3.And(0 <= k, k < VI.len(s)), self.rankS(s, c, k) == VI.at(c, k) * self.prodS(s, k + 1) + self.rankS(s, c, k + 1)))

    def d_horner(self, s, c, k):
        """the rank of the first k digits; definition and the lemma that is proved by induction below"""
        Hn = self.horner
        r = z3.And(0 <= k, k <= VI.len(s))
        return z3.And(Hn(s, c, I0) == 0, z3.Implies(z3.And(0 <= k, k < VI.len(s)), Hn(s, c, k + 1) == Hn(s, c, k) * VI.at(s, k) + VI.at(c, k)),
                      z3.Implies(z3.And(r, self.posd(s), self.inDom(s, c)), z3.And(0 <= Hn(s, c, k), Hn(s, c, k) <= self.rank(s, c))),
                      z3.Implies(k == VI.len(s), Hn(s, c, k) == self.rank(s, c)))

    def last_lemma(self, s, c, k):
        """digits from k on at their last values, given those from k + 1 on"""
        return z3.Implies(z3.And(0 <= k, k < VI.len(s), VI.at(c, k) >= VI.at(s, k) - 1, VI.at(c, k) < VI.at(s, k), self.rankS(s, c, k + 1) == self.prodS(s, k + 1) - 1),
                          self.rankS(s, c, k) == self.prodS(s, k) - 1)

    def succ_lemma(self, s, c, c2, k, ground=None):
        """c2 is c with the digit k incremented, zeros after it, where c has its last values"""
        j = z3.Int('j?sl')
        at, n0 = VI.at, VI.len(s)
        agree = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), at(c, j) == at(c2, j)), patterns=[at(c2, j)])
        if ground is not None: agree = ground
        return z3.Implies(z3.And(self.posd(s), 0 <= k, k < n0, self.rankS(s, c, k + 1) == self.prodS(s, k + 1) - 1, self.rankS(s, c2, k + 1) == 0, at(c2, k) == at(c, k) + 1, agree),
                          self.rank(s, c2) == self.rank(s, c) + 1)

    def ax(self, group, f):
        self.groups.setdefault(group, []).append(f)
        self.axioms.append(f)

    def lemma(self, name, hyps, goal):
        self.lemmas.append((name, hyps, goal))

    def div_facts(self, a, b, q, r): return []

    def build(self):
        V = VI.sort
        s, c, c2 = z3.Const('s', V), z3.Const('c', V), z3.Const('c2', V)
        k, j, r, m, n = z3.Ints('k j r m n')
        n0 = VI.len(s)
        at = VI.at
        P, RS = self.prodS, self.rankS
        rng = z3.And(0 <= k, k < n0)
        A = self.ax
        # -- definitions
        A('dom', z3.ForAll([s, k], z3.Implies(z3.And(self.posd(s), rng), at(s, k) >= 1), patterns=[z3.MultiPattern(self.posd(s), at(s, k))]))
        w = self.pw(s)
        A('dom', z3.ForAll([s], z3.Or(self.posd(s), z3.And(0 <= w, w < n0, at(s, w) < 1)), patterns=[self.posd(s)]))
        A('dom', z3.ForAll([s, c], z3.Implies(self.inDom(s, c), VI.len(c) == n0), patterns=[self.inDom(s, c)]))
        A('dom', z3.ForAll([s, c, k], z3.Implies(z3.And(self.inDom(s, c), rng), z3.And(0 <= at(c, k), at(c, k) < at(s, k))), patterns=[z3.MultiPattern(self.inDom(s, c), at(c, k)), z3.MultiPattern(self.inDom(s, c), at(s, k))]))
        w = self.iw(s, c)
        A('dom', z3.ForAll([s, c], z3.Or(self.inDom(s, c), VI.len(c) != n0, z3.And(0 <= w, w < n0, z3.Not(z3.And(0 <= at(c, w), at(c, w) < at(s, w))))), patterns=[self.inDom(s, c)]))
        A('dom', z3.ForAll([s, c], self.rank(s, c) == RS(s, c, I0), patterns=[self.rank(s, c)]))
        A('dom', z3.ForAll([s], self.tot(s) == P(s, I0), patterns=[self.tot(s)]))
        A('rec', z3.ForAll([s, k], self.d_prod(s, k), patterns=[z3.MultiPattern(P(s, k), at(s, k))]))
        A('rec', z3.ForAll([s, k], z3.Implies(k == n0, P(s, k) == 1), patterns=[P(s, k)]))
        A('rec', z3.ForAll([s, c, k], self.d_rank(s, c, k), patterns=[z3.MultiPattern(RS(s, c, k), at(c, k)), z3.MultiPattern(RS(s, c, k), at(s, k))]))
        A('rec', z3.ForAll([s, c, k], z3.Implies(k == n0, RS(s, c, k) == 0), patterns=[RS(s, c, k)]))
        posd = self.posd
        inDom = self.inDom
        wf = [VI.wf(s)]
        # -- L1 products are positive and bounded by the total
        h = [n0 >= 0, posd(s), self.posd(s), rng, at(s, k) >= 1, self.d_prod(s, k), P(s, k + 1) >= 1]
        self.lemma('prodS positive: base', [k == n0, k >= 0, self.d_prod(s, k)], P(s, k) >= 1)
        self.lemma('prodS positive: step', h, P(s, k) >= 1)
        A('dom', z3.ForAll([s, k], z3.Implies(z3.And(posd(s), 0 <= k, k <= n0), P(s, k) >= 1), patterns=[P(s, k)]))
        self.lemma('prodS <= tot: step', h + [P(s, k) <= P(s, I0)], P(s, k + 1) <= P(s, I0))
        A('dom', z3.ForAll([s, k], z3.Implies(z3.And(posd(s), 0 <= k, k <= n0), P(s, k) <= P(s, I0)), patterns=[P(s, k)]))
        # -- L2 ranks of in-range combinations
        hr = [n0 >= 0, posd(s), rng, 0 <= at(c, k), at(c, k) < at(s, k), self.d_prod(s, k), self.d_rank(s, c, k), P(s, k + 1) >= 1]
        ih = [0 <= RS(s, c, k + 1), RS(s, c, k + 1) <= P(s, k + 1) - 1]
        self.lemma('rank bounds: base', [k == n0, k >= 0, self.d_prod(s, k), self.d_rank(s, c, k)], z3.And(0 <= RS(s, c, k), RS(s, c, k) <= P(s, k) - 1))
        self.lemma('rank bounds: step (low)', hr + ih, 0 <= RS(s, c, k))
        x = z3.Int('x')
        self.lemma('rank bounds: step (high)', hr + ih + [at(c, k) * P(s, k + 1) <= (at(s, k) - 1) * P(s, k + 1)], RS(s, c, k) <= P(s, k) - 1)
        a_, b_, p_ = z3.Ints('a b p')
        self.lemma('product monotone', [a_ <= b_, p_ >= 0], a_ * p_ <= b_ * p_)
        A('dom', z3.ForAll([s, c, k], z3.Implies(z3.And(inDom(s, c), posd(s), 0 <= k, k <= n0), z3.And(0 <= RS(s, c, k), RS(s, c, k) <= P(s, k) - 1)), patterns=[z3.MultiPattern(inDom(s, c), RS(s, c, k))]))
        self.lemma('rankS <= rank: step', hr + ih + [RS(s, c, k) <= RS(s, c, I0)], RS(s, c, k + 1) <= RS(s, c, I0))
        A('dom', z3.ForAll([s, c, k], z3.Implies(z3.And(inDom(s, c), posd(s), 0 <= k, k <= n0), RS(s, c, k) <= RS(s, c, I0)), patterns=[z3.MultiPattern(inDom(s, c), RS(s, c, k))]))
        self.lemma('last digits: step', [self.d_prod(s, k), self.d_rank(s, c, k), VI.at(c, k) == VI.at(s, k) - 1], self.last_lemma(s, c, k))
        # -- L2b the rank digit by digit from the first one
        Hn = self.horner
        eq = lambda kk: RS(s, c, I0) == Hn(s, c, kk) * P(s, kk) + RS(s, c, kk)
        hh = Hn(s, c, k + 1) == Hn(s, c, k) * at(s, k) + at(c, k)
        self.lemma('rank by digits: base', [Hn(s, c, I0) == 0], eq(I0))
        self.lemma('rank by digits: step', [rng, hh, self.d_prod(s, k), self.d_rank(s, c, k), eq(k)], eq(k + 1))
        self.lemma('rank by digits: last', [k == n0, k >= 0, self.d_prod(s, k), self.d_rank(s, c, k), eq(k)], Hn(s, c, k) == RS(s, c, I0))
        self.lemma('rank by digits: not negative', [rng, hh, Hn(s, c, k) >= 0, at(s, k) >= 1, at(c, k) >= 0], Hn(s, c, k + 1) >= 0)
        self.lemma('rank by digits: bound', [eq(k), Hn(s, c, k) >= 0, P(s, k) >= 1, RS(s, c, k) >= 0], Hn(s, c, k) <= RS(s, c, I0))
        # -- L3 combinations that agree before k
        hd = [rng, self.d_rank(s, c, k), self.d_rank(s, c2, k), at(c, k) == at(c2, k)]
        d = lambda kk: RS(s, c, kk) - RS(s, c2, kk)
        self.lemma('prefix agreement: step', hd + [d(I0) == d(k)], d(I0) == d(k + 1))
        w = self.agree_w(c, c2, k)
        A('odo', z3.ForAll([s, c, c2, k], z3.Implies(z3.And(0 <= k, k <= n0), z3.Or(d(I0) == d(k), z3.And(0 <= w, w < k, at(c, w) != at(c2, w)))),
                           patterns=[z3.MultiPattern(RS(s, c, k), RS(s, c2, k))]))
        self.lemma('successor', [self.d_rank(s, c, k), self.d_rank(s, c2, k), self.rank(s, c) == RS(s, c, I0), self.rank(s, c2) == RS(s, c2, I0)], self.succ_lemma(s, c, c2, k, d(I0) == d(k)))
        # -- L4 combinations that agree from k on
        self.lemma('suffix agreement: base', [k == n0, k >= 0, self.d_rank(s, c, k), self.d_rank(s, c2, k)], RS(s, c, k) == RS(s, c2, k))
        self.lemma('suffix agreement: step', hd + [RS(s, c, k + 1) == RS(s, c2, k + 1)], RS(s, c, k) == RS(s, c2, k))
        self.agree_s = z3.Function('agree_sw', V, V, I_(), I_(), I_())
        w2 = self.agree_s(c, c2, k, n0)
        A('odo', z3.ForAll([s, c, c2, k], z3.Implies(z3.And(0 <= k, k <= n0), z3.Or(RS(s, c, k) == RS(s, c2, k), z3.And(k <= w2, w2 < n0, at(c, w2) != at(c2, w2)))),
                           patterns=[z3.MultiPattern(RS(s, c, k), RS(s, c2, k))]))
        # -- L4b the all-zero combination has rank zero
        self.zero_w = z3.Function('zero_w', V, I_(), I_(), I_())
        w3 = self.zero_w(c, k, n0)
        self.lemma('zero combination: base', [k == n0, k >= 0, self.d_rank(s, c, k)], RS(s, c, k) == 0)
        self.lemma('zero combination: step', [rng, at(c, k) == 0, self.d_rank(s, c, k), RS(s, c, k + 1) == 0], RS(s, c, k) == 0)
        A('odo', z3.ForAll([s, c, k], z3.Implies(z3.And(0 <= k, k <= n0), z3.Or(RS(s, c, k) == 0, z3.And(k <= w3, w3 < n0, at(c, w3) != 0))), patterns=[RS(s, c, k)]))
        # -- L5 rank is injective
        Pn = P(s, k + 1)
        hi = [rng, Pn >= 1, self.d_rank(s, c, k), self.d_rank(s, c2, k), 0 <= RS(s, c, k + 1), RS(s, c, k + 1) < Pn, 0 <= RS(s, c2, k + 1), RS(s, c2, k + 1) < Pn, RS(s, c, k) == RS(s, c2, k)]
        x, y, p, u, v = z3.Ints('x y p u v')
        self.lemma('division is unique', [p >= 1, x * p + u == y * p + v, 0 <= u, u < p, 0 <= v, v < p, z3.Or(x == y, z3.And(x >= y + 1, x * p >= (y + 1) * p), z3.And(y >= x + 1, y * p >= (x + 1) * p))], z3.And(x == y, u == v))
        X, Y = at(c, k), at(c2, k)
        self.lemma('rank injective: step', hi + [z3.Or(X == Y, z3.And(X >= Y + 1, X * Pn >= (Y + 1) * Pn), z3.And(Y >= X + 1, Y * Pn >= (X + 1) * Pn))], z3.And(X == Y, RS(s, c, k + 1) == RS(s, c2, k + 1)))
        # -- L6 every number below the total is the rank of a combination
        q, r1 = z3.Ints('q r1')
        c1 = VI.new(VI.len(c), z3.Store(VI.arr(c), k, q))
        self.lemma('unrank exists: step', [rng, at(s, k) >= 1, Pn >= 1, 0 <= r, r < P(s, k), self.d_prod(s, k), r == q * Pn + r1, 0 <= r1, r1 < Pn, RS(s, c, k + 1) == r1, self.d_rank(s, c1, k), RS(s, c1, k + 1) == RS(s, c, k + 1),
                                           z3.Or(q < at(s, k), z3.And(q >= at(s, k), q * Pn >= at(s, k) * Pn)), z3.Or(q >= 0, z3.And(q <= -1, q * Pn <= -1 * Pn))],
                   z3.And(RS(s, c1, k) == r, 0 <= q, q < at(s, k)))
        A('dom', z3.ForAll([s, r], z3.Implies(z3.And(posd(s), 0 <= r, r < self.tot(s)), z3.And(inDom(s, self.unrank(s, r)), self.rank(s, self.unrank(s, r)) == r, VI.wf(self.unrank(s, r)))), patterns=[self.unrank(s, r)]))
        A('dom', z3.ForAll([s, c], z3.Implies(z3.And(posd(s), inDom(s, c), self.canon(c)), z3.And(0 <= self.rank(s, c), self.rank(s, c) < self.tot(s), self.unrank(s, self.rank(s, c)) == c)), patterns=[self.rank(s, c)]))
        # -- L7 ranks follow the lexicographic order
        self.lemma('lexicographic order', [rng, Pn >= 1, self.d_rank(s, c, k), self.d_rank(s, c2, k), 0 <= RS(s, c, k + 1), RS(s, c, k + 1) <= Pn - 1, 0 <= RS(s, c2, k + 1),
                                           RS(s, c, I0) - RS(s, c2, I0) == RS(s, c, k) - RS(s, c2, k), at(c, k) + 1 <= at(c2, k), (at(c, k) + 1) * Pn <= at(c2, k) * Pn], RS(s, c, I0) < RS(s, c2, I0))
        # -- folds
        for t, AS, S in (('R', AR, RealSort()), ('I', AI, IntSort())):
            real = t == 'R'
            d1, d2 = z3.Const('d1' + t, AS), z3.Const('d2' + t, AS)
            i0 = z3.Const('i0' + t, S)
            for op in ('sum', 'prod', 'max'):
                F = self.fold(op, real)
                f = (lambda dd, mm: F(i0, dd, mm)) if op == 'max' else (lambda dd, mm: F(dd, mm))
                init = i0 if op == 'max' else None
                vs = [i0] if op == 'max' else []
                A('fold', z3.ForAll(vs + [d1, m], z3.Implies(m == 0, z3.substitute(self.fold_base(op, real, d1, init), (I0, m)) if False else f(d1, m) == (i0 if op == 'max' else (S_(0 if op == 'sum' else 1, real)))), patterns=[f(d1, m)]))
                A('fold', z3.ForAll(vs + [d1, m, n], z3.Implies(z3.And(n >= 0, m == n + 1), f(d1, m) == self.step_val(op, f(d1, n), d1[n])), patterns=[z3.MultiPattern(f(d1, m), d1[n])]))
                # congruence
                sk = z3.Function('fw_%s%s' % (op, t), AS, AS, I_(), I_())
                w = sk(d1, d2, m)
                self.lemma('fold %s%s congruence: step' % (op, t), [n >= 0, d1[n] == d2[n], f(d1, n) == f(d2, n), f(d1, n + 1) == self.step_val(op, f(d1, n), d1[n]), f(d2, n + 1) == self.step_val(op, f(d2, n), d2[n])], f(d1, n + 1) == f(d2, n + 1))
                A('fold', z3.ForAll(vs + [d1, d2, m], z3.Or(m < 0, f(d1, m) == f(d2, m), z3.And(0 <= w, w < m, d1[w] != d2[w])), patterns=[z3.MultiPattern(f(d1, m), f(d2, m))]))
        # product becomes and stays zero
        d1 = z3.Const('d1R', AR)
        F = self.prod['R']
        self.lemma('zero product: step', [n >= 0, F(d1, n) == 0, F(d1, n + 1) == F(d1, n) * d1[n]], F(d1, n + 1) == 0)
        A('fold', z3.ForAll([d1, m, n], z3.Implies(z3.And(0 <= n, n <= m, F(d1, n) == 0), F(d1, m) == 0), patterns=[z3.MultiPattern(F(d1, m), F(d1, n))]))
        # sums of non-negative numbers
        F = self.sum['R']
        nw = z3.Function('negw', AR, I_(), I_())
        w = nw(d1, m)
        self.lemma('non-negative sum: step', [n >= 0, d1[n] >= 0, F(d1, n) >= 0, F(d1, n + 1) == F(d1, n) + d1[n]], F(d1, n + 1) >= 0)
        A('fold', z3.ForAll([d1, m], z3.Or(m < 0, F(d1, m) >= 0, z3.And(0 <= w, w < m, d1[w] < 0)), patterns=[F(d1, m)]))
        self.lemma('element of sum: at', [n >= 0, F(d1, n) >= 0, F(d1, n + 1) == F(d1, n) + d1[n]], F(d1, n + 1) >= d1[n])
        self.lemma('element of sum: step', [n >= 0, k < n, F(d1, n) >= d1[k], d1[n] >= 0, F(d1, n + 1) == F(d1, n) + d1[n]], F(d1, n + 1) >= d1[k])
        A('fold', z3.ForAll([d1, m, k], z3.Implies(z3.And(0 <= k, k < m), z3.Or(F(d1, m) >= d1[k], z3.And(0 <= w, w < m, d1[w] < 0))), patterns=[z3.MultiPattern(F(d1, m), d1[k])]))
        # sum of equal/scaled numbers
        self.scale_w = z3.Function('scalew', AR, AR, RealSort(), I_(), I_())
        d2 = z3.Const('d2R', AR)
        S = z3.Real('S')
        self.lemma('scaled sum: step', [n >= 0, d2[n] * S == d1[n], F(d2, n) * S == F(d1, n), F(d1, n + 1) == F(d1, n) + d1[n], F(d2, n + 1) == F(d2, n) + d2[n]], F(d2, n + 1) * S == F(d1, n + 1))
        cst = z3.Real('cst')
        self.lemma('constant sum: step', [n >= 0, d1[n] == cst, F(d1, n) == cst * z3.ToReal(n), F(d1, n + 1) == F(d1, n) + d1[n]], F(d1, n + 1) == cst * z3.ToReal(n + 1))
        # prefix product of the sizes
        PI = self.prod['I']
        arr = VI.arr(s)
        self.lemma('prefix times suffix product: step', [rng, self.d_prod(s, k), PI(arr, k) * P(s, k) == P(s, I0), PI(arr, k + 1) == PI(arr, k) * arr[k]], PI(arr, k + 1) * P(s, k + 1) == P(s, I0))
        A('fold', z3.ForAll([s, k], z3.Implies(z3.And(k == n0, n0 >= 0), PI(arr, k) == self.tot(s)), patterns=[z3.MultiPattern(PI(arr, k), VI.len(s))]))
        da = z3.Const('d1I', AI)
        self.pfw = z3.Function('pfw', AI, V, I_(), I_())
        w = self.pfw(da, s, m)
        self.lemma('prefix product bound', [PI(arr, k) * P(s, k) == P(s, I0), P(s, k) >= 1, PI(arr, k) >= 1, z3.Or(PI(arr, k) <= P(s, I0), z3.And(P(s, k) >= 1, PI(arr, k) > P(s, I0), PI(arr, k) * P(s, k) >= PI(arr, k) * 1))], z3.And(PI(arr, k) <= P(s, I0)))
        self.lemma('prefix product positive: step', [n >= 0, da[n] >= 1, PI(da, n) >= 1, PI(da, n + 1) == PI(da, n) * da[n]], PI(da, n + 1) >= 1)
        A('fold', z3.ForAll([s, k], z3.Implies(z3.And(posd(s), 0 <= k, k <= n0), z3.And(1 <= PI(arr, k), PI(arr, k) <= self.tot(s))), patterns=[z3.MultiPattern(posd(s), PI(arr, k))]))

    def step_val(self, op, a, e):
        if op == 'sum': return a + e
        if op == 'prod': return a * e
        return z3.If(a < e, e, a)

    def canon(self, c):
        # extensional equality of vectors needs the canonical representation, which every value has (sorts.VecDT.wf)
        return self.canonf(c)

    @property
    def canonf(self):
        f = getattr(self, '_canon', None)
        if f is None:
            f = self._canon = z3.Function('canon', VI.sort, BoolSort())
            c = z3.Const('c', VI.sort)
            w = z3.Function('canon_w', VI.sort, IntSort())
            self.ax('dom', z3.ForAll([c], z3.Or(f(c), VI.len(c) < 0, z3.And(z3.Or(w(c) < 0, w(c) >= VI.len(c)), VI.at(c, w(c)) != 0)), patterns=[f(c)]))
        return f

    def prove_lemmas(self):
        res = []
        for name, hyps, goal in self.lemmas:
            t = time.time()
            s = z3.Solver()
            s.set('timeout', 20000)
            for h in hyps: s.add(h)
            s.add(z3.Not(goal))
            r = s.check()
            res.append((name, 'proved' if r == z3.unsat else str(r), time.time() - t))
        return res


def I_(): return IntSort()


def S_(k, real): return z3.RealVal(k) if real else z3.IntVal(k)
