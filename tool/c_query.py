"""Contracts of the queries and of the gradients that are computed from the messages (C11, C14)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from c_node import ACT, DIS, UNA, VAR, MER, MSG, FAC as CFAC, H, mdt, merged, cached, unchanged, old_arr
from c_message import MADE, MLIST, UVAR, made, isvar, PROBS, one_dim, MGN
from c_group import heaps
from c_factor import vars_of, IMCLS, IM, finder_parts, gather, isfn, GetProbabilities
from c_table import img, sizes, finv, T
from c_misc import ForEachSample, visits, itinv, combos, IT, VV
import c_train
from c_train import BT, fac_ok, sum_hint, VR, AR

ST = 'EFG::strct'
ANON = ST + '::(anonymous namespace)'
TR = 'EFG::train'


def active_at(it, a, i):
    """message of the i-th active connection"""
    dt = mdt(it, ACT)
    return it.harr(MSG, IntSort())[dt.val(a, z3.Select(dt.get(a, 'seq'), i))]


def over(it, r, v): return z3.And(r > 0, r < it.st.nextref, it.isinstance_(r, IMCLS(it)), VI.len(vars_of(it, r)) == 1, VI.at(vars_of(it, r), 0) == v)


def calibrated(it, n):
    """what reaches a node is over its variable and available"""
    a = H(it, ACT, n)
    dt = mdt(it, ACT)
    k = z3.Int('k?c')
    v = H(it, VAR, n)
    m = merged(it, n)
    x = it.harr(MSG, IntSort())[dt.val(a, k)]
    return [('a variable', isvar(it, v)), ('unaries over the variable', z3.Or(m == 0, over(it, m, v))),
            ('messages available and over the variable', z3.ForAll([k], z3.Implies(dt.has(a, k), over(it, x, v)), patterns=[dt.val(a, k)]))]


def incoming(it, n, l, j):
    """l: the merged unaries of the node followed by all the incoming messages"""
    a = H(it, ACT, n)
    dt = mdt(it, ACT)
    return (z3.And(VI.len(l) == 1 + dt.size(a), VI.at(l, 0) == merged(it, n)),
            z3.Implies(z3.And(1 <= j, j < VI.len(l)), VI.at(l, j) == active_at(it, a, j - 1)))


def incoming_hint(it, n):
    a, m = H(it, ACT, n), merged(it, n)
    j = it.fresh('any', IntSort())

    def hint(it, info, entry, trans):
        out, N = [], info.n
        q = z3.Int('q?h')
        for l in info.leaves:
            if l.sort == IntSort(): out.append(('length so far', l.sym == 1 + N))
            if l.sort == z3.ArraySort(IntSort(), IntSort()):
                out.append(('unaries first', l.sym[0] == m))
                out.append(('messages so far', z3.Implies(z3.And(1 <= j, j <= N), l.sym[j] == active_at(it, a, j - 1))))
                out.append(('messages so far', z3.ForAll([q], z3.Implies(z3.And(1 <= q, q <= N), l.sym[q] == active_at(it, a, q - 1)), patterns=[l.sym[q]])))
        return out
    it.hints = [hint] + it.hints
    return j


class GatherIncoming(Contract):
    """the factor merged from the unaries of the node and from all its incoming messages"""
    keys = (ANON + '::gather_incoming_messages',)
    light = True

    def pre(self, it, this, args): return calibrated(it, args[0].ref)

    def setup(self, it, f, this, args): self.j = incoming_hint(it, args[0].ref)

    def model_f(self, it, f, this, args):
        n = args[0].ref
        if it.branch(merged(it, n) == 0): raise CxxThrow('EFG::Error')
        ty = it.prog.ty(f['ret'])
        m = it.alloc(ty.rid)
        it.write(LV(('h', UVAR, m)), H(it, VAR, n))
        l = it.fresh('incoming', VI.sort)
        it.assume(VI.wf(l))
        j = z3.Int('j?u')
        a, b = incoming(it, n, l, j)
        it.assume(a)
        it.assume(z3.ForAll([j], b, patterns=[VI.at(l, j)]))
        made(it, m, 1, l=l)
        return Obj(m, ty)

    def outcome(self, it, f, this, args, kind, v, old):
        n = args[0].ref
        if kind == 'throw':
            it.check('refused only without the unaries', merged(it, n) == 0)
            return
        it.check('refused without the unaries', merged(it, n) != 0)
        m = v.ref if isinstance(v, Obj) else it.read(v)
        K, L = [z3.Select(it.harr(k, it.fsorts[k]), m) for k in (MADE[0], MLIST)]
        it.check('merged from a list', K == 1)
        a, b = incoming(it, n, L, self.j)
        it.check('the unaries and as many messages as connections', a)
        it.check('all the incoming messages', b)
        it.check('over the variable of the node', H(it, UVAR, m) == H(it, VAR, n))
        unchanged(it, old)


class UnaryBeta(Contract):
    """expectation of the raw images under the belief of the node"""
    keys = (TR + '::UnaryTuner::getGradientBeta',)
    light = True

    def node(self, it, this): return H(it, TR + '::UnaryTuner::node', this.ref)

    def pre(self, it, this, args):
        n = self.node(it, this)
        f = H(it, c_train.FAC, this.ref)
        s = sizes(it, H(it, IM, f))
        return calibrated(it, n) + fac_ok(it, this) + [('the factor is over the variable of the node', z3.And(n > 0, n < it.st.nextref, VI.len(vars_of(it, f)) == 1, VI.at(vars_of(it, f), 0) == H(it, VAR, n))),
                                                      ('sized by the variable', z3.And(VI.len(s) == 1, VI.at(s, 0) == z3.Select(heaps(it)[1], H(it, VAR, n))))]

    def setup(self, it, f, this, args):
        s = sizes(it, H(it, IM, H(it, c_train.FAC, this.ref)))
        one_dim(it, s)
        self.j = incoming_hint(it, self.node(it, this))

    def outcome(self, it, f, this, args, kind, v, old):
        n = self.node(it, this)
        if kind == 'throw':
            it.check('refused only without the unaries', merged(it, n) == 0)
            return
        check_belief(it, n, self.j, lambda p: v == expect(it, this, p), 'expectation of the raw images under the belief of the node')
        unchanged(it, old)


def expect(it, this, p):
    fn = H(it, IM, H(it, c_train.FAC, this.ref))
    return c_train.EXPECT(img(it, fn), sizes(it, fn), p)


def check_belief(it, n, j, result, name):
    """the result comes from the probabilities of a factor that is merged from all that reaches the node"""
    ms = [m for m in it.st.ghost.get('made', ()) if it.quick(result(PROBS(m)), 2000)]
    it.check(name, TRUE if ms else FALSE)
    if not ms: return
    m = ms[0]
    K, L = [z3.Select(it.harr(k, it.fsorts[k]), m) for k in (MADE[0], MLIST)]
    it.check('merged from a list', K == 1)
    a, b = incoming(it, n, L, j)
    it.check('the unaries and as many messages as connections', a)
    it.check('all the incoming messages', b)


ALL = [GatherIncoming(), UnaryBeta()]


class BaseAlpha(Contract):
    """mean of the raw images over the combinations of the iterator"""
    keys = (BT + '::getGradientAlpha',)

    def parts(self, it, this, args):
        fnd = LV(('h', BT + '::finder', this.ref))
        fn, x = finder_parts(it, fnd)
        return fn, x, it.read(args[0])

    def nocache(self, it, this):
        """the pointer kept next to the value is never that of an iterator"""
        k = it.T.kind(it.ftypes[BT + '::alpha_part'])
        o = k[1]
        x = H(it, BT + '::alpha_part', this.ref)
        sk = it.T.kind(it.ftypes[BT + '::alpha_part'].args()[0])
        n = [n for n in sk[1].names if n.endswith('train_set_iterator')][0]
        return z3.Or(z3.Not(o.has(x)), sk[1].get(o.get(x), n) == 0)

    def pre(self, it, this, args):
        fn, x, v = self.parts(it, this, args)
        F = ForEachSample()
        n = z3.Int('n?a')
        cs = combos(it, IT, v)
        c = VV.at(cs, n)
        j = z3.Int('j?a')
        s = sizes(it, fn)
        return fac_ok(it, this) + F.pre(it, args[0], []) + [
            ('finder of the factor', z3.And(fn == H(it, IM, H(it, c_train.FAC, this.ref)), isfn(it, fn))),
            ('samples to average', visits(it, v) > 0),
            ('nothing cached for the iterator', self.nocache(it, this)),
            ('rows of the model', z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < VV.len(cs)), z3.And(it.spec.inDom(s, gather(c, x)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(x)), z3.And(0 <= VI.at(x, j), VI.at(x, j) < VI.len(c))), patterns=[VI.at(x, j)]))), patterns=[c]))]

    def setup(self, it, f, this, args):
        fn, x, v = self.parts(it, this, args)
        it.assume_all(finv(it, fn))
        co = 1 / z3.ToReal(visits(it, v))
        self.d = sum_hint(it, lambda q: co * z3.Select(img(it, fn), gather(ForEachSample().at(it, v, q), x)))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        fn, x, w = self.parts(it, this, args)
        it.check('mean of the raw images', v == it.spec.sum['R'](self.d, visits(it, w)))
        it.check('nothing cached for the iterator', self.nocache(it, this))


ALL += [BaseAlpha()]


# ---- the marginal of a node without what comes from another one
def cavity(it, n, o, l, x):
    """x is in l exactly when it is the merged unaries of n or the message from a node that is not o"""
    a = H(it, ACT, n)
    dt = mdt(it, ACT)
    i = z3.Int('i?v')
    k = z3.Select(dt.get(a, 'seq'), i)
    src = z3.Or(x == merged(it, n), z3.Exists([i], z3.And(0 <= i, i < dt.size(a), k != o, active_at(it, a, i) == x)))
    j = z3.Int('j?v')
    return z3.Exists([j], z3.And(0 <= j, j < VI.len(l), VI.at(l, j) == x)), src


def cavity_hint(it, n, o, x):
    a, m = H(it, ACT, n), merged(it, n)
    dt = mdt(it, ACT)
    i, q = z3.Int('i?w'), z3.Const('q?w', IntSort())
    seq = dt.get(a, 'seq')

    def src(N, x): return z3.Or(x == m, z3.Exists([i], z3.And(0 <= i, i < N, z3.Select(seq, i) != o, active_at(it, a, i) == x)))

    def hint(it, info, entry, trans):
        out, N = [], info.n
        for l in info.leaves:
            if l.sort == z3.ArraySort(IntSort(), BoolSort()):
                out.append(('taken so far', z3.And(z3.Select(l.sym, m), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, z3.Select(seq, i) != o), z3.Select(l.sym, active_at(it, a, i))), patterns=[z3.Select(seq, i)]))))
                out.append(('nothing else so far', z3.ForAll([q], z3.Implies(z3.Select(l.sym, q), src(N, q)), patterns=[z3.Select(l.sym, q)])))
        return out
    it.hints = [hint] + it.hints


CAVITY = z3.Function('cavity', IntSort(), IntSort(), VI.sort, BoolSort())     # what check_cavity checks, by definition (in an unchanged heap)


class MarginalDists(Contract):
    """probabilities of both nodes, each from its unaries and from the messages that do not come from the other node"""
    keys = (TR + '::(anonymous namespace)::marginal_distributions',)
    light = True

    def pre(self, it, this, args): return calibrated(it, args[0].ref) + calibrated(it, args[1].ref)

    def setup(self, it, f, this, args):
        a, b = args[0].ref, args[1].ref
        self.x = it.fresh('any', IntSort())
        cavity_hint(it, a, b, self.x)
        cavity_hint(it, b, a, self.x)

    def model_f(self, it, f, this, args):
        a, b = args[0].ref, args[1].ref
        if it.branch(z3.Or(merged(it, a) == 0, merged(it, b) == 0)): raise CxxThrow('EFG::Error')
        res = []
        rid = it.prog.recbyname[MGN][0]['id']
        for n, o in ((a, b), (b, a)):
            m = it.alloc(rid)
            it.write(LV(('h', UVAR, m)), H(it, VAR, n))
            l = it.fresh('incoming', VI.sort)
            x, i, j = z3.Ints('x?m i?m j?m')
            it.assume_all([VI.wf(l), VI.len(l) >= 1, CAVITY(n, o, l), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < VI.len(l)), VI.at(l, i) != VI.at(l, j)), patterns=[z3.MultiPattern(VI.at(l, i), VI.at(l, j))])])
            made(it, m, 1, l=l)
            res.append(GetProbabilities().model(it, Obj(m, None), []))
        ty = it.prog.ty(f['ret'])
        k = it.T.kind(ty)
        return k[1].new(*res) if hasattr(k[1], 'new') else k[1].mk(*res)

    def outcome(self, it, f, this, args, kind, v, old):
        a, b = args[0].ref, args[1].ref
        if kind == 'throw':
            it.check('refused only without the unaries', z3.Or(merged(it, a) == 0, merged(it, b) == 0))
            return
        from c_graph import pair_of
        if isinstance(v, LV): v = it.read(v)
        for p, n, o in zip(pair_of(it, v, it.prog.ty(f['ret'])), (a, b), (b, a)):
            check_cavity(it, n, o, self.x, lambda q: p == q)
        unchanged(it, old)


def check_cavity(it, n, o, x, result):
    ms = [m for m in it.st.ghost.get('made', ()) if it.quick(result(PROBS(m)), 2000)]
    it.check('probabilities of a merged factor', TRUE if ms else FALSE)
    for m in ms[:1]:
        K, L = [z3.Select(it.harr(k, it.fsorts[k]), m) for k in (MADE[0], MLIST)]
        it.check('merged from a list', K == 1)
        if it.quick(CAVITY(n, o, L), 1000):
            it.check('the unaries and the messages that do not come from the other node', CAVITY(n, o, L))
            continue
        l, r = cavity(it, n, o, L, x)
        it.check('only the unaries and the messages that do not come from the other node', z3.Implies(l, r))
        it.check('the unaries and all the messages that do not come from the other node', z3.Implies(r, l))
        i, j = it.fresh('i', IntSort()), it.fresh('j', IntSort())
        it.check('each once', z3.Implies(z3.And(0 <= i, i < j, j < VI.len(L)), VI.at(L, i) != VI.at(L, j)))
        it.check('over the variable of the node', H(it, UVAR, m) == H(it, VAR, n))


ALL += [MarginalDists()]


class BinaryBeta(Contract):
    """expectation of the raw images under the joint belief of the two nodes: transformed image times the marginal
    of each node without the other one, normalised"""
    keys = (TR + '::BinaryTuner::getGradientBeta',)
    light = True
    opaque_mul = 'few'
    split_exp = True
    A, B = TR + '::BinaryTuner::nodeA', TR + '::BinaryTuner::nodeB'

    def parts(self, it, this):
        fn = H(it, IM, H(it, c_train.FAC, this.ref))
        return H(it, self.A, this.ref), H(it, self.B, this.ref), fn, sizes(it, fn)

    def pre(self, it, this, args):
        a, b, fn, s = self.parts(it, this)
        f = H(it, c_train.FAC, this.ref)
        v = vars_of(it, f)
        sz = heaps(it)[1]
        return calibrated(it, a) + calibrated(it, b) + fac_ok(it, this) + [
            ('the factor is over the variables of the nodes', z3.And(a > 0, a < it.st.nextref, b > 0, b < it.st.nextref, VI.len(v) == 2, VI.at(v, 0) == H(it, VAR, a), VI.at(v, 1) == H(it, VAR, b))),
            ('sized by the variables', z3.And(VI.len(s) == 2, VI.at(s, 0) == z3.Select(sz, H(it, VAR, a)), VI.at(s, 1) == z3.Select(sz, H(it, VAR, b))))]

    def setup(self, it, f, this, args):
        a, b, fn, s = self.parts(it, this)
        S = it.spec
        it.assume_all(finv(it, fn))
        self.x = it.fresh('any', IntSort())
        cavity_hint(it, a, b, self.x)
        cavity_hint(it, b, a, self.x)
        q = z3.Int('q?b')
        self.pa, self.pb, self.d, self.c, self.this = it.fresh('pa', VR.sort), it.fresh('pb', VR.sort), it.fresh('weights', AR), it.fresh('coeff', RealSort()), this

        def hint(it, info, entry, trans):
            out, n = [], info.n
            if 'named' not in it.st.ghost: return out
            d = self.d
            sm = S.sum['R'](d, S.tot(s))
            info.defs += [S.fold_base('sum', True, d), z3.Implies(n >= 0, S.fold_step('sum', True, d, n, d[n]))]
            for l in info.leaves:
                if l.sort == RealSort(): out.append(('sum so far', l.sym == S.sum['R'](d, n)))
                if l.sort == AR:
                    out.append(('weights so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), l.sym[q] == d[q]), patterns=[l.sym[q]])))
                    out.append(('normalised so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < S.tot(s)), l.sym[q] == z3.If(q < n, d[q] * self.c, d[q])), patterns=[l.sym[q]])))
                if l.sort == IntSort() and l.counter is None: out.append(('length so far', l.sym == n))
            return out
        it.hints = [hint] + it.hints

    def on_probs(self, it):
        """names the marginals of the two nodes once they are there, and the weights of the combinations"""
        ms = it.st.ghost.get('made', ())
        if len(ms) != 2 or 'named' in it.st.ghost: return
        it.st.ghost['named'] = True
        a, b, fn, s = self.parts(it, self.this)
        x, y = ms
        if it.quick(z3.And(H(it, UVAR, x) == H(it, VAR, b), H(it, UVAR, y) == H(it, VAR, a)), 1000): x, y = y, x
        S, d = it.spec, self.d
        it.assume_all([self.pa == PROBS(x), self.pb == PROBS(y)])
        q = z3.Int('q?b')
        it.assume(z3.ForAll([q], d[q] == self.w(it, q), patterns=[d[q]]))
        it.assume(S.fold_base('sum', True, d))
        it.assume(S.sum['R'](d, S.tot(s)) != 0)     # probabilities sum to one (C07) and exponentials are positive
        it.assume(self.c == 1 / S.sum['R'](d, S.tot(s)))

    def w(self, it, q):
        a, b, fn, s = self.parts(it, self.this)
        u = it.spec.unrank(s, q)
        return T(it, fn, z3.Select(img(it, fn), u)) * VR.at(self.pa, VI.at(u, 0)) * VR.at(self.pb, VI.at(u, 1))

    def outcome(self, it, f, this, args, kind, v, old):
        a, b, fn, s = self.parts(it, this)
        S = it.spec
        if kind == 'throw':
            it.check('refused only without the unaries', z3.Or(merged(it, a) == 0, merged(it, b) == 0))
            return
        if 'named' not in it.st.ghost:
            it.check('from the marginals of the nodes', FALSE)
            return
        d = self.d
        for p, n, o in ((self.pa, a, b), (self.pb, b, a)): check_cavity(it, n, o, self.x, lambda q: p == q)
        ps = [p for p in it.st.ghost.get('dots', ()) if it.quick(v == expect(it, this, p), 2000)]
        it.check('expectation of the raw images', TRUE if ps else FALSE)
        for p in ps[:1]:
            j = it.fresh('j', IntSort())
            it.assume(z3.And(0 <= j, j < S.tot(s)))
            it.assume(d[j] == self.w(it, j))
            it.check('one probability per combination', VR.len(p) == S.tot(s))
            it.check('joint belief of the nodes', VR.at(p, j) == d[j] * self.c)
        unchanged(it, old)


ALL += [BinaryBeta()]
