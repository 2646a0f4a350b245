"""Contracts of the tuners and of the weights of a model (C14)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from c_factor import fn_of, weight, wkey, isexp, IM
from c_table import img, sizes, IMG, IMGS
from c_message import H0

TR = 'EFG::train'
TU = TR + '::Tuner'
CT = TR + '::CompositeTuner'
BT = TR + '::BaseTuner'
FG = TR + '::FactorsTunableGetter'
EL, TUN, FAC = CT + '::elements', FG + '::tuners', BT + '::factor'
TW = '$tunerweight'
AR = z3.ArraySort(IntSort(), RealSort())
VR = VecDT.of(RealSort())
ALPHA = z3.Function('alpha', IntSort(), RealSort())      # of the iterator at hand
BETA = z3.Function('beta', IntSort(), RealSort())


def install(it):
    it.fsorts[TW] = RealSort()


def H(it, k, ref): return it.read(LV(('h', k, ref)))


def tw(it): return it.harr(TW, RealSort())


# ---- what any tuner promises; each implementation is checked against its own contract below
class TunerAlpha(Contract):
    keys = (TU + '::getGradientAlpha',)
    checked = False
    virtual = True

    def model(self, it, this, args): return ALPHA(this.ref)


class TunerBeta(Contract):
    keys = (TU + '::getGradientBeta',)
    checked = False
    virtual = True

    def model(self, it, this, args): return BETA(this.ref)


class TunerSet(Contract):
    keys = (TU + '::setWeight',)
    checked = False
    virtual = True

    def model(self, it, this, args): it.write(LV(('h', TW, this.ref)), it.read(args[0]))


class TunerGet(Contract):
    keys = (TU + '::getWeight',)
    checked = False
    virtual = True

    def model(self, it, this, args): return it.read(LV(('h', TW, this.ref)))


def tuners_ok(it, v, distinct=False):
    i, j = z3.Ints('i?t j?t')
    l = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VI.len(v)), z3.And(VI.at(v, i) > 0, VI.at(v, i) < it.st.nextref)), patterns=[VI.at(v, i)])]
    if distinct: l.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < VI.len(v)), VI.at(v, i) != VI.at(v, j)), patterns=[z3.MultiPattern(VI.at(v, i), VI.at(v, j))]))
    return l


def sum_hint(it, term):
    """real accumulators hold the sum of the terms so far"""
    S = it.spec
    d = it.fresh('terms', AR)
    q = z3.Int('q?s')
    it.assume(z3.ForAll([q], d[q] == term(q), patterns=[d[q]]))

    def hint(it, info, entry, trans):
        out, n = [], info.n
        for l in info.leaves:
            if l.sort == RealSort():
                out.append(('sum so far', l.sym == S.sum['R'](d, n)))
                info.defs += [S.fold_base('sum', True, d), z3.Implies(n >= 0, S.fold_step('sum', True, d, n, d[n]))]
        return out
    it.hints = [hint] + it.hints
    it.assume(S.fold_base('sum', True, d))
    return d


class CompositeAlpha(Contract):
    """sum over the members"""
    keys = (CT + '::getGradientAlpha',)
    G = ALPHA

    def pre(self, it, this, args): return [('valid members', and_(tuners_ok(it, H(it, EL, this.ref))))]

    def setup(self, it, f, this, args):
        v = H(it, EL, this.ref)
        self.d = sum_hint(it, lambda q: self.G(VI.at(v, q)))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('sum over all the members', v == it.spec.sum['R'](self.d, VI.len(H(it, EL, this.ref))))


class CompositeBeta(CompositeAlpha):
    keys = (CT + '::getGradientBeta',)
    G = BETA


class CompositeSet(Contract):
    """every member takes the weight, nothing else changes"""
    keys = (CT + '::setWeight',)

    def pre(self, it, this, args): return [('valid members', and_(tuners_ok(it, H(it, EL, this.ref))))]

    def setup(self, it, f, this, args):
        v, w = H(it, EL, this.ref), it.read(args[0])
        j = self.j = it.fresh('any', IntSort())
        r = self.r = it.fresh('r', IntSort())
        q = z3.Int('q?s')
        w0 = z3.Select(tw(it), r)
        self.w0 = w0

        def hint(it, info, entry, trans):
            out, n = [], info.n
            for l in info.leaves:
                if l.sort == AR:
                    out.append(('members so far', z3.Implies(z3.And(0 <= j, j < n), l.sym[VI.at(v, j)] == w)))
                    out.append(('others', z3.Or(l.sym[r] == w0, l.sym[r] == w)))
                    out.append(('others', z3.Implies(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < VI.len(v)), VI.at(v, q) != r), patterns=[VI.at(v, q)]), l.sym[r] == w0)))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        e, w = H(it, EL, this.ref), it.read(args[0])
        j = self.j
        it.check('every member takes the weight', z3.Implies(z3.And(0 <= j, j < VI.len(e)), tw(it)[VI.at(e, j)] == w))
        q = z3.Int('q?s')
        it.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < VI.len(e)), VI.at(e, q) != self.r), patterns=[VI.at(e, q)]))
        it.check('other tuners are left alone', tw(it)[self.r] == self.w0)


class CompositeGet(Contract):
    keys = (CT + '::getWeight',)

    def pre(self, it, this, args):
        v = H(it, EL, this.ref)
        return [('valid members', and_(tuners_ok(it, v))), ('some member', VI.len(v) > 0)]

    def model(self, it, this, args): return tw(it)[VI.at(H(it, EL, this.ref), 0)]


class CompositeAdd(Contract):
    """the new member is the last one, the others keep their place; null is refused"""
    keys = (CT + '::addElement',)

    def model(self, it, this, args):
        x = it.read(args[0])
        if it.branch(x == 0): raise CxxThrow('EFG::Error')
        v = H(it, EL, this.ref)
        n = VI.len(v)
        it.write(LV(('h', EL, this.ref)), VI.new(n + 1, z3.Store(VI.arr(v), n, x)))


class BaseSet(Contract):
    """the weight of the tuned factor (and of no other one) becomes the given one"""
    keys = (BT + '::setWeight',)

    def pre(self, it, this, args): return fac_ok(it, this)

    def model(self, it, this, args): it.write(LV(('h', wkey(it), H(it, IM, H(it, FAC, this.ref)))), it.read(args[0]))


class BaseGet(Contract):
    keys = (BT + '::getWeight',)

    def pre(self, it, this, args): return fac_ok(it, this)

    def model(self, it, this, args): return weight(it, H(it, IM, H(it, FAC, this.ref)))


def fac_ok(it, this):
    f = H(it, FAC, this.ref)
    fn = H(it, IM, f)
    return [('a tuned factor', z3.And(f > 0, f < it.st.nextref, fn > 0, fn < it.st.nextref, isexp(it, fn)))]


class GetWeights(Contract):
    """one weight per tuner, in the order of the tuners"""
    keys = (FG + '::getWeights',)

    def pre(self, it, this, args): return [('valid tuners', and_(tuners_ok(it, H(it, TUN, this.ref))))]

    def model(self, it, this, args):
        v = H(it, TUN, this.ref)
        r = it.fresh('weights', VR.sort)
        j = z3.Int('j?w')
        it.assume(z3.And(VR.wf(r), VR.len(r) == VI.len(v)))
        it.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(v)), VR.at(r, j) == tw(it)[VI.at(v, j)]), patterns=[VR.at(r, j)]))
        return r

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        t = H(it, TUN, this.ref)
        v = it.read(v) if isinstance(v, LV) else v
        j = it.fresh('j', IntSort())
        it.check('one weight per tuner', VR.len(v) == VI.len(t))
        it.check('in the order of the tuners', z3.Implies(z3.And(0 <= j, j < VI.len(t)), VR.at(v, j) == tw(it)[VI.at(t, j)]))
        r = it.fresh('r', IntSort())
        it.check('reading changes no weight', tw(it)[r] == z3.Select(old.heap.get(TW, it.entry_arrays.get(TW, tw(it))), r))


class SetWeights(Contract):
    """every tuner takes its own entry; a vector of another length is refused and changes nothing"""
    keys = (FG + '::setWeights',)

    def pre(self, it, this, args): return [('valid tuners', and_(tuners_ok(it, H(it, TUN, this.ref), True)))]

    def setup(self, it, f, this, args):
        v, w = H(it, TUN, this.ref), it.read(args[0])
        j = self.j = it.fresh('any', IntSort())

        def hint(it, info, entry, trans):
            out, n = [], info.n
            for l in info.leaves:
                if l.sort == AR:
                    out.append(('tuners so far', z3.Implies(z3.And(0 <= j, j < n), l.sym[VI.at(v, j)] == VR.at(w, j))))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        t, w = H(it, TUN, this.ref), it.read(args[0])
        if kind == 'throw':
            it.check('refused only for another length', VR.len(w) != VI.len(t))
            for fk in it.st.heap:
                e = it.entry_arrays.get(fk)
                it.check('unchanged after refusal: ' + fk, TRUE if e is None or it.st.heap[fk].eq(old.heap.get(fk, e)) else FALSE)
            return
        it.check('vectors of another length are refused', VR.len(w) == VI.len(t))
        j = self.j
        it.check('every tuner takes its own entry', z3.Implies(z3.And(0 <= j, j < VI.len(t)), tw(it)[VI.at(t, j)] == VR.at(w, j)))
        it.check('what depends on the weights is dropped', it.st.ghost.get('weights reset', FALSE))


class ResetDeps(Contract):
    keys = (FG + '::resetWeightsDependencies',)
    checked = False

    def model(self, it, this, args): it.st.ghost['weights reset'] = TRUE


class SetOnes(Contract):
    keys = (TR + '::set_ones',)

    def pre(self, it, this, args): return [('valid tuners', and_(tuners_ok(it, H(it, TUN, args[0].ref), True)))]


EXPECT = z3.Function('expectation', IMGS, VI.sort, VR.sort, RealSort())


class DotProduct(Contract):
    """sum over the combinations of probability times raw image"""
    keys = (BT + '::dotProduct',)

    def pre(self, it, this, args):
        fn = H(it, IM, H(it, FAC, this.ref))
        p = it.read(args[0])
        return fac_ok(it, this) + [('one probability per combination', VR.len(p) == it.spec.tot(sizes(it, fn)))]

    def term(self, it, this, p):
        fn = H(it, IM, H(it, FAC, this.ref))
        s, im = sizes(it, fn), img(it, fn)
        return lambda q: VR.at(p, q) * z3.Select(im, it.spec.unrank(s, q))

    def setup(self, it, f, this, args):
        self.d = sum_hint(it, self.term(it, this, it.read(args[0])))

    def model(self, it, this, args):
        fn = H(it, IM, H(it, FAC, this.ref))
        it.st.ghost['dots'] = it.st.ghost.get('dots', ()) + (it.read(args[0]),)
        return EXPECT(img(it, fn), sizes(it, fn), it.read(args[0]))     # the sum below, by definition

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('expectation of the raw images', v == it.spec.sum['R'](self.d, VR.len(it.read(args[0]))))


ALL = [TunerAlpha(), TunerBeta(), TunerSet(), TunerGet(), CompositeAlpha(), CompositeBeta(), CompositeSet(), CompositeGet(), CompositeAdd(), BaseSet(), BaseGet(),
       GetWeights(), SetWeights(), ResetDeps(), DotProduct()]
