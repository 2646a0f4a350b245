"""Contracts of the graph layer: sampling, queries, propagation, tuners, evidence."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from c_group import vk, heaps

ST = 'EFG::strct'
ANON = ST + '::(anonymous namespace)'
VR = VecDT.of(RealSort())
AR = z3.ArraySort(IntSort(), RealSort())


# ------------------------------------------------------------------ sampling (C13)
class Sample(Contract):
    """assumed: a number in [0, 1]"""
    keys = (ST + '::UniformSampler::sample',)
    checked = False

    def model(self, it, this, args):
        s = it.fresh('drawn', RealSort())
        it.assume(z3.And(s >= 0, s <= 1))
        it.st.ghost['drawn'] = it.st.ghost.get('drawn', ()) + (s,)
        return s


class SampleDiscrete(Contract):
    """the value whose interval of the cumulative distribution contains the drawn number"""
    keys = (ST + '::UniformSampler::sampleFromDiscrete',)

    def pre(self, it, this, args):
        d = it.read(args[0])
        j = z3.Int('j?d')
        return [('not empty', VR.len(d) > 0), ('non-negative', z3.ForAll([j], VR.at(d, j) >= 0, patterns=[VR.at(d, j)]))]

    def setup(self, it, f, this, args):
        d = it.read(args[0])
        S, a = it.spec.sum['R'], VR.arr(d)
        x = self.x = it.fresh('possible', IntSort())

        def hint(it, info, entry, trans):
            out = []
            n = info.n
            for l in info.leaves:
                if l.sort == RealSort():
                    out.append(('cumulated so far', l.sym == S(a, n)))
                    out.append(('drawn above', z3.And([z3.Or(s > S(a, n), z3.And(S(a, n) == 0)) for s in it.st.ghost.get('drawn', ())] or [TRUE])))
                if l.sort == IntSort():
                    out.append(('last possible', z3.Or(z3.And(l.sym >= 0, l.sym < n, a[l.sym] > 0), S(a, n) == 0)))
                    out.append(('in range', z3.And(l.sym >= 0, l.sym < VR.len(d))))
                    out.append(('up to the last possible', z3.Or(S(a, n) == 0, z3.And(a[l.sym] > 0, S(a, l.sym + 1) == S(a, n)))))
            out.append(('non-negative', S(a, n) >= 0))
            out.append(('above the possible', z3.Implies(z3.And(0 <= x, x < n), S(a, n) >= a[x])))
            return out
        it.hints = [hint] + it.hints

    def model(self, it, this, args):
        d = it.read(args[0])
        r = it.fresh('value', IntSort())
        it.assume(z3.And(r >= 0, r < VR.len(d)))
        it.assume(z3.Implies(it.spec.sum['R'](VR.arr(d), VR.len(d)) > 0, VR.at(d, r) > 0))
        return r

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        d = it.read(args[0])
        S, a, n = it.spec.sum['R'], VR.arr(d), VR.len(d)
        dr = it.st.ghost.get('drawn', ())
        it.check('one number is drawn', TRUE if len(dr) == 1 else FALSE)
        if len(dr) != 1: return
        s = dr[0]
        it.check('in range', z3.And(0 <= v, v < n))
        x = self.x
        it.check('possible, when any value is', z3.Implies(z3.And(0 <= x, x < n, a[x] > 0), a[v] > 0))
        it.check('interval of the drawn number', z3.Implies(S(a, n) > 0, z3.And(S(a, v) <= s, z3.Or(s <= S(a, v + 1), s > S(a, n)))))


class DeltaBurn(Contract):
    """at least one evolution between samples (the requested number, when given), ten times as many before the first unless given"""
    keys = (ANON + '::delta_and_burn_out',)

    def parts(self, it, args):
        c = it.read(args[0])
        t = it.prog.recbyname[ST + '::GibbsSampler::SamplesGenerationContext'][0]
        k = it.T.kind(it.prog.ty(t['t']))
        if k[0] != 'struct': raise Unsupported('representation')
        g = {n.split('::')[-1]: k[1].get(c, n) for n in k[1].names}
        o = OptDT.of(IntSort())
        return g['samples_number'], g['delta_iterations'], g['transient'], o

    def pre(self, it, this, args):
        n, d, t, o = self.parts(it, args)
        return [('sizes', z3.And(n < 2 ** 50, z3.Implies(o.has(d), o.get(d) < 2 ** 60)))]

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        n, d, t, o = self.parts(it, args)
        if isinstance(v, LV): v = it.read(v)
        x, y = pair_of(it, v, it.prog.ty(f['ret']))
        it.check('evolutions between samples', z3.And(x >= 1, z3.Implies(o.has(d), x == z3.If(o.get(d) < 1, z3.IntVal(1), o.get(d)))))
        it.check('evolutions before the first sample', y == z3.If(o.has(t), o.get(t), 10 * x))


def pair_of(it, v, ty):
    if isinstance(v, MetaStruct): return v.f['first'], v.f['second']
    k = it.T.kind(ty)
    return k[1].get(v, 'first'), k[1].get(v, 'second')


# ------------------------------------------------------------------ queries (C11)
class FindMax(Contract):
    """the first position of the greatest value"""
    keys = (ANON + '::find_max',)

    def pre(self, it, this, args): return [('not empty', VR.len(it.read(args[0])) > 0)]

    def cond(self, it, d, r, j):
        return z3.And(0 <= r, r < VR.len(d), z3.Implies(z3.And(0 <= j, j < VR.len(d)), z3.And(VR.at(d, j) <= VR.at(d, r), z3.Implies(j < r, VR.at(d, j) < VR.at(d, r)))))

    def model(self, it, this, args):
        d = it.read(args[0])
        r = it.fresh('argmax', IntSort())
        j = z3.Int('j?d')
        it.assume(z3.ForAll([j], self.cond(it, d, r, j), patterns=[VR.at(d, j)]))
        it.assume(self.cond(it, d, r, I0))
        return r

    def setup(self, it, f, this, args):
        d = it.read(args[0])
        j = self.j = it.fresh('any', IntSort())

        def hint(it, info, entry, trans):
            out = []
            n = info.n
            for off in (0, 1):
                for l in info.leaves:
                    if l.sort == IntSort():
                        out.append(('best so far', z3.And(0 <= l.sym, l.sym < n + off)))
                        out.append(('best so far', z3.Implies(z3.And(0 <= j, j < n + off), z3.And(VR.at(d, j) <= VR.at(d, l.sym), z3.Implies(j < l.sym, VR.at(d, j) < VR.at(d, l.sym))))))
                        for m in info.leaves:
                            if m.sort == RealSort() and off: out.append(('its value', m.sym == VR.at(d, l.sym)))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('first greatest', self.cond(it, it.read(args[0]), v, self.j))


class Zeros(Contract):
    keys = (ANON + '::zeros',)

    def pre(self, it, this, args): return [('size', it.read(args[0]) <= MAXLEN)]

    def model(self, it, this, args): return VR.new(it.read(args[0]), z3.K(IntSort(), z3.RealVal(0)))


class NeedProp(Contract):
    """a propagation is needed unless the last one is still valid and of the same kind"""
    keys = (ST + '::BeliefAware::wouldNeedPropagation',)

    def model(self, it, this, args):
        has, kind = last_prop(it, this.ref)
        return z3.Not(z3.And(has, kind == it.read(args[0])))


def last_prop(it, ref):
    fk = ST + '::BeliefAware::lastPropagation'
    k = it.T.kind(it.ftypes[fk])
    if k[0] != 'opt': raise Unsupported('representation of the last propagation')
    v = it.read(LV(('h', fk, ref)))
    sk = it.T.kind(k[2])
    n = [x for x in sk[1].names if x.endswith('propagation_kind_done')]
    return k[1].has(v), sk[1].get(k[1].get(v), n[0])


# ------------------------------------------------------------------ propagation (C11, C12)
TI = ST + '::HiddenCluster::TopologyInfo'
CN = ST + '::Node::Connection'
DEPS, CONN, MSG, FAC = TI + '::dependencies', TI + '::connection', CN + '::message', CN + '::factor'


def H(it, k, ref): return it.read(LV(('h', k, ref)))


def valid_deps(it, d):
    j = z3.Int('j?p')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(d)), z3.And(VI.at(d, j) > 0, VI.at(d, j) < it.st.nextref)), patterns=[VI.at(d, j)])


class CanUpdate(Contract):
    """a message can be computed exactly when all the messages it depends on are available"""
    keys = (TI + '::canUpdateMessage',)

    def pre(self, it, this, args): return [('valid dependencies', valid_deps(it, H(it, DEPS, this.ref)))]

    def model(self, it, this, args):
        d = H(it, DEPS, this.ref)
        m = it.harr(MSG, IntSort())
        j = z3.Int('j?p')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(d)), m[VI.at(d, j)] != 0), patterns=[VI.at(d, j)])


class NoChangingDeps(Contract):
    """true exactly when none of the dependencies is going to change"""
    keys = (ANON + '::have_no_changing_deps',)

    def pre(self, it, this, args): return [('valid dependencies', valid_deps(it, H(it, DEPS, args[0].ref)))]

    def model(self, it, this, args):
        d = H(it, DEPS, args[0].ref)
        w = it.read(args[1])
        dt = it.dt_of(w.sort())
        j = z3.Int('j?p')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(d)), z3.Not(dt.has(w, VI.at(d, j)))), patterns=[VI.at(d, j)])


ALL = [Sample(), SampleDiscrete(), DeltaBurn(), FindMax(), Zeros(), NeedProp(), CanUpdate(), NoChangingDeps()]
