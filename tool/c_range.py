"""Contracts of categoric::GroupRange.
Abstract value: (sizes, pos), 0 <= pos <= tot(sizes); exhausted iff pos == tot(sizes). *r == unrank(sizes,pos)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI

RN = 'EFG::categoric::GroupRange'
ABS = DT('GRange', [('sizes', VI.sort), ('pos', IntSort())])


def setup_abs(S):
    def wfspec(v):
        s, p = ABS.get(v, 'sizes'), ABS.get(v, 'pos')
        return [VI.wf(s), p >= 0, p <= S.tot(s), S.posd(s)]
    ABS.wfspec = wfspec
    return ABS


def sizes_of(v): return ABS.get(v, 'sizes')


def pos_of(v): return ABS.get(v, 'pos')


def ended(S, v): return pos_of(v) == S.tot(sizes_of(v))


class GRContract(Contract):
    layer = 'concrete'
    axioms = ('dom', 'rec', 'odo', 'fold')

    """model over the abstract value; verification over the concrete one with the coupling relation"""

    def conc_dt(self, it):
        rid = it.prog.recbyname[RN][0]['id']
        ty = it.prog.ty(it.prog.rec[rid]['t'])
        k = it.T.kind(ty)
        if k[0] != 'struct': raise Unsupported('representation of GroupRange')
        f = [n for n in k[1].names if n.endswith('::data')]
        if len(f) != 1: raise Unsupported('representation of GroupRange')
        od = it.T.kind(k[2][f[0]])
        dd = it.T.kind(od[2])
        if od[0] != 'opt' or dd[0] != 'struct': raise Unsupported('representation of GroupRange')
        g = {n.split('::')[-1]: n for n in dd[1].names}
        return k[1], f[0], od[1], dd[1], g

    def couple(self, it, conc, ab):
        """coupling relation between the concrete object and its abstract value"""
        S = it.spec
        dt, fd, od, dd, g = self.conc_dt(it)
        o = dt.get(conc, fd)
        d = od.get(o)
        s, p = sizes_of(ab), pos_of(ab)
        comb = dd.get(d, g['combination'])
        return z3.If(od.has(o), z3.And(dd.get(d, g['sizes']) == s, z3.Not(dd.get(d, g['end_of_range'])), S.inDom(s, comb), S.canon(comb), S.rank(s, comb) == p, p < S.tot(s)),
                     p == S.tot(s))

    def ghost(self, it, name):
        ab = it.fresh(name, ABS.sort)
        it.assume_all(ABS.wfspec(ab))
        it.assume(VI.len(sizes_of(ab)) >= 1)
        return ab

    def obj(self, it, lv, name):
        """assume the coupling of a concrete operand with a fresh abstract value"""
        ab = self.ghost(it, name)
        it.assume(self.couple(it, it.read(lv), ab))
        return ab

    def check_couple(self, it, lv, ab, what):
        """obligation: representation invariant and abstract value of lv (component-wise)"""
        S = it.spec
        conc = it.read(lv)
        dt, fd, od, dd, g = self.conc_dt(it)
        o = dt.get(conc, fd)
        s, p = sizes_of(ab), pos_of(ab)
        it.check(what + ': exhausted exactly after the last combination', od.has(o) == (p < S.tot(s)))
        if not it.branch(od.has(o)): return
        d = od.get(o)
        comb = dd.get(d, g['combination'])
        it.check(what + ': domain sizes', dd.get(d, g['sizes']) == s)
        it.check(what + ': end flag', z3.Not(dd.get(d, g['end_of_range'])))
        it.check(what + ': combination in range', S.inDom(s, comb))
        it.check(what + ': combination is the expected one', S.rank(s, comb) == p)
        it.check(what + ': combination has one entry per variable', z3.And(VI.len(comb) == VI.len(s), S.canon(comb)))

    def hint_odometer(self, it, info, entry, trans):
        """offered to every loop: suffix sums of the combination being rewritten"""
        S = it.spec
        out = []
        vecs = []
        for l in info.leaves:
            if l.path and l.path[-1][-1] == 'arr' and l.sort == VI.sort.accessor(0, 1).range():
                vecs.append(l)
        return out


def strip(pref): return pref


class Ctor(GRContract):
    keys = (RN + '::GroupRange',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::vector')

    def pre(self, it, this, args):
        s = it.read(args[0])
        return [('at least one domain', VI.len(s) >= 1), ('positive domain sizes', it.spec.posd(s))]

    def model(self, it, this, args):
        it.write(this, ABS.mk(it.read(args[0]), I0))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw':
            it.check('valid sizes are accepted', FALSE); return
        self.check_couple(it, this, ABS.mk(it.read(args[0]), I0), 'starts at the all-zero combination')
        it.check('argument unchanged', it.read(args[0]) == old.cells[args[0].root[1]])
        # rank zero is the all-zero combination
        dt, fd, od, dd, g = self.conc_dt(it)
        comb = dd.get(od.get(dt.get(it.read(this), fd)), g['combination'])
        i = it.fresh('i', IntSort())
        it.check('first combination is all zeros', VI.at(comb, i) == 0)


class CtorGroup(GRContract):
    keys = (RN + '::GroupRange',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('EFG::categoric::Group')

    def sizes(self, it, g):
        import c_group
        return c_group.sizes_vec(it, g)

    def pre(self, it, this, args):
        import c_group
        return [('group invariant', and_(c_group.ginv(it, it.read(args[0]))))]

    def model(self, it, this, args):
        it.write(this, ABS.mk(self.sizes(it, it.read(args[0])), I0))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw':
            it.check('valid group is accepted', FALSE); return
        self.check_couple(it, this, ABS.mk(self.sizes(it, it.read(args[0])), I0), 'starts at the all-zero combination')


class Copy(GRContract):
    keys = (RN + '::GroupRange',)

    def sig(self, prog, f): return f.get('copy') or (len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec(RN))

    def model(self, it, this, args):
        it.write(this, it.read(args[0]))

    def setup(self, it, f, this, args): self.ab = self.obj(it, args[0], 'o')

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw':
            it.check('copy does not throw', FALSE); return
        self.check_couple(it, this, self.ab, 'copy is at the same position')
        self.check_couple(it, args[0], self.ab, 'source of the copy unchanged')


class Deref(GRContract):
    keys = (RN + '::operator*', RN + '::operator->')

    def pre(self, it, this, args):
        if it.T.abstract: return [('not exhausted', z3.Not(ended(it.spec, it.read(this))))]
        return []

    def model(self, it, this, args):
        v = it.read(this)
        S = it.spec
        c = S.unrank(sizes_of(v), pos_of(v))
        it.assume(VI.len(c) == VI.len(sizes_of(v)))
        return it.newcell(c)

    def setup(self, it, f, this, args):
        self.ab = self.obj(it, this, 'r')
        it.assume(z3.Not(ended(it.spec, self.ab)))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('dereference does not throw', FALSE); return
        if isinstance(v, PtrLV): v = v.lv
        c = it.read(v)
        it.check('current combination', it.spec.rank(sizes_of(self.ab), c) == pos_of(self.ab))
        it.check('current combination in range', it.spec.inDom(sizes_of(self.ab), c))
        self.check_couple(it, this, self.ab, 'iteration unchanged by reading')


class DerefArrow(Deref):
    keys = (RN + '::operator->',)

    def model(self, it, this, args): return PtrLV(Deref.model(self, it, this, args))


Deref.keys = (RN + '::operator*',)


class Inc(GRContract):
    keys = (RN + '::operator++',)

    def model(self, it, this, args):
        v = it.read(this)
        if it.branch(ended(it.spec, v)): raise CxxThrow('EFG::Error')
        it.write(this, ABS.set(v, 'pos', pos_of(v) + 1))
        return this

    def setup(self, it, f, this, args):
        self.ab = self.obj(it, this, 'r')
        dt, fd, od, dd, g = self.conc_dt(it)
        self.comb0 = dd.get(od.get(dt.get(it.read(this), fd)), g['combination'])
        self.hints = [self.hint]
        it.hints = [self.hint] + it.hints

    def hint(self, it, info, entry, trans):
        S = it.spec
        s = sizes_of(self.ab)
        c0 = self.comb0
        n = info.n
        out = []
        cur = None
        arrs = [l for l in info.leaves if l.sort is not None and l.sort == z3.ArraySort(IntSort(), IntSort())]
        opts = [l for l in info.leaves if l.sort is not None and l.sort.kind() == z3.Z3_DATATYPE_SORT]
        combs = [VI.mk(VI.len(c0), l.sym) for l in arrs]
        dt, fd, od, dd, g = self.conc_dt(it)
        for l in opts:
            if l.sort == od.sort:
                combs.append(dd.get(od.get(l.sym), g['combination']))
                d = od.get(l.sym)
                out.append(('still running', od.has(l.sym)))
                out.append(('sizes kept', dd.get(d, g['sizes']) == s))
                out.append(('flag kept', z3.Not(dd.get(d, g['end_of_range']))))
        # vector held through a reference or local copies
        ks = [l.sym for l in info.leaves if l.counter in (1, -1) and l.sort == IntSort()]
        from loops import gname
        j = z3.Int('j?o')
        for k in ks: info.defs += [S.last_lemma(s, c0, k + i) for i in (-2, -1, 0)]
        for c in combs:
            out.append(('length kept', VI.len(c) == VI.len(c0)))
            for k in ks:
                for kk in (k, k + 1):
                    out.append(('positions after the pivot were reset', S.rankS(s, c, kk) == 0))
                    out.append(('positions after the pivot were at their last value', S.rankS(s, c0, kk) == S.prodS(s, kk) - 1))
                    at, at0 = VI.at(c, j), VI.at(c0, j)
                    out.append(('reset to zero', z3.ForAll([j], z3.Implies(z3.And(kk <= j, j < VI.len(c0)), at == 0), patterns=[at])))
                    out.append(('positions before the pivot kept', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < kk), at == at0), patterns=[at])))
                    out.append(('outside kept', z3.ForAll([j], z3.Implies(z3.Or(j < 0, j >= VI.len(c0)), at == 0), patterns=[at])))
                for b in (0, VI.len(c0)):
                    out.append(('pivot', k < VI.len(c0)))
                    out.append(('pivot', k >= 0))
        return out

    def outcome(self, it, f, this, args, kind, v, old):
        S = it.spec
        if kind == 'throw':
            it.check('refused only when exhausted', ended(S, self.ab))
            self.check_couple(it, this, self.ab, 'unchanged when refused')
            return
        it.check('an exhausted iteration is refused', z3.Not(ended(S, self.ab)))
        dt, fd, od, dd, g = self.conc_dt(it)
        o = dt.get(it.read(this), fd)
        if it.branch(od.has(o)):
            # ghost: the successor lemma at every local counter
            c1 = dd.get(od.get(o), g['combination'])
            ks = {}
            for v in list(it.st.cells.values()):
                if isinstance(v, z3.ExprRef) and z3.is_int(v) and not z3.is_int_value(v):
                    for d in (-1, 0, 1):
                        k = z3.simplify(v + d)
                        ks[k.get_id()] = k
            s0, c0, at = sizes_of(self.ab), self.comb0, VI.at
            for k in list(ks.values())[:12]: it.assume(S.succ_lemma(s0, c0, c1, k))
            # the same step by step: when each hypothesis of the lemma is proved, its conclusion holds
            for k in list(ks.values())[:12]:
                j = it.fresh('j', IntSort())
                hyps = [z3.And(0 <= k, k < VI.len(s0)), at(c1, k) == at(c0, k) + 1, S.rankS(s0, c0, k + 1) == S.prodS(s0, k + 1) - 1, S.rankS(s0, c1, k + 1) == 0, z3.Implies(z3.And(0 <= j, j < k), at(c0, j) == at(c1, j)), S.posd(s0)]
                ok = True
                for n, h in enumerate(hyps):
                    if not (it.quick(h, 1500) or (n and it.strong(h, 4000))): ok = False; break
                    it.assume(h) if n != 4 else None
                if ok:
                    it.assume(S.rank(s0, c1) == S.rank(s0, c0) + 1)
                    break
        self.check_couple(it, this, ABS.set(self.ab, 'pos', pos_of(self.ab) + 1), 'next combination')


class End(GRContract):
    keys = (RN + '::end',)

    def model(self, it, this, args):
        s = VI.empty()
        it.assume(z3.And(it.spec.tot(s) == 1, it.spec.posd(s)))
        return ABS.mk(s, z3.IntVal(1))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('end does not throw', FALSE); return
        dt, fd, od, dd, g = self.conc_dt(it)
        if isinstance(v, LV): v = it.read(v)
        it.check('end is exhausted', z3.Not(od.has(dt.get(v, fd))))


class Eq(GRContract):
    keys = (RN + '::isEqual', 'EFG::categoric::operator==', 'EFG::categoric::operator!=')

    def sig(self, prog, f): return prog.ty(f['ps'][0]['t']).noref().isrec(RN)

    def eqf(self, it, a, b):
        S = it.spec
        ea, eb = ended(S, a), ended(S, b)
        return z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), S.unrank(sizes_of(a), pos_of(a)) == S.unrank(sizes_of(b), pos_of(b))))

    def operands(self, this, args): return (this, args[0]) if len(args) == 1 else (args[0], args[1])

    def model(self, it, this, args):
        x, y = self.operands(this, args)
        return self.eqf(it, it.read(x), it.read(y))

    def setup(self, it, f, this, args):
        x, y = self.operands(this, args)
        self.a, self.b = self.obj(it, x, 'a'), self.obj(it, y, 'b')

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('comparison does not throw', FALSE); return
        S = it.spec
        g = self.eqf(it, self.a, self.b)
        it.check('equal exactly at the same combination or both exhausted', v == g)
        same = sizes_of(self.a) == sizes_of(self.b)
        it.check('over one domain: equal exactly at the same position', z3.Implies(same, v == (pos_of(self.a) == pos_of(self.b))))


class Ne(Eq):
    keys = ('EFG::categoric::operator!=',)

    def model(self, it, this, args): return z3.Not(Eq.model(self, it, this, args))

    def outcome(self, it, f, this, args, kind, v, old): return Eq.outcome(self, it, f, this, args, kind, z3.Not(v) if kind == 'ok' else v, old)


Eq.keys = (RN + '::isEqual', 'EFG::categoric::operator==')

ALL = [Ctor(), CtorGroup(), Copy(), Deref(), DerefArrow(), Inc(), End(), Eq(), Ne()]
