"""Contracts of the unary factors and of the messages (structure/SpecialFactors)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI, AR
from loops import mkforall, gname
import c_group, c_table, c_factor
from c_group import ginv, szs, heaps, gvars, gset, vk, SET
from c_table import *
from c_factor import *

UN, MGN, EVN, INN, MSN, MPN = ['EFG::factor::' + x for x in ('UnaryFactor', 'MergedUnaries', 'Evidence', 'Indicator', 'MessageSUM', 'MessageMAP')]
MFN = 'EFG::factor::(anonymous namespace)::MergableFunction'
UVAR = UN + '::variable'
IMGP = MFN + '::imgs_'


def install(it):
    install_made(it)
    it.invs[UN] = uninv
    it.invs[MGN] = mginv
    if it.prog.recbyname.get(MFN) and IMGP in it.ftypes:
        it.invs[MFN] = mfinv


def vec1(x): return VI.new(z3.IntVal(1), z3.Store(z3.K(IntSort(), I0), 0, x))


def mfid(it): return it.prog.recbyname[MFN][0]['id']


def ismf(it, ref): return it.tagof(ref) == it.tag(mfid(it))


def selfptr(it, ref):
    """pointer to the dense images of the table ref"""
    return it.encode_metaref(LV(('h', DATA, ref), (('a', datak(it), 1),)))


def mfinv(it, ref):
    """the pointer refers to the dense images of the same object"""
    return [H(it, IMGP, ref) == selfptr(it, ref), datak(it).isalt(H(it, DATA, ref), 1)]


def uninv(it, ref):
    fn = H(it, IM, ref)
    v = gvars(it, H(it, V_, fn))
    return [VI.len(v) == 1, VI.at(v, 0) == H(it, UVAR, ref)]


def mginv(it, ref): return [ismf(it, H(it, IM, ref))]


def isvar(it, v): return z3.And(v > 0, z3.Select(heaps(it)[1], v) >= 1)


def varsz(it, v): return z3.Select(heaps(it)[1], v)


class UnaryCtor(Contract):
    """accepts tables over exactly one variable"""
    keys = (UN + '::UnaryFactor',)
    atomic = False

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args):
        d = it.read(args[0])
        return [('a plain table', z3.Not(isexp(it, d))), ('valid table', z3.Or(d == 0, and_([isfn(it, d)] + finv(it, d))))]

    def model(self, it, this, args):
        d = it.read(args[0])
        if it.branch(d == 0): raise CxxThrow('EFG::Error')
        v = gvars(it, H(it, V_, d))
        if it.branch(VI.len(v) != 1): raise CxxThrow('EFG::Error')
        it.write(LV(('h', IM, this.ref)), d)
        it.write(LV(('h', MU, this.ref)), d)
        it.write(LV(('h', UVAR, this.ref)), VI.at(v, 0))


class Diff(Contract):
    """L1 distance of the probabilities"""
    keys = (UN + '::diff',)

    def pre(self, it, this, args):
        if light(it): return [('same variable', H(it, UVAR, this.ref) == H(it, UVAR, args[0].ref))]
        return [('same number of values', it.spec.tot(sizes(it, fn_of(it, this))) == it.spec.tot(sizes(it, fn_of(it, args[0]))))]

    def want(self, it, this, args):
        S = it.spec
        n, a, sa = GetProbabilities().want(it, this)
        m, b, sb = GetProbabilities().want(it, args[0])
        p = lambda d, sm: lambda q: z3.If(sm == 0, 1 / z3.ToReal(n), d[q] / sm)
        x = lambda q: p(a, sa)(q) - p(b, sb)(q)
        d = it.fresh('seq', AR)
        q = z3.Int('q?s')
        it.assume(z3.ForAll([q], d[q] == z3.If(x(q) < 0, -x(q), x(q)), patterns=[d[q]]))
        return S.sum['R'](d, n)

    def model(self, it, this, args):
        if light(it): return DIST(this.ref, args[0].ref)
        return self.want(it, this, args)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('L1 distance of the probabilities', v == self.want(it, this, args))
        frame(it, old)


class MergableCtor(Contract):
    """one everywhere"""
    keys = (MFN + '::MergableFunction',)
    writes_data = True

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args): return [('a variable', isvar(it, it.read(args[0])))]

    def setup(self, it, f, this, args): it.assume(varsz(it, it.read(args[0])) < U64)

    def model(self, it, this, args):
        g = group1(it, it.read(args[0]))
        FnCtor().model(it, this, [it.newcell(g)])
        s = sizes(it, this.ref)
        setimg(it, this.ref, images(it, s, lambda c: z3.RealVal(1)))
        newdata(it, this.ref)
        it.write(LV(('h', IMGP, this.ref)), selfptr(it, this.ref))
        it.assume(datak(it).isalt(H(it, DATA, this.ref), 1))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        g = H(it, V_, this.ref)
        vs = gvars(it, g)
        it.check('over the variable', z3.And(VI.len(vs) == 1, VI.at(vs, 0) == it.read(args[0])))
        frame(it, old, refs=(this.ref,))
        check_finv(it, this.ref, g, 'table of ones')
        it.check('dense images', datak(it).isalt(H(it, DATA, this.ref), 1))
        it.check('points to its own images', H(it, IMGP, this.ref) == selfptr(it, this.ref))
        one_dim(it, sizes(it, this.ref))
        check_coupled(it, this.ref, lambda c: z3.RealVal(1), 'one everywhere')


def group1(it, v):
    """the group of the single variable v"""
    o = it.newcell(it.fresh('group1', it.T.sort(it.ftypes[V_])), it.ftypes[V_])
    c_group.GroupCtor1().model(it, o, [it.newcell(v)])
    return it.read(o)


class MergableMerge(Contract):
    """multiplies the images entry by entry"""
    keys = (MFN + '::merge',)
    writes_data = True

    def pre(self, it, this, args): return [('same domain', sizes(it, this.ref) == sizes(it, args[0].ref)), ('another table', this.ref != args[0].ref)]

    def setup(self, it, f, this, args): it.assume_all(coupled(it, this.ref))

    def want(self, it, this, args):
        a, b, s = img(it, this.ref), img(it, args[0].ref), args[0].ref
        return lambda c: a[c] * T(it, s, b[c])

    def model(self, it, this, args):
        s = sizes(it, this.ref)
        setimg(it, this.ref, images(it, s, self.want(it, this, args)))
        newdata(it, this.ref)
        it.assume(datak(it).isalt(H(it, DATA, this.ref), 1))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        frame(it, old, (DATA,))
        it.check('dense images', datak(it).isalt(H(it, DATA, this.ref), 1))
        check_coupled(it, this.ref, self.want(it, this, args), 'product of the images')


class MergableNormalize(Contract):
    """multiplies all the images by one positive number"""
    keys = (MFN + '::normalize',)
    writes_data = True

    def setup(self, it, f, this, args):
        it.assume_all(coupled(it, this.ref))
        a = datak(it).get(H(it, DATA, this.ref), 1)
        q = z3.Int('q?u')

        def hint(it, info, entry, trans):
            out = []
            for l in info.leaves:
                if l.sort == RealSort():
                    out.append(('not negative so far', l.sym >= 0))
                    out.append(('upper bound so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < info.n), l.sym >= VR.at(a, q)), patterns=[VR.at(a, q)])))
            return out
        it.hints = [hint] + it.hints

    def pre(self, it, this, args):
        c = z3.Const('c?n', VI.sort)
        im = img(it, this.ref)
        return [('no negative image', z3.ForAll([c], z3.Implies(z3.And(it.spec.inDom(sizes(it, this.ref), c), it.spec.canon(c)), im[c] >= 0), patterns=[im[c]]))]

    def model(self, it, this, args):
        k = it.fresh('scale', RealSort())
        it.assume(k > 0)
        a = img(it, this.ref)
        setimg(it, this.ref, images(it, sizes(it, this.ref), lambda c: k * a[c]))
        newdata(it, this.ref)
        it.assume(datak(it).isalt(H(it, DATA, this.ref), 1))
        return None

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        frame(it, old, (DATA,))
        S = it.spec
        d = H(it, DATA, this.ref)
        s = sizes(it, this.ref)
        dk = datak(it)
        it.check('dense images', dk.isalt(d, 1))
        a = dk.get(d, 1)
        it.check('one entry per combination', VR.len(a) == S.tot(s))
        im = img(it, this.ref)
        c, e = it.fresh('c', VI.sort), it.fresh('c', VI.sort)
        for x in (c, e): it.assume_all([VI.wf(x), S.canon(x), S.inDom(s, x)])
        nc, ne = VR.at(a, S.rank(s, c)), VR.at(a, S.rank(s, e))
        it.check('images stay proportional', nc * im[e] == ne * im[c])
        it.check('null images stay null, positive images stay positive', z3.And(z3.Implies(im[c] == 0, nc == 0), z3.Implies(im[c] > 0, nc > 0)))



def one_dim(it, s):
    """a table over one variable: combinations are numbers below its size"""
    S = it.spec
    q = z3.Int('q?1')
    u = S.unrank(s, q)
    c = z3.Const('c?1', VI.sort)
    L1 = VI.len(s) == 1
    it.assume_all([z3.Implies(L1, S.tot(s) == VI.at(s, 0)),
                   z3.ForAll([q], z3.Implies(z3.And(L1, 0 <= q, q < S.tot(s), S.posd(s)), VI.at(u, 0) == q), patterns=[u]),
                   z3.ForAll([c], z3.Implies(L1, S.rank(s, c) == VI.at(c, 0)), patterns=[S.rank(s, c)])])


def lemmas():
    import spec
    S = engine_spec()
    s, c, d = z3.Const('s', VI.sort), z3.Const('c', VI.sort), z3.Const('d', AR)
    q, n, k = z3.Ints('q n k')
    L1 = [VI.len(s) == 1, S.d_prod(s, I0), S.d_prod(s, z3.IntVal(1)), S.d_rank(s, c, I0), S.d_rank(s, c, z3.IntVal(1)), S.tot(s) == S.prodS(s, I0), S.rank(s, c) == S.rankS(s, c, I0)]
    r = [('one variable: number of combinations', L1, S.tot(s) == VI.at(s, 0)), ('one variable: rank', L1, S.rank(s, c) == VI.at(c, 0))]
    M = S.max['R']
    z = z3.RealVal(0)
    step = [n >= 0, S.fold_step('max', True, d, n, d[n], z)]
    r += [('maximum is an upper bound: step', step + [z3.Implies(z3.And(0 <= k, k < n), M(z, d, n) >= d[k]), 0 <= k, k < n + 1], M(z, d, n + 1) >= d[k]),
          ('maximum is attained: step', step + [z3.Or(M(z, d, n) == 0, z3.And(0 <= k, k < n, M(z, d, n) == d[k]))], z3.Or(M(z, d, n + 1) == 0, M(z, d, n + 1) == d[n], z3.And(0 <= k, k < n + 1, M(z, d, n + 1) == d[k])))]
    return r


def engine_spec():
    import engine
    return engine.CTX.spec


def nonneg(it, fn):
    c = z3.Const('c?n', VI.sort)
    im = z3.Select(it.harr(IMG, IMGS), fn)
    return z3.ForAll([c], im[c] >= 0, patterns=[im[c]])


DIST = z3.Function('distance', IntSort(), IntSort(), RealSort())
PROBS = z3.Function('probabilities', IntSort(), VecDT.of(RealSort()).sort)
MADE = ['$made.' + x for x in ('kind', 'a', 'b', 'c')]
MLIST = '$made.list'


def install_made(it):
    for k in MADE: it.fsorts[k] = IntSort()
    it.fsorts[MLIST] = VI.sort


def light(it):
    """the contract under verification only needs to know from what the factors are made, not their images"""
    return getattr(it.verifying, 'light', False)


def made(it, ref, kind, a=0, b=0, c=0, l=None):
    """1: merged from a list, 2: sum message, 3: max message, 4: slice for an observed value, 5: merged from nothing, 6: indicator"""
    for k, x in zip(MADE, (kind, a, b, c)): it.write(LV(('h', k, ref)), z3.IntVal(x) if isinstance(x, int) else x)
    if l is not None: it.write(LV(('h', MLIST, ref)), l)
    it.st.ghost['made'] = it.st.ghost.get('made', ()) + (ref,)


class UnaryNew(Contract):
    """a constructor of a unary factor over var() with images want(value)"""
    cls = FN

    def store(self, it, this, r, v):
        it.write(LV(('h', IM, this.ref)), r)
        it.write(LV(('h', MU, this.ref)), r)
        it.write(LV(('h', UVAR, this.ref)), v)

    made = 0          # how the factor was made, see made()

    def new(self, it, this, v, want):
        """want: image of a combination of one entry"""
        if light(it):
            r = it.alloc(it.prog.recbyname[self.cls][0]['id'])
            self.store(it, this, r, v)
            return r
        g = group1(it, v)
        r = it.alloc(it.prog.recbyname[self.cls][0]['id'])
        FnCtor().model(it, Obj(r, it.prog.ty(it.prog.rec[it.prog.recbyname[FN][0]['id']]['t'])), [it.newcell(g)])
        s = sizes(it, r)
        setimg(it, r, images(it, s, want))
        newdata(it, r)
        if self.cls == MFN:
            it.write(LV(('h', IMGP, r)), selfptr(it, r))
            it.assume(datak(it).isalt(H(it, DATA, r), 1))
        one_dim(it, s)
        self.store(it, this, r, v)
        return r

    def check_shape(self, it, this, v, old):
        fn = H(it, IM, this.ref)
        it.check('one table for reading and writing', z3.And(fn == H(it, MU, this.ref), fn > 0))
        it.check('a table of its own', fn >= old.nextref)
        it.check('plain images', z3.Not(isexp(it, fn)))
        vs = gvars(it, H(it, V_, fn))
        it.check('over the variable', z3.And(VI.len(vs) == 1, VI.at(vs, 0) == v, H(it, UVAR, this.ref) == v))
        if self.cls == MFN: it.check('table that can be merged', ismf(it, fn))
        frame(it, old, refs=(this.ref,))
        s = sizes(it, fn)
        one_dim(it, s)
        return fn, s


class MergedVar(UnaryNew):
    """one everywhere"""
    keys = (MGN + '::MergedUnaries',)
    cls = MFN

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args): return [('a variable', isvar(it, it.read(args[0])))]

    def model(self, it, this, args):
        self.new(it, this, it.read(args[0]), lambda c: z3.RealVal(1))
        if light(it): made(it, this.ref, 5, it.read(args[0]))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        fn, s = self.check_shape(it, this, it.read(args[0]), old)
        check_images(it, fn, lambda c: z3.RealVal(1), 'one everywhere')


class MergedMerge(Contract):
    """multiplies by the images of a factor over the same variable; any other factor is refused"""
    keys = (MGN + '::merge',)

    def ok(self, it, this, args):
        v = gvars(it, H(it, V_, fn_of(it, args[0])))
        return z3.And(VI.len(v) == 1, VI.at(v, 0) == H(it, UVAR, this.ref))

    def pre(self, it, this, args): return [('another table', fn_of(it, this) != fn_of(it, args[0]))]

    def model(self, it, this, args):
        if it.branch(z3.Not(self.ok(it, this, args))): raise CxxThrow('EFG::Error')
        a, b = fn_of(it, this), fn_of(it, args[0])
        MergableMerge().model(it, Obj(a, None), [Obj(b, None)])


class MergedNormalize(Contract):
    keys = (MGN + '::normalize',)

    def pre(self, it, this, args): return MergableNormalize().pre(it, Obj(fn_of(it, this), None), [])

    def model(self, it, this, args): MergableNormalize().model(it, Obj(fn_of(it, this), None), [])

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        fn = fn_of(it, this)
        frame(it, old, (IMG,))
        a = z3.Select(old.heap.get(IMG, it.entry_arrays.get(IMG)), fn)
        im = img(it, fn)
        S = it.spec
        c, e = it.fresh('c', VI.sort), it.fresh('c', VI.sort)
        for x in (c, e): it.assume_all([VI.wf(x), S.canon(x), S.inDom(sizes(it, fn), x)])
        it.check('images stay proportional', im[c] * a[e] == im[e] * a[c])
        it.check('null images stay null, positive images stay positive', z3.And(z3.Implies(a[c] == 0, im[c] == 0), z3.Implies(a[c] > 0, im[c] > 0)))
        r = it.fresh('r', IntSort())
        it.check('other tables unchanged', z3.Implies(z3.And(0 < r, r < old.nextref, r != fn), z3.Select(it.harr(IMG, IMGS), r) == z3.Select(old.heap.get(IMG, it.entry_arrays.get(IMG)), r)))


class MergedMany(UnaryNew):
    """product of the images of the factors, up to one positive scale; factors over other variables are refused"""
    keys = (MGN + '::MergedUnaries',)
    cls = MFN

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::vector')

    def pre(self, it, this, args):
        F = it.read(args[0])
        i = z3.Int('i?f')
        fn = H0(it, IM, VI.at(F, i))
        c = z3.Const('c?n', VI.sort)
        im = z3.Select(z3.Select(it.harr(IMG, IMGS), fn), c)
        if light(it): return [('valid factors', and_(facs_ok(it, F))), ('some factor', VI.len(F) >= 1)]
        return [('valid factors', and_(facs_ok(it, F))), ('some factor', VI.len(F) >= 1),
                ('no negative image', z3.ForAll([i, c], z3.Implies(z3.And(0 <= i, i < VI.len(F)), im >= 0), patterns=[im]))]

    def var(self, it, F): return VI.at(vars_of(it, VI.at(F, 0)), 0)

    def bad(self, it, F, w): return z3.Or(VI.len(vars_of(it, VI.at(F, w))) != 1, VI.at(vars_of(it, VI.at(F, w)), 0) != self.var(it, F))

    def term(self, it, F, q, c):
        fn = H0(it, IM, VI.at(F, q))
        return T0(it, fn, z3.Select(z3.Select(it.harr(IMG, IMGS), fn), c))

    def good(self, it, F):
        q = z3.Int('q?g')
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < VI.len(F)), z3.Not(self.bad(it, F, q))), patterns=[VI.at(F, q)])

    def model(self, it, this, args):
        F = it.read(args[0])
        ok = it.fresh('mergeable', BoolSort())
        if it.branch(z3.Not(ok)):
            w = it.fresh('other', IntSort())
            it.assume_all([0 <= w, w < VI.len(F), self.bad(it, F, w)])
            raise CxxThrow('EFG::Error')
        it.assume(self.good(it, F))
        if light(it):
            self.new(it, this, self.var(it, F), None)
            made(it, this.ref, 1, l=F)
            return
        S = it.spec
        k = it.fresh('scale', RealSort())
        it.assume(k > 0)
        prods = it.fresh('products', z3.ArraySort(VI.sort, AR))
        c, q = z3.Const('c?p', VI.sort), z3.Int('q?p')
        it.assume(z3.ForAll([c, q], z3.Implies(z3.And(0 <= q, q < VI.len(F)), prods[c][q] == self.term(it, F, q, c)), patterns=[prods[c][q]]))
        n = VI.len(F)
        self.new(it, this, self.var(it, F), lambda c: k * S.prod['R'](prods[c], n))

    def setup(self, it, f, this, args):
        S = it.spec
        F = it.read(args[0])
        closed(it, this.ref)
        i = z3.Int('i?f')
        it.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VI.len(F)), VI.at(F, i) < this.ref), patterns=[VI.at(F, i)]))
        q = z3.Int('q?m')
        cs = self.cs = []
        for nm in ('c', 'e'):
            c, d = it.fresh('cany', VI.sort), it.fresh('terms', AR)
            it.assume_all([VI.wf(c), S.canon(c)])
            it.assume(z3.ForAll([q], d[q] == self.term(it, F, q, c), patterns=[d[q]]))
            cs.append((c, d))
        st0 = it.st.copy()
        good = [lambda q: z3.Not(self.bad(it, F, q))]
        b = self.bad(it, F, q)

        def hint(it, info, entry, trans):
            out, n = [], info.n
            k = it.st
            out.append(('factors merged so far are over the variable', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.Not(b)), patterns=[VI.at(F, q)])))
            for l in info.leaves:
                if l.sort is not None and l.sort == IMGS:
                    for c, d in cs:
                        out.append(('product over the merged factors', z3.Implies(S.inDom(sizes(it, l.base[2]), c), z3.Select(l.sym, c) == S.prod['R'](d, n))))
                        info.defs += [S.fold_base('prod', True, d), z3.Implies(n >= 0, S.fold_step('prod', True, d, n, d[n]))]
                    c = z3.Const('c?h', VI.sort)
                    out.append(('no negative image', z3.ForAll([c], z3.Select(l.sym, c) >= 0, patterns=[z3.Select(l.sym, c)])))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        F = it.read(args[0])
        S = it.spec
        if kind == 'throw':
            k = it.st
            it.assume(self.good(it, F))
            it.check('refused only for factors over other variables', FALSE)
            return
        w = it.fresh('w', IntSort())
        it.check('factors over other variables are refused', z3.Implies(z3.And(0 <= w, w < VI.len(F)), z3.Not(self.bad(it, F, w))))
        fn, s = self.check_shape(it, this, self.var(it, F), old)
        im = img(it, fn)
        (c, dc), (e, de) = self.cs
        n = VI.len(F)
        P = S.prod['R']
        for x in (c, e): it.assume(S.inDom(s, x))
        it.check('images proportional to the products', im[c] * P(de, n) == im[e] * P(dc, n))
        it.check('null products give null images, positive products positive images', z3.And(z3.Implies(P(dc, n) == 0, im[c] == 0), z3.Implies(P(dc, n) > 0, im[c] > 0)))


class Indicator(UnaryNew):
    """one at the value, zero elsewhere; values out of range are refused"""
    keys = (INN + '::Indicator',)

    def pre(self, it, this, args): return [('a variable', isvar(it, it.read(args[0])))]

    def want(self, it, args):
        x = it.read(args[1])
        return lambda c: z3.If(VI.at(c, 0) == x, z3.RealVal(1), z3.RealVal(0))

    def model(self, it, this, args):
        if it.branch(it.read(args[1]) >= varsz(it, it.read(args[0]))): raise CxxThrow('EFG::Error')
        self.new(it, this, it.read(args[0]), self.want(it, args))

    def outcome(self, it, f, this, args, kind, v, old):
        out = it.read(args[1]) >= varsz(it, it.read(args[0]))
        if kind == 'throw': it.check('refused only out of range', out); return
        it.check('values out of range are refused', z3.Not(out))
        fn, s = self.check_shape(it, this, it.read(args[0]), old)
        c = it.fresh('c', VI.sort)
        S = it.spec
        it.assume_all([VI.wf(c), S.canon(c), S.inDom(s, c)])
        it.assume(ext(it, c, vec1(it.read(args[1]))))
        it.assume(S.canon(vec1(it.read(args[1]))))
        it.check('one at the value, zero elsewhere', z3.Select(img(it, fn), c) == self.want(it, args)(c))


class Binary(UnaryNew):
    """the other variable of a binary factor"""
    def vars(self, it, b): return gvars(it, H(it, V_, fn_of(it, b)))

    def member(self, it, b, v):
        vs = self.vars(it, b)
        return z3.Implies(VI.len(vs) == 2, z3.Or(VI.at(vs, 0) == v, VI.at(vs, 1) == v))

    def other(self, it, b, v):
        vs = self.vars(it, b)
        return z3.If(VI.at(vs, 0) == v, VI.at(vs, 1), VI.at(vs, 0))

    def pair(self, it, b, v, x, y):
        """combination of the binary factor with x for the variable v and y for the other one"""
        vs = self.vars(it, b)
        first = VI.at(vs, 0) == v
        return VI.new(z3.IntVal(2), z3.Store(z3.Store(z3.K(IntSort(), I0), 0, z3.If(first, x, y)), 1, z3.If(first, y, x)))

    def notbinary(self, it, b): return VI.len(self.vars(it, b)) != 2


class EvidenceCtor(Binary):
    extensional = True
    """the images compatible with the observed value; factors that are not binary are refused"""
    keys = (EVN + '::Evidence',)

    def pre(self, it, this, args): return [('a variable of the factor', self.member(it, args[0], it.read(args[1]))), ('observed value in range', it.read(args[2]) < varsz(it, it.read(args[1])))]

    def want(self, it, args):
        b, v, x = args[0], it.read(args[1]), it.read(args[2])
        fn = fn_of(it, b)
        im = img(it, fn)
        sz = varsz(it, v)
        return lambda c: z3.If(x < sz, T(it, fn, z3.Select(im, self.pair(it, b, v, x, VI.at(c, 0)))), z3.RealVal(0))

    def model(self, it, this, args):
        b, v = args[0], it.read(args[1])
        if it.branch(self.notbinary(it, b)): raise CxxThrow('EFG::Error')
        if light(it):
            self.new(it, this, self.other(it, b, v), None)
            made(it, this.ref, 4, b.ref, v, it.read(args[2]))
            return
        self.new(it, this, self.other(it, b, v), self.want(it, args))

    def setup(self, it, f, this, args):
        S = it.spec
        closed(it, this.ref)
        self.h = h = it.fresh('hany', IntSort())
        it.assume(h >= 0)
        b, v, x = args[0], it.read(args[1]), it.read(args[2])
        c1 = vec1(h)
        p = self.pair(it, b, v, x, h)
        w = self.want(it, args)(c1)
        sb = sizes(it, fn_of(it, b))
        it.assume_all([S.canon(c1), S.canon(p)])
        q = z3.Int('q?e')
        it.assume(z3.ForAll([q], ext(it, S.unrank(sb, q), p), patterns=[S.unrank(sb, q)]))

        def hint(it, info, entry, trans):
            out, n = [], info.n
            for l in info.leaves:
                if l.sort is not None and l.sort == IMGS:
                    im = z3.Select(l.sym, c1)
                    out.append(('compatible images so far', z3.Implies(S.inDom(sizes(it, l.base[2]), c1), im == z3.If(z3.And(S.inDom(sb, p), S.rank(sb, p) < n), w, z3.RealVal(0)))))
                    out.append(('images of the first values so far', z3.Implies(S.inDom(sizes(it, l.base[2]), c1), im == z3.If(h < n, w, z3.RealVal(0)))))
                if l.sort == z3.ArraySort(IntSort(), IntSort()):
                    out.append(('two entries', l.sym == z3.Store(z3.Store(z3.K(IntSort(), I0), 0, l.sym[0]), 1, l.sym[1])))
                    out += [('observed value', l.sym[0] == x), ('observed value', l.sym[1] == x)]
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        b, v = args[0], it.read(args[1])
        if kind == 'throw': it.check('refused only when not binary', self.notbinary(it, b)); return
        it.check('factors that are not binary are refused', z3.Not(self.notbinary(it, b)))
        fn, s = self.check_shape(it, this, self.other(it, b, v), old)
        c1 = vec1(self.h)
        it.assume(it.spec.inDom(s, c1))
        it.check('images compatible with the value', z3.Select(img(it, fn), c1) == self.want(it, args)(c1))


class MessageSum(Binary):
    extensional = True
    """for every receiver value: the sum over the sender values of sender image times factor image"""
    keys = (MSN + '::MessageSUM',)
    op = 'sum'

    def sig(self, prog, f): return len(f['ps']) == 2

    def pre(self, it, this, args):
        return [('a variable of the factor', self.member(it, args[1], H(it, UVAR, args[0].ref)))]

    def term(self, it, args, q, r):
        u, b = args
        fu, fb = fn_of(it, u), fn_of(it, b)
        v = H(it, UVAR, u.ref)
        return T(it, fu, z3.Select(img(it, fu), vec1(q))) * T(it, fb, z3.Select(img(it, fb), self.pair(it, b, v, q, r)))

    def seq(self, it, args, r):
        d = it.fresh('terms', AR)
        q = z3.Int('q?t')
        it.assume(z3.ForAll([q], d[q] == self.term(it, args, q, r), patterns=[d[q]]))
        return d

    def fold(self, it, d, n):
        S = it.spec
        return S.sum['R'](d, n) if self.op == 'sum' else S.max['R'](z3.RealVal(0), d, n)

    def model(self, it, this, args):
        u, b = args
        v = H(it, UVAR, u.ref)
        if it.branch(self.notbinary(it, b)): raise CxxThrow('EFG::Error')
        if light(it):
            self.new(it, this, self.other(it, b, v), None)
            made(it, this.ref, 2 if self.op == 'sum' else 3, u.ref, b.ref)
            return
        ds = it.fresh('terms', z3.ArraySort(IntSort(), AR))
        q, r = z3.Ints('q?t r?t')
        it.assume(z3.ForAll([q, r], ds[r][q] == self.term(it, args, q, r), patterns=[ds[r][q]]))
        self.new(it, this, self.other(it, b, v), lambda c: self.fold(it, ds[VI.at(c, 0)], it.spec.tot(sizes(it, fn_of(it, u)))))

    def setup(self, it, f, this, args):
        S = it.spec
        closed(it, this.ref)
        self.r = r = it.fresh('rany', IntSort())
        it.assume(r >= 0)
        u, b = args
        v = H(it, UVAR, u.ref)
        su = sizes(it, fn_of(it, u))
        one_dim(it, su)
        c1 = vec1(r)
        d = self.d = self.seq(it, args, r)
        want = self.fold(it, d, S.tot(su))
        it.assume_all([S.canon(c1)])
        q = z3.Int('q?e')
        x = S.unrank(su, q)
        it.assume(z3.ForAll([q], z3.And(S.canon(vec1(q)), S.canon(x), ext(it, x, vec1(q))), patterns=[x]))
        self.want_ = want

        def hint(it, info, entry, trans):
            out, n = [], info.n
            for l in info.leaves:
                if l.sort is not None and l.sort == IMGS:
                    im = z3.Select(l.sym, c1)
                    out.append(('messages so far', z3.Implies(S.inDom(sizes(it, l.base[2]), c1), im == z3.If(r < n, want, z3.RealVal(0)))))
                    outer[:] = [n]
            arr = any(l.sort == z3.ArraySort(IntSort(), IntSort()) for l in info.leaves)
            if not outer or outer[0] is n or not arr: return out      # otherwise the fold is inferred
            for l in info.leaves:
                if l.sort == RealSort():
                    info.defs += [S.fold_base(self.op, True, d, z0), z3.Implies(n >= 0, S.fold_step(self.op, True, d, n, d[n], z0))]
                    out.append(('fold so far', z3.Implies(outer[0] == r, l.sym == self.fold(it, d, n))))
                if l.sort == z3.ArraySort(IntSort(), IntSort()):
                    out.append(('two entries', l.sym == z3.Store(z3.Store(z3.K(IntSort(), I0), 0, l.sym[0]), 1, l.sym[1])))
                    out += [('receiver value', l.sym[0] == outer[0]), ('receiver value', l.sym[1] == outer[0])]
            return out
        z0 = z3.RealVal(0)
        outer = []
        it.assume(S.fold_base(self.op, True, d, z0))
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        u, b = args
        v = H(it, UVAR, u.ref)
        if kind == 'throw': it.check('refused only when not binary', self.notbinary(it, b)); return
        it.check('factors that are not binary are refused', z3.Not(self.notbinary(it, b)))
        fn, s = self.check_shape(it, this, self.other(it, b, v), old)
        c1 = vec1(self.r)
        it.assume(it.spec.inDom(s, c1))
        it.check('message', z3.Select(img(it, fn), c1) == self.want_)


class MessageMax(MessageSum):
    """for every receiver value: the maximum over the sender values of sender image times factor image"""
    keys = (MPN + '::MessageMAP',)
    op = 'max'


ALL = [UnaryCtor(), Diff(), MergableCtor(), MergableMerge(), MergableNormalize(), MergedVar(), MergedMerge(), MergedNormalize(), MergedMany(), Indicator(), EvidenceCtor(), MessageSum(), MessageMax()]
