"""Contracts of factor::Function (the table of images).
Abstract value: $img, an array combination -> image (0 outside of the domain). data_ is coupled to it:
sparse: the stored value or 0; dense: the entry at the rank of the combination."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from loops import mkforall
import c_group
from c_group import ginv, szs, heaps, gvars
from stdmodel import expf_

FN = 'EFG::factor::Function'
V_, INFO, DATA = FN + '::variables_', FN + '::info', FN + '::data_'
ISZ, ITOT, ICR = FN + '::Info::sizes', FN + '::Info::totCombinations', FN + '::Info::critical_size'
IMG = '$img'
IMGS = z3.ArraySort(VI.sort, RealSort())
VR = VecDT.of(RealSort())
SP = MapDT.of(VI.sort, RealSort(), False)
ZERO = z3.K(VI.sort, z3.RealVal(0))


def install(it):
    it.fsorts[IMG] = IMGS
    it.invs = dict(it.invs)
    it.invs[FN] = finv
    it.opaque_fn = lambda t: opaque(it, t)


def axioms():
    x = z3.Real('x')
    return [z3.ForAll([x], expf_(x) > 0, patterns=[expf_(x)])]


def H(it, k, ref): return it.read(LV(('h', k, ref)))


def info(it, ref): return H(it, INFO, ref)


def sizes(it, ref): return H(it, ISZ, info(it, ref))


def img(it, ref): return sel(it.harr(IMG, IMGS), ref, it)


def setimg(it, ref, x):
    for w in it.writes: w.heap.setdefault(IMG, []).append(ref)
    it.st.heap[IMG] = z3.Store(it.harr(IMG, IMGS), ref, x)


def datak(it):
    k = it.T.kind(it.ftypes[DATA])
    if k[0] != 'var' or k[1].ss != [SP.sort, VR.sort]: raise Unsupported('representation of Function')
    return k[1]


def finv(it, ref):
    """class invariant of Function, representation of the images excluded"""
    g, i = H(it, V_, ref), info(it, ref)
    s = H(it, ISZ, i)
    return ginv(it, g) + [i > 0, i < it.st.nextref, s == szs(gvars(it, g), heaps(it)[1]), it.spec.posd(s), it.spec.tot(s) < U64, H(it, ITOT, i) == it.spec.tot(s), H(it, ICR, i) >= 1]


def check_finv(it, ref, g, what):
    i = info(it, ref)
    it.check(what + ': has the variables', it.val_eq(H(it, V_, ref), g))
    it.check(what + ': info present', i > 0)
    s = H(it, ISZ, i)
    j = it.fresh('j', IntSort())
    z = szs(gvars(it, g), heaps(it)[1])
    it.check(what + ': sizes of the variables', z3.And(VI.len(s) == VI.len(z), VI.at(s, j) == VI.at(z, j)))
    it.assume(s == z)
    it.check(what + ': number of combinations', H(it, ITOT, i) == it.spec.tot(s))
    it.check(what + ': conversion threshold', H(it, ICR, i) >= 1)


def view(it, s, d, c):
    v = datak(it)
    S = it.spec
    return z3.If(v.isalt(d, 0), SP.val(v.get(d, 0), c), VR.at(v.get(d, 1), S.rank(s, c)))


def coupled(it, ref, d=None):
    """facts: data_ represents $img"""
    S = it.spec
    v = datak(it)
    s, im = sizes(it, ref), img(it, ref)
    d = H(it, DATA, ref) if d is None else d
    m, a = v.get(d, 0), v.get(d, 1)
    k = z3.Const('k?t', VI.sort)
    r = S.rank(s, k)
    return [z3.Implies(v.isalt(d, 0), z3.And(
                z3.ForAll([k], z3.Implies(SP.has(m, k), z3.And(S.inDom(s, k), S.canon(k))), patterns=[SP.has(m, k)]),
                z3.ForAll([k], im[k] == SP.val(m, k), patterns=[SP.val(m, k), im[k]]))),
            z3.Implies(v.isalt(d, 1), z3.And(VR.len(a) == S.tot(s), z3.ForAll([k], z3.Implies(z3.And(S.inDom(s, k), S.canon(k)), im[k] == VR.at(a, r)), patterns=[im[k], r]),
                z3.ForAll([k], z3.Implies(z3.Not(z3.And(S.inDom(s, k), S.canon(k))), im[k] == 0), patterns=[im[k]])))]


def check_coupled(it, ref, want, what, d=None):
    """obligations: data_ of ref represents want (fn: combination -> image)"""
    S = it.spec
    v = datak(it)
    s = sizes(it, ref)
    d = H(it, DATA, ref) if d is None else d
    c = it.fresh('c', VI.sort)
    it.assume_all([VI.wf(c)])
    if it.branch(v.isalt(d, 0)):
        m = v.get(d, 0)
        it.check(what + ': stored combinations are in the domain', z3.Implies(SP.has(m, c), z3.And(S.inDom(s, c), S.canon(c))))
        it.check(what + ': no value outside of the stored combinations', z3.Implies(z3.Not(SP.has(m, c)), SP.val(m, c) == 0))
    else:
        it.check(what + ': one entry per combination', VR.len(v.get(d, 1)) == S.tot(s))
    it.assume(z3.And(S.inDom(s, c), S.canon(c)))
    it.check(what + ': images', view(it, s, d, c) == want(c))


def newdata(it, ref):
    """data_ after an update through the interface: whatever represents $img"""
    d = it.fresh('data', datak(it).sort)
    it.write(LV(('h', DATA, ref)), d)
    it.st.ghost[('sync', d.get_id())] = d


def expcls(it):
    l = [r for n, rs in it.prog.recbyname.items() for r in rs if n.endswith('::ExponentialFunction')]
    if len(l) != 1: raise Unsupported('ExponentialFunction')
    return l[0]


def wkey(it):
    fs = [f for f in expcls(it)['fields'] if it.T.kind(it.prog.ty(f['t']))[0] == 'real']
    if len(fs) != 1: raise Unsupported('weight of ExponentialFunction')
    return it.T.fkey(fs[0]['id'])


def weight(it, ref): return H(it, wkey(it), ref)


def isexp(it, ref): return it.tagof(ref) == it.tag(expcls(it)['id'])


def T(it, ref, x):
    e = z3.simplify(isexp(it, ref))
    if z3.is_true(e): return expf_(weight(it, ref) * x)
    if z3.is_false(e): return x
    if getattr(getattr(it, 'verifying', None), 'split_exp', False) and it.quick(e, 500): return expf_(weight(it, ref) * x)
    return z3.If(e, expf_(weight(it, ref) * x), x)


def opaque(it, t):
    """an arbitrary callback (combination, value): its calls are recorded"""
    c = Closure(None, {}, None)
    L, C, V = it.newcell(I0), it.newcell(z3.K(IntSort(), VI.empty())), it.newcell(z3.K(IntSort(), z3.RealVal(0)))

    def trace(args):
        n = it.read(L)
        a, b = ([it.read(x) if isinstance(x, (LV, ElemLV)) else x for x in args] + [z3.RealVal(0)])[:2]
        if not isinstance(a, z3.ExprRef) or a.sort() != VI.sort: raise Unsupported('callback')
        it.write(C, z3.Store(it.read(C), n, a))
        it.write(V, z3.Store(it.read(V), n, it.to_real(b)))
        it.write(L, n + 1)
        it.write(D, z3.Or(it.read(D), z3.Select(it.read(Q), a)))
        it.write(Q, z3.Store(it.read(Q), a, TRUE))
        it.write(W, z3.Store(it.read(W), a, it.to_real(b)))
    c.trace = trace
    it.trace_cells = (L, C, V)
    # the same calls as a set: which combinations, with what value, some twice
    Q, W, D = it.newcell(z3.K(VI.sort, FALSE)), it.newcell(z3.K(VI.sort, z3.RealVal(0))), it.newcell(FALSE)
    it.trace_set = (Q, W, D)
    return c


class MakeInfo(Contract):
    keys = ('EFG::factor::make_info',)
    hints = (c_group.prod_hint,)

    def pre(self, it, this, args): return [('group invariant', and_(ginv(it, it.read(args[0]))))]

    def setup(self, it, f, this, args): it.assume(it.spec.tot(c_group.sizes_vec(it, it.read(args[0]))) < U64)

    def model(self, it, this, args):
        g = it.read(args[0])
        s = c_group.sizes_vec(it, g)
        it.assume(it.spec.tot(s) < U64)
        r = it.alloc(it.prog.recbyname[FN + '::Info'][0]['id'])
        cr = it.fresh('critical', IntSort())
        it.assume(z3.And(cr >= 1, cr < U64))
        for k, v in ((ISZ, s), (ITOT, it.spec.tot(s)), (ICR, cr)): it.write(LV(('h', k, r)), v)
        it.assume(VI.wf(s))
        return r

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        s = c_group.sizes_vec(it, it.read(args[0]))
        j = it.fresh('j', IntSort())
        z = H(it, ISZ, v)
        it.check('sizes of the variables', z3.And(VI.len(s) == VI.len(z), VI.at(s, j) == VI.at(z, j)))
        it.check('number of combinations', H(it, ITOT, v) == it.spec.tot(s))
        it.check('conversion threshold', H(it, ICR, v) >= 1)
        it.check('a new object', v >= old.nextref)


class FnCtor(Contract):
    keys = (FN + '::Function',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('EFG::categoric::Group')

    def pre(self, it, this, args): return [('group invariant', and_(ginv(it, it.read(args[0]))))]

    def setup(self, it, f, this, args): it.assume(it.spec.tot(c_group.sizes_vec(it, it.read(args[0]))) < U64)

    def model(self, it, this, args):
        g = it.read(args[0])
        it.write(LV(('h', V_, this.ref)), g)
        i = MakeInfo().model(it, None, [it.newcell(g)])
        it.write(LV(('h', INFO, this.ref)), i)
        it.write(LV(('h', DATA, this.ref)), datak(it).mk(0, SP.empty()))
        setimg(it, this.ref, ZERO)
        it.assume_all(finv(it, this.ref))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        check_finv(it, this.ref, it.read(args[0]), 'new table')
        check_coupled(it, this.ref, lambda c: z3.RealVal(0), 'new table is null everywhere')


class HasherCall(Contract):
    keys = (FN + '::CombinationHasher::operator()',)
    axioms = ('dom', 'rec', 'fold')

    def i(self, it, this):
        rid = it.prog.recbyname[FN + '::CombinationHasher'][0]['id']
        k = it.T.kind(it.prog.ty(it.prog.rec[rid]['t']))
        if k[0] != 'struct' or len(k[1].names) != 1: raise Unsupported('representation of CombinationHasher')
        return k[1].get(it.read(this), k[1].names[0])

    def pre(self, it, this, args):
        i = self.i(it, this)
        s = H(it, ISZ, i)
        return [('info present', i > 0), ('valid sizes', z3.And(it.spec.posd(s), H(it, ITOT, i) == it.spec.tot(s), it.spec.tot(s) < U64)), ('combination in the domain', it.spec.inDom(s, it.read(args[0])))]

    def model(self, it, this, args): return it.spec.rank(H(it, ISZ, self.i(it, this)), it.read(args[0]))

    def setup(self, it, f, this, args):
        s = H(it, ISZ, self.i(it, this))
        c = it.read(args[0])
        S = it.spec
        k = z3.Int('k?d')
        P = S.prodS(s, k)
        it.div_hook = lambda a, b, q, r: [z3.ForAll([k], z3.Implies(z3.And(b >= 1, a == b * P), q == P), patterns=[P])]

        def hint(it, info, entry, trans):
            out = []
            n = info.n
            info.defs += [S.d_prod(s, n), S.d_rank(s, c, n), S.d_prod(s, n + 1), S.d_rank(s, c, n + 1), S.d_horner(s, c, n), S.d_horner(s, c, n + 1)]
            for l in info.leaves:
                if l.sort != IntSort() or l.counter is not None: continue
                out.append(('rank of the first digits', l.sym == S.horner(s, c, n)))
                out.append(('product of the remaining sizes', l.sym == S.prodS(s, n)))
                out.append(('rank of the visited digits', l.sym == S.rank(s, c) - S.rankS(s, c, n)))
                L = VI.len(s)
                out.append(('product of the visited sizes', l.sym == S.prodS(s, L - n)))
                out.append(('rank of the last digits', l.sym == S.rankS(s, c, L - n)))
            return out
        it.hints = [hint] + it.hints


def this_pre(it, this, comb):
    return [('combination in the domain', z3.And(it.spec.inDom(sizes(it, this.ref), comb), it.spec.canon(comb)))]


class FnContract(Contract):
    def setup(self, it, f, this, args):
        it.assume_all(coupled(it, this.ref))
        self.d0 = H(it, DATA, this.ref)
        self.more_setup(it, f, this, args)

    def more_setup(self, it, f, this, args): pass

    def frame(self, it, old, keys=()):
        """everything else in memory is unchanged (objects that existed before)"""
        for fk in sorted(set(it.st.heap) | set(old.heap)):
            if fk in keys or fk == '$tag' or fk.startswith('$box') or fk.startswith('$'): continue
            e = it.entry_arrays.get(fk)
            a, b = it.st.heap.get(fk, e), old.heap.get(fk, e)
            if a is None or b is None or a.eq(b): continue
            r = it.fresh('r', IntSort())
            it.check('nothing else changes: ' + fk.split('::')[-1], z3.Implies(z3.And(0 < r, r < old.nextref), it.val_eq(sel(a, r), sel(b, r))))

    def frame_data(self, it, old, ref):
        a, b = it.st.heap.get(DATA), old.heap.get(DATA, it.entry_arrays.get(DATA))
        if a is None or b is None or a.eq(b): return
        r = it.fresh('r', IntSort())
        it.check('other tables unchanged', z3.Implies(z3.And(0 < r, r < old.nextref, r != ref), sel(a, r) == sel(b, r)))


class FnSet(FnContract):
    keys = (FN + '::set',)

    def pre(self, it, this, args): return this_pre(it, this, it.read(args[0]))

    def model(self, it, this, args):
        c, x = it.read(args[0]), it.read(args[1])
        setimg(it, this.ref, z3.Store(img(it, this.ref), c, x))
        newdata(it, this.ref)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        c, x, im = it.read(args[0]), it.read(args[1]), img(it, this.ref)
        self.frame(it, old, (DATA,))
        self.frame_data(it, old, this.ref)
        check_coupled(it, this.ref, lambda k: z3.If(k == c, x, im[k]), 'after a write')


class FnFind(FnContract):
    keys = (FN + '::findImage',)

    def pre(self, it, this, args): return this_pre(it, this, it.read(args[0]))

    def model(self, it, this, args): return z3.Select(img(it, this.ref), it.read(args[0]))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('the last value written', v == self.expected(it, this, it.read(args[0])))
        self.frame(it, old)

    def expected(self, it, this, c): return z3.Select(img(it, this.ref), c)


class FnFindT(FnFind):
    keys = (FN + '::findTransformed',)

    def model(self, it, this, args): return self.expected(it, this, it.read(args[0]))

    def expected(self, it, this, c): return T(it, this.ref, z3.Select(img(it, this.ref), c))


class FnClear(FnContract):
    keys = (FN + '::clear',)

    def model(self, it, this, args):
        setimg(it, this.ref, ZERO)
        newdata(it, this.ref)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        self.frame(it, old, (DATA,))
        self.frame_data(it, old, this.ref)
        check_coupled(it, this.ref, lambda k: z3.RealVal(0), 'cleared table is null everywhere')


class FnClone(FnContract):
    keys = (FN + '::cloneImages',)

    def pre(self, it, this, args): return [('same domain', sizes(it, this.ref) == sizes(it, args[0].ref))]

    def more_setup(self, it, f, this, args): it.assume_all(coupled(it, args[0].ref))

    def model(self, it, this, args):
        setimg(it, this.ref, img(it, args[0].ref))
        newdata(it, this.ref)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        self.frame(it, old, (DATA,))
        self.frame_data(it, old, this.ref)
        check_coupled(it, this.ref, lambda k: img(it, args[0].ref)[k], 'cloned table')


class Transform(Contract):
    """virtual: the identity, or the exponential of weight times image"""
    keys = (FN + '::transform',)
    virtual = True

    def model(self, it, this, args): return T(it, this.ref, it.read(args[0]))

    def setup(self, it, f, this, args):
        if it.prog.rec[f['rec']]['n'] == FN:
            it.assume(z3.Not(isexp(it, this.ref)))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('transformed value', v == T(it, this.ref, it.read(args[0])))


class TransformExp(Transform):
    keys = ('EFG::factor::(anonymous namespace)::ExponentialFunction::transform',)


class ForEach(FnContract):
    """calls back once per combination, in order, with its (transformed) image"""
    keys = (FN + '::forEachCombination',)

    def transformed(self, f):
        for x in f.get('ta', []):
            if 'v' in x: return int(x['v']) != 0
        raise Unsupported('template argument of ' + f['n'])

    def model_f(self, it, f, this, args):
        tr = self.transformed(f)
        S = it.spec
        s = sizes(it, this.ref)
        cl = it.read(args[0]) if isinstance(args[0], LV) else args[0]
        r = it.newcell(I0)

        def body():
            n = it.read(r)
            c = S.unrank(s, n)
            it.assume(S.canon(c))
            x = z3.Select(img(it, this.ref), c)
            if tr: x = T(it, this.ref, x)
            it.call_closure(cl, [it.newcell(c), it.newcell(x)], None)
        it.loop(f, lambda: it.read(r) < S.tot(s), body, lambda: it.write(r, it.read(r) + 1))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        tr = self.transformed(f)
        S = it.spec
        s = sizes(it, this.ref)
        L, C, V = [it.read(x) for x in it.trace_cells]
        it.check('called once per combination', L == S.tot(s))
        r = it.fresh('r', IntSort())
        it.assume(z3.And(0 <= r, r < S.tot(s)))
        c = S.unrank(s, r)
        it.check('combinations in order', z3.Select(C, r) == c)
        x = z3.Select(img(it, this.ref), c)
        it.check('with their images', z3.Select(V, r) == (T(it, this.ref, x) if tr else x))
        self.frame(it, old)


class ForEachNN(ForEach):
    """calls back exactly once per combination whose image is not null, with its (transformed) image"""
    keys = (FN + '::forEachNonNullCombination',)

    def model_f(self, it, f, this, args):
        tr = self.transformed(f)
        S = it.spec
        s = sizes(it, this.ref)
        cl = it.read(args[0]) if isinstance(args[0], LV) else args[0]
        im = img(it, this.ref)
        n = it.fresh('visits', IntSort())
        sq = it.fresh('visited', z3.ArraySort(IntSort(), VI.sort))
        ps = it.fresh('visitpos', z3.ArraySort(VI.sort, IntSort()))
        k = z3.Const('k?v', VI.sort)
        i = z3.Int('i?v')
        ok = lambda x: z3.And(S.inDom(s, x), S.canon(x), im[x] != 0)
        it.assume(z3.And(n >= 0, n <= S.tot(s)))
        it.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(ok(sq[i]), ps[sq[i]] == i)), patterns=[sq[i]]))
        it.assume(z3.ForAll([k], z3.Implies(ok(k), z3.And(0 <= ps[k], ps[k] < n, sq[ps[k]] == k)), patterns=[ps[k]]))
        from stdmodel import SEQREG
        r = it.newcell(I0)

        def body():
            c = z3.Select(sq, it.read(r))
            it.assume(VI.wf(c))
            x = z3.Select(img(it, this.ref), c)
            if tr: x = T(it, this.ref, x)
            it.call_closure(cl, [it.newcell(c), it.newcell(x)], None)
        it.loop(f, lambda: it.read(r) < n, body, lambda: it.write(r, it.read(r) + 1))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        tr = self.transformed(f)
        S = it.spec
        s = sizes(it, this.ref)
        Q, W, D = [it.read(x) for x in it.trace_set]
        im = img(it, this.ref)
        k = it.fresh('k', VI.sort)
        it.assume(z3.And(VI.wf(k), S.canon(k)))
        it.assume(S.canon(k))
        x = z3.Select(im, k)
        it.check('only combinations with a non-null image', z3.Implies(Q[k], z3.And(S.inDom(s, k), x != 0)))
        it.check('no such combination is missed', z3.Implies(z3.And(S.inDom(s, k), x != 0), Q[k]))
        it.check('with their images', z3.Implies(Q[k], W[k] == (T(it, this.ref, x) if tr else x)))
        it.check('none twice', z3.Not(D))
        self.frame(it, old)


ALL = [MakeInfo(), FnCtor(), HasherCall(), FnSet(), FnFind(), FnFindT(), FnClear(), FnClone(), Transform(), TransformExp(), ForEach(), ForEachNN()]
