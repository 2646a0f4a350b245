"""Contracts of the factors (Immutable, Mutable, Factor, FactorExponential, ImageFinder) over the abstract image table."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI, AR
from loops import mkforall, gname
import c_group, c_table
from c_group import ginv, szs, heaps, gvars, gset, vk, SET
from c_table import *

IMN, MUN, FACN, FEN, IFN = ['EFG::factor::' + x for x in ('Immutable', 'Mutable', 'Factor', 'FactorExponential', 'ImageFinder')]
IM, MU = IMN + '::function_', MUN + '::function_'
# the combination of the smaller group: entry j is the entry idx[j] of c
gather = z3.Function('gather', VI.sort, VI.sort, VI.sort)


def install(it):
    it.invs[IMN] = iminv
    it.invs[MUN] = muinv
    it.invs[FACN] = facinv
    it.invs[FEN] = feinv
    it.ignore_fields = (DATA,)


def axioms():
    c, x = z3.Const('c', VI.sort), z3.Const('x', VI.sort)
    j = z3.Int('j')
    g = gather(c, x)
    return [z3.ForAll([c, x], VI.len(g) == VI.len(x), patterns=[g]),
            z3.ForAll([c, x, j], VI.at(g, j) == z3.If(z3.And(0 <= j, j < VI.len(x)), VI.at(c, VI.at(x, j)), 0), patterns=[VI.at(g, j)])]


extw = z3.Function('ext_w', VI.sort, VI.sort, IntSort())


def ext(it, a, b):
    """two values are equal or differ in their length or in an entry"""
    w = extw(a, b)
    return z3.Implies(z3.And(it.spec.canon(a), it.spec.canon(b)), z3.Or(a == b, VI.len(a) != VI.len(b), z3.And(0 <= w, w < VI.len(a), VI.at(a, w) != VI.at(b, w))))


def closed(it, top):
    """objects that exist at the start refer to objects that exist at the start"""
    r = z3.Int('r?c')
    for k in (IM, MU, INFO):
        x = z3.Select(it.harr(k, IntSort()), r)
        it.assume(z3.ForAll([r], z3.Implies(z3.And(0 < r, r < top), x < top), patterns=[x]))


def isfn(it, r):
    return z3.And(r > 0, r < it.st.nextref, it.isinstance_(r, it.prog.recbyname[FN][0]['id']))


def iminv(it, ref): return [isfn(it, H(it, IM, ref))] + finv(it, H(it, IM, ref))


def muinv(it, ref): return [isfn(it, H(it, MU, ref))] + finv(it, H(it, MU, ref))


def facinv(it, ref):
    return [H(it, IM, ref) == H(it, MU, ref), z3.Not(isexp(it, H(it, IM, ref)))]


def feinv(it, ref):
    return [H(it, IM, ref) == H(it, MU, ref), isexp(it, H(it, IM, ref))]


def fn_of(it, o): return H(it, IM, o.ref)


def darr(it, f, sort=None):
    """ghost array with entry q equal to f(q)"""
    d = it.fresh('seq', sort or AR)
    q = z3.Int('q?s')
    it.assume(z3.ForAll([q], d[q] == f(q), patterns=[d[q]]))
    return d


def frame(it, old, keys=(), refs=()):
    """nothing that existed before changes, refs excepted (images by their abstract value)"""
    for fk in sorted(set(it.st.heap) | set(old.heap)):
        if fk in keys or fk in (DATA, '$tag') or fk.startswith('$box'): continue
        e = it.entry_arrays.get(fk)
        a, b = it.st.heap.get(fk, e), old.heap.get(fk, e)
        if a is None or b is None or a.eq(b): continue
        r = it.fresh('r', IntSort())
        it.check('nothing else changes: ' + fk.split('::')[-1], z3.Implies(z3.And([0 < r, r < old.nextref] + [r != x for x in refs]), it.val_eq(sel(a, r), sel(b, r))))


# ------------------------------------------------------------------ Immutable / Mutable
class ImmCtor(Contract):
    keys = (IMN + '::Immutable',)
    field = IM
    atomic = False        # a constructor that throws leaves no object

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def model(self, it, this, args):
        d = it.read(args[0])
        if it.branch(d == 0): raise CxxThrow('EFG::Error')
        it.write(LV(('h', self.field, this.ref)), d)


class MutCtor(ImmCtor):
    keys = (MUN + '::Mutable',)
    field = MU


class MutSet(Contract):
    """Mutable::set: refuses negative values and combinations outside of the domain, otherwise writes"""
    keys = (MUN + '::set',)

    def model(self, it, this, args):
        S = it.spec
        c, x = it.read(args[0]), it.read(args[1])
        fn = H(it, MU, this.ref)
        ok = z3.And(x >= 0, S.inDom(sizes(it, fn), c))
        if it.branch(z3.Not(ok)): raise CxxThrow('EFG::Error')
        it.assume(S.canon(c))
        setimg(it, fn, z3.Store(img(it, fn), c, x))
        newdata(it, fn)


class GetProbabilities(Contract):
    """one entry per combination in order: the image divided by the sum of the images (uniform when it is null)"""
    keys = (IMN + '::getProbabilities',)

    def want(self, it, this):
        S = it.spec
        fn = fn_of(it, this)
        s = sizes(it, fn)
        d = darr(it, lambda q: T(it, fn, z3.Select(img(it, fn), S.unrank(s, q))))
        n = S.tot(s)
        return n, d, S.sum['R'](d, n)

    def model(self, it, this, args):
        from c_message import light, PROBS, UVAR
        if light(it):
            p = PROBS(this.ref)
            it.assume_all([VR.wf(p), VR.len(p) == z3.Select(heaps(it)[1], H(it, UVAR, this.ref))])
            if hasattr(it.verifying, 'on_probs'): it.verifying.on_probs(it)
            return p
        n, d, sm = self.want(it, this)
        v = it.fresh('probs', VR.sort)
        j = z3.Int('j?p')
        it.assume_all([VR.wf(v), VR.len(v) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), VR.at(v, j) == z3.If(sm == 0, 1 / z3.ToReal(n), d[j] / sm)), patterns=[VR.at(v, j)])])
        return v

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        n, d, sm = self.want(it, this)
        v = it.read(v) if isinstance(v, LV) else v
        it.check('one entry per combination', VR.len(v) == n)
        j = it.fresh('j', IntSort())
        it.assume(z3.And(0 <= j, j < n))
        it.assume(d[j] == d[j])
        x = VR.at(v, j)
        it.check('no image: uniform', z3.Implies(sm == 0, x * z3.ToReal(n) == 1))
        it.check('proportional to the images', z3.Implies(sm != 0, x == d[j] / sm))
        frame(it, old)


# ------------------------------------------------------------------ ImageFinder
def soup_pos(it, big, small, idx, j):
    """idx[j] is the position in big of the variable small[j]"""
    p = VI.at(idx, j)
    return z3.And(0 <= p, p < VI.len(big), VI.at(big, p) == VI.at(small, j))


def idx_ok(it, big, small, idx):
    j = z3.Int('j?i')
    return [VI.len(idx) == VI.len(small), VI.wf(idx),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(small)), soup_pos(it, big, small, idx, j)), patterns=[VI.at(idx, j), VI.at(small, j)])]


def missing_from(it, big, small):
    j, p = z3.Ints('j?m p?m')
    w = it.fresh('missing', IntSort())
    # witness form: some variable of small that is at no position of big
    return w, [0 <= w, w < VI.len(small), z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < VI.len(big)), VI.at(big, p) != VI.at(small, w)), patterns=[VI.at(big, p)])]


def check_missing(it, big, small):
    """obligation: some variable of small is at no position of big"""
    j = z3.Int('j?o')
    w = z3.Function(gname('wit'), IntSort(), IntSort())
    it.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(small)), z3.And(0 <= w(j), w(j) < VI.len(big), VI.at(big, w(j)) == VI.at(small, j))), patterns=[VI.at(small, j)]))
    # pigeonhole: distinct variables are at distinct positions
    it.assume(VI.len(small) <= VI.len(big))
    it.check('refused only when a variable is missing', FALSE)


class GetIndices(Contract):
    """positions of the variables of the smaller group in the bigger one; refused when one is missing"""
    keys = ('EFG::factor::(anonymous namespace)::get_indices',)

    def setup(self, it, f, this, args):
        it.assume_all(c_group.soup_ok(it, it.read(args[0])))
        it.assume_all(c_group.soup_ok(it, it.read(args[1])))
        small, big = it.read(args[0]), it.read(args[1])

        def hint(it, info, entry, trans):
            q = z3.Int('q?h')
            out = []
            for l in info.leaves:
                if l.sort is not None and l.sort == z3.ArraySort(IntSort(), IntSort()):
                    p = z3.Select(l.sym, q)
                    out.append(('positions found so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < info.n), z3.And(0 <= p, p < VI.len(big), VI.at(big, p) == VI.at(small, q))), patterns=[p, VI.at(small, q)])))
            return out
        it.hints = [hint] + it.hints
        # the variables of a factor are distinct
        v = it.read(args[0])
        i, j = z3.Ints('i?u j?u')
        it.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < VI.len(v), 0 <= j, j < VI.len(v), VI.at(v, i) == VI.at(v, j)), i == j), patterns=[z3.MultiPattern(VI.at(v, i), VI.at(v, j))]))

    def model(self, it, this, args):
        small, big = it.read(args[0]), it.read(args[1])
        ok = it.fresh('contained', BoolSort())
        if it.branch(z3.Not(ok)):
            it.assume_all(missing_from(it, big, small)[1])
            raise CxxThrow('EFG::Error')
        x = it.fresh('indices', VI.sort)
        it.assume_all(idx_ok(it, big, small, x))
        it.assume(VI.len(small) <= VI.len(big))
        return x

    def outcome(self, it, f, this, args, kind, v, old):
        small, big = it.read(args[0]), it.read(args[1])
        if kind == 'throw': check_missing(it, big, small); return
        v = it.read(v) if isinstance(v, LV) else v
        it.check('one position per variable', VI.len(v) == VI.len(small))
        k = it.fresh('k', IntSort())
        it.assume(z3.And(0 <= k, k < VI.len(small)))
        it.check('position of the variable', soup_pos(it, big, small, v, k))
        frame(it, old)


def if_dt(it):
    rid = it.prog.recbyname[IFN][0]['id']
    k = it.T.kind(it.prog.ty(it.prog.rec[rid]['t']))
    n = {x.split('::')[-1]: x for x in k[1].names}
    if set(n) != {'function_', 'indices_in_bigger_group'}: raise Unsupported('representation of ImageFinder')
    return k[1], n['function_'], n['indices_in_bigger_group']


class FinderCtor(Contract):
    keys = (IFN + '::ImageFinder',)

    def sig(self, prog, f): return len(f['ps']) == 2

    def pre(self, it, this, args):
        fn = it.read(args[0])
        return [('a function', isfn(it, fn)), ('valid function', and_(finv(it, fn))), ('non-null variables', and_(c_group.soup_ok(it, it.read(args[1]))))]

    def model(self, it, this, args):
        fn, big = it.read(args[0]), it.read(args[1])
        x = GetIndices().model(it, None, [it.newcell(gvars(it, H(it, V_, fn))), args[1]])
        dt, a, b = if_dt(it)
        it.write(this, dt.mk(*[{a: fn, b: x}[k] for k in dt.names]))

    def outcome(self, it, f, this, args, kind, v, old):
        fn, big = it.read(args[0]), it.read(args[1])
        dt, a, b = if_dt(it)
        if kind == 'throw': check_missing(it, big, gvars(it, H(it, V_, fn))); return
        t = it.read(this)
        it.check('keeps the function', dt.get(t, a) == fn)
        small = gvars(it, H(it, V_, fn))
        x = dt.get(t, b)
        it.check('one position per variable', VI.len(x) == VI.len(small))
        k = it.fresh('k', IntSort())
        it.assume(z3.And(0 <= k, k < VI.len(small)))
        it.check('position of the variable', soup_pos(it, big, small, x, k))


class MakeFinder(Contract):
    keys = (IMN + '::makeFinder',)

    def pre(self, it, this, args): return [('non-null variables', and_(c_group.soup_ok(it, it.read(args[0]))))]

    def model(self, it, this, args):
        dt, a, b = if_dt(it)
        rid = it.prog.recbyname[IFN][0]['id']
        c = it.newcell(it.fresh('finder', dt.sort), it.prog.ty(it.prog.rec[rid]['t']))
        FinderCtor().model(it, c, [it.newcell(fn_of(it, this)), args[0]])
        return it.read(c)

    def outcome(self, it, f, this, args, kind, v, old):
        fn = fn_of(it, this)
        if kind == 'throw': check_missing(it, it.read(args[0]), gvars(it, H(it, V_, fn))); return
        dt, a, b = if_dt(it)
        v = it.read(v) if isinstance(v, LV) else v
        it.check('finder of this factor', dt.get(v, a) == fn)
        small, big = gvars(it, H(it, V_, fn)), it.read(args[0])
        x = dt.get(v, b)
        it.check('one position per variable', VI.len(x) == VI.len(small))
        k = it.fresh('k', IntSort())
        it.assume(z3.And(0 <= k, k < VI.len(small)))
        it.check('position of the variable', soup_pos(it, big, small, x, k))
        frame(it, old)


def finder_parts(it, this):
    dt, a, b = if_dt(it)
    t = it.read(this)
    return dt.get(t, a), dt.get(t, b)


class Extract(Contract):
    keys = (IFN + '::extractSmallerCombination',)

    def pre(self, it, this, args):
        fn, x = finder_parts(it, this)
        j = z3.Int('j?e')
        c = it.read(args[0])
        return [('positions inside of the combination', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(x)), z3.And(0 <= VI.at(x, j), VI.at(x, j) < VI.len(c))), patterns=[VI.at(x, j)]))]

    def model(self, it, this, args):
        g = gather(it.read(args[0]), finder_parts(it, this)[1])
        it.assume(it.spec.canon(g))
        return g

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        v = it.read(v) if isinstance(v, LV) else v
        g = gather(it.read(args[0]), finder_parts(it, this)[1])
        it.check('selected entries', it.val_eq(v, g))


class FinderImage(Contract):
    keys = (IFN + '::findImage',)

    def pre(self, it, this, args):
        fn, x = finder_parts(it, this)
        it.assume_inv(fn, it.prog.ty(it.prog.rec[it.prog.recbyname[FN][0]['id']]['t']))
        c = it.read(args[0])
        return Extract().pre(it, this, args) + [('valid finder', isfn(it, fn)), ('combination in the domain', it.spec.inDom(sizes(it, fn), gather(c, x)))]

    def setup(self, it, f, this, args):
        fn, x = finder_parts(it, this)
        it.assume_all(finv(it, fn))

    def model(self, it, this, args):
        fn, x = finder_parts(it, this)
        return z3.Select(img(it, fn), gather(it.read(args[0]), x))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        it.check('image of the selected entries', v == self.model(it, this, args))
        frame(it, old)


class FinderTransf(FinderImage):
    keys = (IFN + '::findTransformed',)

    def model(self, it, this, args):
        fn, x = finder_parts(it, this)
        g = gather(it.read(args[0]), x)
        if hasattr(it, 'finder_hook'):
            it.assume(it.spec.canon(g))
            it.assume(it.finder_hook(it, g, fn, it.read(args[0])))
        return T(it, fn, z3.Select(img(it, fn), g))


# ------------------------------------------------------------------ Factor
def new_function(it, g, im=None, cls=FN):
    """allocates a table over the group g with images im (null when absent)"""
    r = it.alloc(it.prog.recbyname[cls][0]['id'])
    FnCtor().model(it, Obj(r, it.prog.ty(it.prog.rec[it.prog.recbyname[FN][0]['id']]['t'])), [it.newcell(g)])
    if im is not None:
        setimg(it, r, im)
        newdata(it, r)
    return r


def images(it, s, want):
    """ghost table: want(c) in the domain, 0 outside"""
    a = it.fresh('img', IMGS)
    c = z3.Const('c?w', VI.sort)
    it.assume(z3.ForAll([c], a[c] == z3.If(z3.And(it.spec.inDom(s, c), it.spec.canon(c)), want(c), 0), patterns=[a[c]]))
    return a


def check_images(it, fn, want, what):
    S = it.spec
    c = it.fresh('c', VI.sort)
    it.assume_all([VI.wf(c), S.canon(c), S.inDom(sizes(it, fn), c)])
    it.check(what, z3.Select(img(it, fn), c) == want(c))
    return c


class FactorData(Contract):
    keys = (FACN + '::Factor',)
    atomic = False

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args): return [('a plain table', z3.Not(isexp(it, it.read(args[0]))))]

    def model(self, it, this, args):
        d = it.read(args[0])
        if it.branch(d == 0): raise CxxThrow('EFG::Error')
        it.write(LV(('h', IM, this.ref)), d)
        it.write(LV(('h', MU, this.ref)), d)


class FactorContract(Contract):
    """a constructor of Factor: new table over group() with images want()"""
    def group(self, it, this, args): raise NotImplementedError

    def want(self, it, this, args, s): raise NotImplementedError

    def model(self, it, this, args):
        g = self.group(it, this, args)
        s = c_group.sizes_vec(it, g)
        r = new_function(it, g, images(it, s, self.want(it, this, args, s)))
        self.store(it, this, r)

    def store(self, it, this, r):
        it.write(LV(('h', IM, this.ref)), r)
        it.write(LV(('h', MU, this.ref)), r)

    def setup(self, it, f, this, args):
        it.assume(it.spec.tot(c_group.sizes_vec(it, self.group(it, this, args))) < U64)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        self.check_new(it, this.ref, self.group(it, this, args), lambda s: self.want(it, this, args, s), old, (this.ref,))

    def check_new(self, it, ref, g, want, old, refs=()):
        fn = H(it, IM, ref)
        it.check('one table for reading and writing', z3.And(fn == H(it, MU, ref), fn > 0))
        it.check('a table of its own', fn >= old.nextref)
        it.check('plain images', z3.Not(isexp(it, fn)))
        it.check('has the variables', it.val_eq(H(it, V_, fn), g))
        frame(it, old, refs=refs)
        it.assume(sizes(it, fn) == c_group.sizes_vec(it, g))
        self.check_want(it, fn, g, want)

    def check_want(self, it, fn, g, want): check_images(it, fn, want(sizes(it, fn)), 'images')


class FactorVars(FactorContract):
    keys = (FACN + '::Factor',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('EFG::categoric::Group')

    def pre(self, it, this, args): return [('group invariant', and_(ginv(it, it.read(args[0]))))]

    def group(self, it, this, args): return it.read(args[0])

    def want(self, it, this, args, s): return lambda c: z3.RealVal(0)


class FactorCopy(FactorContract):
    keys = (FACN + '::Factor',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec(FACN)

    def group(self, it, this, args): return H(it, V_, fn_of(it, args[0]))

    def want(self, it, this, args, s):
        im = img(it, fn_of(it, args[0]))
        return lambda c: im[c]


class FactorClone(FactorCopy):
    """images of the source as seen through its transformation"""
    def sig(self, prog, f): return len(f['ps']) == 2 and prog.ty(f['ps'][0]['t']).noref().isrec(IMN)

    def want(self, it, this, args, s):
        fn = fn_of(it, args[0])
        im = img(it, fn)
        return lambda c: T(it, fn, im[c])


# ------------------------------------------------------------------ FactorExponential
EXN = 'EFG::factor::(anonymous namespace)::ExponentialFunction'


class ExpFnCtor(Contract):
    """table with the images of the giver, seen through exp(weight * image)"""
    keys = (EXN + '::ExponentialFunction',)

    def sig(self, prog, f): return len(f['ps']) == 2

    def setup(self, it, f, this, args): it.assume_all(coupled(it, args[0].ref))

    def model(self, it, this, args):
        g = args[0].ref
        FnCtor().model(it, this, [it.newcell(H(it, V_, g))])
        setimg(it, this.ref, img(it, g))
        newdata(it, this.ref)
        it.write(LV(('h', wkey(it), this.ref)), it.read(args[1]))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        g = args[0].ref
        it.check('weight', weight(it, this.ref) == it.read(args[1]))
        frame(it, old, refs=(this.ref,))
        check_finv(it, this.ref, H(it, V_, g), 'exponential table')
        check_coupled(it, this.ref, lambda c: img(it, g)[c], 'images of the giver')
    writes_data = True


class ExpFnGet(Contract):
    keys = (EXN + '::getWeight',)

    def model(self, it, this, args): return weight(it, this.ref)


class ExpFnSet(Contract):
    keys = (EXN + '::setWeight',)

    def model(self, it, this, args): it.write(LV(('h', wkey(it), this.ref)), it.read(args[0]))


class ExpGetWeight(Contract):
    keys = (FEN + '::getWeight',)

    def model(self, it, this, args): return weight(it, fn_of(it, this))


class ExpSetWeight(Contract):
    keys = (FEN + '::setWeight',)

    def model(self, it, this, args): it.write(LV(('h', wkey(it), fn_of(it, this))), it.read(args[0]))


class ExpData(FactorData):
    keys = (FEN + '::FactorExponential',)

    def pre(self, it, this, args): return [('an exponential table', z3.Or(it.read(args[0]) == 0, isexp(it, it.read(args[0]))))]


class ExpContract(FactorContract):
    keys = (FEN + '::FactorExponential',)

    def w(self, it, this, args): return it.read(args[1])

    def group(self, it, this, args): return H(it, V_, fn_of(it, args[0]))

    def setup(self, it, f, this, args): pass

    def model(self, it, this, args):
        r = it.alloc(it.prog.recbyname[EXN][0]['id'])
        o = Obj(r, it.prog.ty(it.prog.rec[it.prog.recbyname[EXN][0]['id']]['t']))
        w = self.w(it, this, args)
        fn = fn_of(it, args[0])
        ExpFnCtor().model(it, o, [Obj(fn, None), it.newcell(w)])
        self.store(it, this, r)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        fn = H(it, IM, this.ref)
        src = fn_of(it, args[0])
        it.check('one table for reading and writing', z3.And(fn == H(it, MU, this.ref), fn > 0))
        it.check('a table of its own', fn >= old.nextref)
        it.check('exponential images', isexp(it, fn))
        it.check('weight', weight(it, fn) == self.w(it, this, args))
        it.check('has the variables', it.val_eq(H(it, V_, fn), H(it, V_, src)))
        frame(it, old, refs=(this.ref,))
        it.assume(sizes(it, fn) == sizes(it, src))
        check_images(it, fn, lambda c: img(it, src)[c], 'images of the source')


class ExpOfFactor(ExpContract):
    def sig(self, prog, f): return len(f['ps']) == 2 and prog.ty(f['ps'][0]['t']).noref().isrec(FACN)


class ExpOfFactor1(ExpContract):
    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec(FACN)

    def w(self, it, this, args): return z3.RealVal(1)


class ExpCopy(ExpContract):
    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec(FEN)

    def w(self, it, this, args): return weight(it, fn_of(it, args[0]))


# ------------------------------------------------------------------ correlation factors
# the combination of n variables that all have the value k
rep = z3.Function('rep', IntSort(), IntSort(), VI.sort)
SCN, SAN = ['EFG::factor::(anonymous namespace)::' + x for x in ('SimplyCorrelatedFunction', 'SimplyAntiCorrelatedFunction')]


def rep_axioms(it):
    n, k, j = z3.Ints('n?r k?r j?r')
    r = rep(n, k)
    return [z3.ForAll([n, k], z3.And(VI.len(r) == n, it.spec.canon(r)), patterns=[r]),
            z3.ForAll([n, k, j], z3.Select(VI.arr(r), j) == z3.If(z3.And(0 <= j, j < n), k, 0), patterns=[z3.Select(VI.arr(r), j)])]


def same(it, c): return c == rep(VI.len(c), VI.at(c, 0))


class AllSameSize(Contract):
    keys = ('EFG::factor::(anonymous namespace)::check_all_same_size',)

    def pre(self, it, this, args):
        v = it.read(args[0])
        return [('some variable', VI.len(v) >= 1), ('non-null variables', and_(c_group.soup_ok(it, v)))]

    def same(self, it, v):
        hs = heaps(it)[1]
        j = z3.Int('j?s')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(v)), z3.Select(hs, VI.at(v, j)) == z3.Select(hs, VI.at(v, 0))), patterns=[VI.at(v, j)])

    def diff(self, it, v):
        hs = heaps(it)[1]
        w = it.fresh('differs', IntSort())
        return z3.And(0 <= w, w < VI.len(v), z3.Select(hs, VI.at(v, w)) != z3.Select(hs, VI.at(v, 0)))

    def model(self, it, this, args):
        v = it.read(args[0])
        ok = it.fresh('samesize', BoolSort())
        if it.branch(z3.Not(ok)):
            it.assume(self.diff(it, v))
            raise CxxThrow('EFG::Error')
        it.assume(self.same(it, v))

    def outcome(self, it, f, this, args, kind, v, old):
        v = it.read(args[0])
        if kind == 'throw':
            it.assume(self.same(it, v))
            it.check('refused only for different sizes', FALSE)
            return
        j = it.fresh('j', IntSort())
        hs = heaps(it)[1]
        it.check('different sizes are refused', z3.Implies(z3.And(0 <= j, j < VI.len(v)), z3.Select(hs, VI.at(v, j)) == z3.Select(hs, VI.at(v, 0))))
        frame(it, old)


class CorrFnCtor(Contract):
    extensional = True
    keys = (SCN + '::SimplyCorrelatedFunction',)
    yes, no = 1, 0
    writes_data = True

    def pre(self, it, this, args): return [('group invariant', and_(ginv(it, it.read(args[0]))))]

    def sz(self, it, args): return c_group.sizes_vec(it, it.read(args[0]))

    def want(self, it): return lambda c: z3.If(same(it, c), z3.RealVal(self.yes), z3.RealVal(self.no))

    def refused(self, it, args):
        v = gvars(it, it.read(args[0]))
        hs = heaps(it)[1]
        return z3.Or(VI.len(v) == 1, AllSameSize().diff(it, v))

    def setup(self, it, f, this, args):
        S = it.spec
        s = self.sz(it, args)
        it.assume(S.tot(s) < U64)
        it.assume_all(rep_axioms(it))
        L = VI.len(s)
        it.assume(S.canon(rep(L, I0)))

        def hint(it, info, entry, trans):
            out, n = [], info.n
            q = z3.Const('q?h', VI.sort)
            r = z3.Int('r?h')
            isn = z3.And(same(it, q), VI.len(q) == L, 0 <= VI.at(q, 0), VI.at(q, 0) < n)
            for l in info.leaves:
                if l.sort is None or not z3.is_array(l.sym): continue
                if l.sort == VI.arr(rep(L, n)).sort(): out.append(('all entries have the current value', l.sym == VI.arr(rep(L, n))))
                if l.sort == z3.ArraySort(VI.sort, BoolSort()): out.append(('stored so far', z3.ForAll([q], z3.Select(l.sym, q) == isn, patterns=[z3.Select(l.sym, q)])))
                if l.sort == z3.ArraySort(VI.sort, RealSort()): out.append(('stored values', z3.ForAll([q], z3.Select(l.sym, q) == z3.If(isn, z3.RealVal(1), z3.RealVal(0)), patterns=[z3.Select(l.sym, q)])))
                if l.sort == AR:
                    u = S.unrank(s, r)
                    out.append(('entries so far', z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < S.tot(s)), z3.Select(l.sym, r) == z3.If(z3.And(same(it, u), VI.at(u, 0) < n), z3.RealVal(0), z3.RealVal(1))), patterns=[z3.Select(l.sym, r)])))
            return out
        it.hints = [hint] + it.hints

    def model(self, it, this, args):
        g = it.read(args[0])
        s = c_group.sizes_vec(it, g)
        v = gvars(it, g)
        ok = it.fresh('accepted', BoolSort())
        if it.branch(z3.Not(ok)):
            it.assume(self.refused(it, args))
            raise CxxThrow('EFG::Error')
        it.assume_all([VI.len(v) != 1, AllSameSize().same(it, v)])
        FnCtor().model(it, this, args)
        setimg(it, this.ref, images(it, s, self.want(it)))
        newdata(it, this.ref)

    def outcome(self, it, f, this, args, kind, v, old):
        v = gvars(it, it.read(args[0]))
        if kind == 'throw':
            it.assume_all([VI.len(v) != 1, AllSameSize().same(it, v)])
            it.check('refused only for a single variable or different sizes', FALSE)
            return
        it.check('a single variable is refused', VI.len(v) != 1)
        j = it.fresh('j', IntSort())
        hs = heaps(it)[1]
        it.check('different sizes are refused', z3.Implies(z3.And(0 <= j, j < VI.len(v)), z3.Select(hs, VI.at(v, j)) == z3.Select(hs, VI.at(v, 0))))
        frame(it, old, refs=(this.ref,))
        check_finv(it, this.ref, it.read(args[0]), 'correlation table')
        check_coupled(it, this.ref, self.want(it), 'correlation')


class AntiFnCtor(CorrFnCtor):
    keys = (SAN + '::SimplyAntiCorrelatedFunction',)
    yes, no = 0, 1


class FactorCorr(FactorContract):
    keys = (FACN + '::Factor',)
    tag, cls, fn = 'SimplyCorrelatedTag', SCN, CorrFnCtor

    def sig(self, prog, f): return len(f['ps']) == 2 and prog.ty(f['ps'][1]['t']).noref().isrec(FACN + '::' + self.tag)

    def pre(self, it, this, args): return [('group invariant', and_(ginv(it, it.read(args[0]))))]

    def group(self, it, this, args): return it.read(args[0])

    def want(self, it, this, args, s): return self.fn().want(it)

    def model(self, it, this, args):
        r = it.alloc(it.prog.recbyname[self.cls][0]['id'])
        self.fn().model(it, Obj(r, it.prog.ty(it.prog.rec[it.prog.recbyname[self.cls][0]['id']]['t'])), args[:1])
        self.store(it, this, r)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw':
            v = gvars(it, it.read(args[0]))
            it.assume_all([VI.len(v) != 1, AllSameSize().same(it, v)])
            it.check('refused only for a single variable or different sizes', FALSE)
            return
        v = gvars(it, it.read(args[0]))
        it.check('a single variable is refused', VI.len(v) != 1)
        FactorContract.outcome(self, it, f, this, args, kind, v, old)


class FactorAnti(FactorCorr):
    tag, cls, fn = 'SimplyAntiCorrelatedTag', SAN, AntiFnCtor


# ------------------------------------------------------------------ permutation
class NewPositions(Contract):
    """position of every variable of the first list in the second one (its length when missing)"""
    keys = ('EFG::factor::(anonymous namespace)::compute_new_positions',)

    def pos(self, it, old, new, p, x):
        j = z3.Int('j?w')
        return z3.Or(z3.And(0 <= x, x < VI.len(new), VI.at(new, x) == VI.at(old, p)),
                     z3.And(x == VI.len(new), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(new)), VI.at(new, j) != VI.at(old, p)), patterns=[VI.at(new, j)])))

    def setup(self, it, f, this, args):
        old, new = it.read(args[0]), it.read(args[1])

        def hint(it, info, entry, trans):
            q = z3.Int('q?h')
            out = []
            for l in info.leaves:
                if l.sort is not None and l.sort == z3.ArraySort(IntSort(), IntSort()):
                    x = z3.Select(l.sym, q)
                    out.append(('positions found so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < info.n), self.pos(it, old, new, q, x)), patterns=[x])))
            return out
        it.hints = [hint] + it.hints

    def model(self, it, this, args):
        old, new = it.read(args[0]), it.read(args[1])
        x = it.fresh('positions', VI.sort)
        j = z3.Int('j?q')
        it.assume_all([VI.wf(x), VI.len(x) == VI.len(old), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(old)), self.pos(it, old, new, j, VI.at(x, j))), patterns=[VI.at(x, j), VI.at(old, j)])])
        return x

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        v = it.read(v) if isinstance(v, LV) else v
        o, n = it.read(args[0]), it.read(args[1])
        it.check('one position per variable', VI.len(v) == VI.len(o))
        k = it.fresh('k', IntSort())
        it.assume(z3.And(0 <= k, k < VI.len(o)))
        it.check('position of the variable', self.pos(it, o, n, k, VI.at(v, k)))
        frame(it, old)


class GetPermuted(Contract):
    keys = ('EFG::factor::(anonymous namespace)::get_permuted',)

    def pre(self, it, this, args):
        c, p = it.read(args[0]), it.read(args[1])
        i, j = z3.Ints('i?p j?p')
        L = VI.len(c)
        a, b = VI.at(p, i), VI.at(p, j)
        return [('as many positions as entries', VI.len(p) == L),
                ('positions inside', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L), z3.And(0 <= a, a < L)), patterns=[a])),
                ('distinct positions', z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < L, 0 <= j, j < L, a == b), i == j), patterns=[z3.MultiPattern(a, b)]))]

    def setup(self, it, f, this, args):
        c, p = it.read(args[0]), it.read(args[1])

        def hint(it, info, entry, trans):
            q = z3.Int('q?h')
            out = []
            for l in info.leaves:
                if l.sort is not None and l.sort == z3.ArraySort(IntSort(), IntSort()):
                    out.append(('entries placed so far', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < info.n), z3.Select(l.sym, VI.at(p, q)) == VI.at(c, q)), patterns=[VI.at(p, q), VI.at(c, q)])))
            return out
        it.hints = [hint] + it.hints

    def model(self, it, this, args):
        c, p = it.read(args[0]), it.read(args[1])
        x = it.fresh('permuted', VI.sort)
        j = z3.Int('j?q')
        it.assume_all([VI.wf(x), it.spec.canon(x), VI.len(x) == VI.len(c), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(c)), VI.at(x, VI.at(p, j)) == VI.at(c, j)), patterns=[VI.at(p, j), VI.at(c, j)])])
        for w in getattr(it, 'watch', ()): it.assume(ext(it, x, w))
        return x

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        v = it.read(v) if isinstance(v, LV) else v
        c, p = it.read(args[0]), it.read(args[1])
        it.check('same length', VI.len(v) == VI.len(c))
        k = it.fresh('k', IntSort())
        it.check('entries at their positions', z3.Implies(z3.And(0 <= k, k < VI.len(c)), VI.at(v, VI.at(p, k)) == VI.at(c, k)))
        frame(it, old)


def set_same(it, a, b):
    """same members (the same variable objects)"""
    k = z3.Const('k?e', VKey.sort)
    da, db = SET.get(a, 'dom'), SET.get(b, 'dom')
    ka, kb = SET.get(a, 'key'), SET.get(b, 'key')
    return z3.ForAll([k], z3.And(da[k] == db[k], z3.Implies(da[k], ka[k] == kb[k])), patterns=[da[k], db[k]])


class ClonePermuted(FactorContract):
    """same images, with the entries of the combinations in the new order"""
    keys = (FACN + '::cloneWithPermutedGroup',)

    def pre(self, it, this, args): return [('group invariant', and_(ginv(it, it.read(args[0]))))]

    def setup(self, it, f, this, args):
        S = it.spec
        g = it.read(args[0])
        sn = c_group.sizes_vec(it, g)
        it.assume(S.tot(sn) < U64)
        fn = fn_of(it, this)
        so = sizes(it, fn)
        # an arbitrary combination of the new group
        c = self.c = it.fresh('cnew', VI.sort)
        it.assume_all([VI.wf(c), S.canon(c), S.inDom(sn, c)])
        self.np, self.co = self.old_comb(it, this, g, c)

        it.watch = [c]

        def hint(it, info, entry, trans):
            out = []
            u = S.unrank(so, info.n)
            info.defs += [z3.Implies(z3.And(0 <= info.n, info.n < S.tot(so)), S.canon(u)), ext(it, u, self.co)]
            for l in info.leaves:
                if l.sort is not None and l.sort == IMGS and l.base[0] == 'h':
                    out.append(('image already copied', z3.Implies(S.rank(so, self.co) < info.n, z3.Select(l.sym, c) == z3.Select(img(it, fn), self.co))))
            return out
        it.hints = [hint] + it.hints

    def old_comb(self, it, this, g, c):
        """the combination of the old group with the same values"""
        hn, hs = heaps(it)
        fn = fn_of(it, this)
        old, new = gvars(it, H(it, V_, fn)), gvars(it, g)
        np = it.fresh('newpos', VI.sort)
        j = z3.Int('j?np')
        it.assume_all([VI.wf(np), VI.len(np) == VI.len(old), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(old)), VI.at(np, j) == c_group.gpos(new, hn, hs, vk(hn, hs, VI.at(old, j)))), patterns=[VI.at(np, j), VI.at(old, j)])])
        co = gather(c, np)
        it.assume(it.spec.canon(co))
        return np, co

    def outcome(self, it, f, this, args, kind, v, old):
        g = it.read(args[0])
        fn = fn_of(it, this)
        sg = H(it, V_, fn)
        if kind == 'throw':
            it.assume(set_same(it, gset(it, g), gset(it, sg)))
            it.assume(SET.size(gset(it, g)) == SET.size(gset(it, sg)))
            it.check('a permutation of the group is accepted', FALSE)
            return
        k = it.fresh('k', VKey.sort)
        a, b = gset(it, g), gset(it, sg)
        it.check('only a permutation of the group is accepted', SET.has(a, k) == SET.has(b, k))
        ref = v.ref if isinstance(v, Obj) else v
        f2 = H(it, IM, ref)
        it.check('one table for reading and writing', z3.And(f2 == H(it, MU, ref), f2 > 0))
        it.check('a table of its own', f2 >= old.nextref)
        it.check('plain images', z3.Not(isexp(it, f2)))
        it.check('has the new group', it.val_eq(H(it, V_, f2), g))
        frame(it, old)
        it.check('same domain up to the order', it.spec.inDom(sizes(it, fn), self.co))
        it.check('same images up to the order', z3.Select(img(it, f2), self.c) == z3.Select(img(it, fn), self.co))


# ------------------------------------------------------------------ merge
IMCLS = lambda it: it.prog.recbyname[IMN][0]['id']


def facs_ok(it, F):
    i = z3.Int('i?f')
    r = VI.at(F, i)
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VI.len(F)), z3.And(r > 0, r < it.st.nextref, it.isinstance_(r, IMCLS(it)))), patterns=[r])]


def vars_of(it, r): return gvars(it, H0(it, V_, H0(it, IM, r)))


def H0(it, k, ref): return z3.Select(it.harr(k, it.fsorts[k]) if k in it.fsorts else it.harr(k, it.fsort(k)), ref)


class GatherVariables(Contract):
    """the group of all the variables of the factors; refused when two of them are different but equal in name and size"""
    strong = False
    keys = ('EFG::factor::(anonymous namespace)::gather_variables',)

    def pre(self, it, this, args): return [('valid factors', and_(facs_ok(it, it.read(args[0]))))]

    def setup(self, it, f, this, args):
        F = it.read(args[0])
        it.hints = [lambda it, info, entry, trans: self.hint(it, info, entry, F)] + it.hints

    def hint(self, it, info, entry, F):
        out, n = [], info.n
        hn, hs = heaps(it)
        K = lambda r: vk(hn, hs, r)
        d = {}
        for l in info.leaves:
            if l.path and l.path[-1][0] == 'dt' and l.path[-1][1] is SET: d.setdefault((l.base[:2], l.path[:-1]), {})[l.path[-1][2]] = l
        i, j = z3.Ints('i?h j?h')
        k = z3.Const('k?h', VKey.sort)
        for x in d.values():
            if 'dom' not in x or 'key' not in x: continue
            dom, key, d0, k0 = x['dom'].sym, x['key'].sym, x['dom'].init, x['key'].init
            # over the factors
            V = vars_of(it, VI.at(F, i))
            v = VI.at(V, j)
            inr = z3.And(0 <= i, i < n, 0 <= j, j < VI.len(V))
            out.append(('variables of the visited factors are in the set', z3.ForAll([i, j], z3.Implies(inr, z3.And(dom[K(v)], key[K(v)] == v)), patterns=[v])))
            out.append(('only variables of the visited factors', z3.ForAll([k], z3.Implies(dom[k], z3.Not(z3.ForAll([i, j], z3.Not(z3.And(inr, K(v) == k, v == key[k], v > 0)), patterns=[v]))), patterns=[dom[k], key[k]])))
            out.append(('variables in the set are valid', z3.ForAll([k], z3.Implies(dom[k], z3.And(key[k] > 0, z3.Select(hs, key[k]) >= 1)), patterns=[dom[k], key[k]])))
            # over the variables of one factor
            for W in c_group.candidate_vecs(it, entry):
                w = VI.at(W, j)
                inw = z3.And(0 <= j, j < n, j < VI.len(W))
                out.append(('visited variables are in the set', z3.ForAll([j], z3.Implies(inw, z3.And(dom[K(w)], key[K(w)] == w)), patterns=[w])))
                out.append(('only earlier and visited variables', z3.ForAll([k], z3.Implies(z3.And(dom[k], z3.Not(d0[k])), z3.Not(z3.ForAll([j], z3.Not(z3.And(inw, K(w) == k, w == key[k])), patterns=[w]))), patterns=[dom[k], key[k]])))
            out.append(('earlier variables stay', z3.ForAll([k], z3.Implies(d0[k], z3.And(dom[k], key[k] == k0[k])), patterns=[d0[k], dom[k], key[k]])))
        return out

    def facts(self, it, F, v):
        """v: variables of the group"""
        hn, hs = heaps(it)
        i, j, p = z3.Ints('i?g j?g p?g')
        V = vars_of(it, VI.at(F, i))
        x = VI.at(V, j)
        pos = c_group.gpos(v, hn, hs, vk(hn, hs, x))
        return [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < VI.len(F), 0 <= j, j < VI.len(V)), z3.And(0 <= pos, pos < VI.len(v), VI.at(v, pos) == x)), patterns=[x])]

    def conflict(self, it, F):
        hn, hs = heaps(it)
        i, j, i2, j2 = [it.fresh(n, IntSort()) for n in 'abcd']
        A, B = vars_of(it, VI.at(F, i)), vars_of(it, VI.at(F, i2))
        x, y = VI.at(A, j), VI.at(B, j2)
        return z3.Or(VI.len(F) == 0, z3.And(0 <= i, i < VI.len(F), 0 <= i2, i2 < VI.len(F), 0 <= j, j < VI.len(A), 0 <= j2, j2 < VI.len(B), x != y, vk(hn, hs, x) == vk(hn, hs, y)))

    def model(self, it, this, args):
        F = it.read(args[0])
        ok = it.fresh('compatible', BoolSort())
        if it.branch(z3.Not(ok)):
            it.assume(self.conflict(it, F))
            raise CxxThrow('EFG::Error')
        v = it.fresh('union', VI.sort)
        it.assume(VI.wf(v))
        g = c_group.new_group(it, v)
        it.assume_all(self.facts(it, F, v))
        # every variable of the group comes from a factor
        p = z3.Int('p?g')
        wi, wj = z3.Function(gname('from_factor'), IntSort(), IntSort()), z3.Function(gname('from_pos'), IntSort(), IntSort())
        V = vars_of(it, VI.at(F, wi(p)))
        it.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < VI.len(v)), z3.And(0 <= wi(p), wi(p) < VI.len(F), 0 <= wj(p), wj(p) < VI.len(V), VI.at(V, wj(p)) == VI.at(v, p))), patterns=[wi(p)]))
        it.assume(it.spec.tot(szs(v, heaps(it)[1])) < U64)
        self.comes = (wi, wj)
        return g

    def outcome(self, it, f, this, args, kind, v, old):
        F = it.read(args[0])
        hn, hs = heaps(it)
        i, j = it.fresh('i', IntSort()), it.fresh('j', IntSort())
        if kind == 'throw':
            # no conflict: all the variables with the same name and size are the same object
            o = z3.Function(gname('one'), VKey.sort, IntSort())
            a, b = z3.Ints('a?t b?t')
            V = vars_of(it, VI.at(F, a))
            x = VI.at(V, b)
            it.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < VI.len(F), 0 <= b, b < VI.len(V)), o(vk(hn, hs, x)) == x), patterns=[x]))
            it.assume(VI.len(F) >= 1)
            it.assume(VI.len(vars_of(it, VI.at(F, I0))) >= 1)
            it.assume(VI.at(vars_of(it, VI.at(F, I0)), I0) == VI.at(vars_of(it, VI.at(F, I0)), I0))
            it.assume(o(vk(hn, hs, VI.at(vars_of(it, VI.at(F, I0)), I0))) > 0)
            it.check('refused only for conflicting variables', FALSE)
            return
        g = it.read(v) if isinstance(v, LV) else v
        c_group.check_ginv(it, g, 'merged group')
        V = vars_of(it, VI.at(F, i))
        x = VI.at(V, j)
        gv = gvars(it, g)
        p = z3.Int('p?x')
        it.assume(z3.And(0 <= i, i < VI.len(F), 0 <= j, j < VI.len(V)))
        it.check('has every variable of the factors', z3.Not(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < VI.len(gv)), VI.at(gv, p) != x), patterns=[VI.at(gv, p)])))
        q = it.fresh('q', IntSort())
        it.assume(z3.And(0 <= q, q < VI.len(gv)))
        a, b = z3.Ints('a?o b?o')
        V = vars_of(it, VI.at(F, a))
        x = VI.at(V, b)
        it.check('has no other variable', z3.Not(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < VI.len(F), 0 <= b, b < VI.len(V)), x != VI.at(gv, q)), patterns=[x])))
        frame(it, old)


# entry j: the value in c of the variable V[j], found by its position in G
projv = z3.Function('project', VI.sort, VI.sort, VI.sort, VI.sort)
seqS = z3.Function('terms_of_factors', z3.ArraySort(IntSort(), IntSort()), AR)


class FactorMerge(FactorContract):
    """the product of the (transformed) images over the union of the variables"""
    opaque_mul = True
    folds = ()
    keys = (FACN + '::Factor',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::vector')

    def pre(self, it, this, args): return [('valid factors', and_(facs_ok(it, it.read(args[0]))))]

    def proj_axioms(self, it, c):
        """definition of project for the combination c"""
        hn, hs = heaps(it)
        G, V = z3.Const('G?j', VI.sort), z3.Const('V?j', VI.sort)
        j = z3.Int('j?j')
        x = projv(c, G, V)
        return [z3.ForAll([G, V], z3.And(VI.len(x) == VI.len(V), it.spec.canon(x)), patterns=[x]),
                z3.ForAll([G, V, j], VI.at(x, j) == z3.If(z3.And(0 <= j, j < VI.len(V)), VI.at(c, c_group.gpos(G, hn, hs, vk(hn, hs, VI.at(V, j)))), 0), patterns=[VI.at(x, j)])]

    def term(self, it, r, c, G):
        """value of the factor r at the combination c of the group G"""
        fn = H0(it, IM, r)
        return T0(it, fn, z3.Select(z3.Select(it.harr(IMG, IMGS), fn), projv(c, G, vars_of(it, r))))

    def setup(self, it, f, this, args):
        S = it.spec
        F = it.read(args[0])
        c = self.c = it.fresh('cany', VI.sort)
        i = z3.Int('i?f')
        it.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VI.len(F)), VI.at(F, i) < this.ref), patterns=[VI.at(F, i)]))
        closed(it, this.ref)
        it.assume_all([VI.wf(c), S.canon(c)] + self.proj_axioms(it, c))
        self.base = dict(it.st.heap)
        st0 = it.st.copy()
        q = z3.Int('q?m')
        a = z3.Const('a?m', z3.ArraySort(IntSort(), IntSort()))
        # terms of a list of factors that have all the variables
        fn = H0(it, IM, a[q])
        d = seqS(a)
        img0 = it.harr(IMG, IMGS)
        it.assume(z3.ForAll([a, q], d[q] == T0(it, fn, z3.Select(z3.Select(img0, fn), c)), patterns=[d[q]]))
        P = it.spec.prod['R']
        v = z3.Int('v?m')
        sa = z3.Store(a, q, v)
        fv = H0(it, IM, v)
        it.assume(z3.ForAll([a, q, v], z3.Implies(q >= 0, P(seqS(sa), q + 1) == P(d, q) * T0(it, fv, z3.Select(z3.Select(img0, fv), c))), patterns=[seqS(sa)]))
        dt, fa, fb = if_dt(it)
        self.seqF = z3.Function('terms_of_finders', z3.ArraySort(IntSort(), dt.sort), AR)
        self.all = it.fresh('terms', AR)
        self.loc = None
        it.hints = [lambda it, info, entry, trans: self.hint(it, info, entry, this, F)] + it.hints
        it.watch = [c]

    def term_fn(self, it, fn, c, G):
        """value of the table fn at the combination c of the group G"""
        return T0(it, fn, z3.Select(z3.Select(self.base.get(IMG, it.harr(IMG, IMGS)), fn), projv(c, G, gvars(it, H0(it, V_, fn)))))

    def hint(self, it, info, entry, this, F):
        S = it.spec
        out, n, c = [], info.n, self.c
        fn = z3.simplify(H(it, IM, this.ref))
        G = gvars(it, H(it, V_, fn))
        s = sizes(it, fn)
        q = z3.Int('q?m')
        d = self.all
        dt, fa, fb = if_dt(it)
        P = S.prod['R']
        indom = S.inDom(s, c)
        vecs = {}
        for l in info.leaves:
            if l.path and l.path[-1][0] == 'dt' and isinstance(l.path[-1][1], VecDT): vecs.setdefault((l.base[:2], l.path[:-1]), {})[l.path[-1][2]] = (l, l.path[-1][1])
        sames = [x for x in vecs.values() if 'arr' in x and 'len' in x and x['arr'][1] is VI]
        finds = [x for x in vecs.values() if 'arr' in x and 'len' in x and x['arr'][1].es == dt.sort]
        if sames and finds:
            ax = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < VI.len(F)), d[q] == self.term(it, VI.at(F, q), c, G)), patterns=[d[q]])
            b, e_ = z3.Const('b?m', z3.ArraySort(IntSort(), dt.sort)), z3.Const('e?m', dt.sort)
            x = self.seqF(b)
            ax2 = z3.ForAll([b, q], x[q] == self.term_fn(it, dt.get(b[q], fa), c, G), patterns=[x[q]])
            y = self.seqF(z3.Store(b, q, e_))
            ax3 = z3.ForAll([b, q, e_], z3.Implies(q >= 0, P(y, q + 1) == P(x, q) * self.term_fn(it, dt.get(e_, fa), c, G)), patterns=[y])
            info.defs += [ax, ax2, ax3, S.fold_base('prod', True, d), z3.Implies(n >= 0, S.fold_step('prod', True, d, n, d[n]))]
            for x in sames:
                for y in finds:
                    self.loc = (x['arr'][0].base, y['arr'][0].base)
                    sa, sl, fa_, fl = x['arr'][0].sym, x['len'][0].sym, y['arr'][0].sym, y['len'][0].sym
                    out.append(('product over the visited factors', z3.Implies(indom, P(seqS(sa), sl) * P(self.seqF(fa_), fl) == P(d, n))))
                    r = z3.Select(sa, q)
                    out.append(('factors with all the variables', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < sl), z3.And(r > 0, r < this.ref, it.isinstance_(r, IMCLS(it)), vars_of(it, r) == G)), patterns=[r])))
                    e = z3.Select(fa_, q)
                    g, ix = dt.get(e, fa), dt.get(e, fb)
                    j = z3.Int('j?m')
                    small = gvars(it, H0(it, V_, g))
                    fr = it.prog.recbyname[FN][0]['id']
                    out.append(('finders', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < fl), z3.And(g > 0, g < this.ref, it.isinstance_(g, fr), VI.len(ix) == VI.len(small))), patterns=[e])))
                    out.append(('positions of the finders', z3.ForAll([q, j], z3.Implies(z3.And(0 <= q, q < fl, 0 <= j, j < VI.len(ix)), z3.And(0 <= VI.at(ix, j), VI.at(ix, j) < VI.len(G), VI.at(G, VI.at(ix, j)) == VI.at(small, j))), patterns=[VI.at(ix, j)])))
                    out.append(('lengths', z3.And(sl >= 0, fl >= 0, sl + fl == n)))
                    # the term of the visited factor
                    rn = VI.at(F, n)
                    info.defs.append(ext(it, projv(c, G, vars_of(it, rn)), c))
            it.finder_hook = lambda it, g, fn, comb: z3.Implies(comb == c, ext(it, g, projv(c, G, gvars(it, H0(it, V_, fn)))))
            return out
        if self.loc is None: return out
        sv, fv = it.base_val(self.loc[0]), it.base_val(self.loc[1])
        fdt = it.dt_of(fv.sort())
        A, B = P(seqS(VI.get(sv, 'arr')), VI.len(sv)), lambda k: P(self.seqF(fdt.get(fv, 'arr')), k)
        combs = [x for x in (it.read(v) for v in it.frames[-1].env.values() if isinstance(v, LV) and (v.root[0] != 'c' or v.root[1] in it.st.cells)) if isinstance(x, z3.ExprRef) and x.sort() == VI.sort]
        combs = [x for x in combs if not x.eq(F) and not x.eq(sv)]
        for l in info.leaves:
            if l.sort == RealSort() and l.base[0] == 'c':
                for x in combs:
                    out.append(('product so far', z3.Implies(x == c, l.sym == P(seqS(VI.get(sv, 'arr')), n))))
                    out.append(('product so far', z3.Implies(z3.And(indom, x == c), l.sym == A * B(n))))
                    k = B(n)
                    for d_ in (seqS(VI.get(sv, 'arr')), self.seqF(fdt.get(fv, 'arr'))): info.defs += [S.fold_base('prod', True, d_), z3.Implies(n >= 0, S.fold_step('prod', True, d_, n, d_[n]))]
                    info.defs.append(z3.Implies(A * k == 0, z3.Or(A == 0, k == 0)))
            if l.sort is not None and l.sort == IMGS and l.base[0] == 'h':
                v = z3.Select(l.sym, c)
                rk = S.rank(s, c)
                PA = P(d, VI.len(F))
                out.append(('image already computed', z3.Implies(z3.And(indom, rk < n), v == PA)))
                out.append(('image not yet computed', z3.Implies(z3.And(indom, rk >= n), v == 0)))
        return out

    def term0(self, it, r, c, G): return self.term(it, r, c, G)

    def outcome(self, it, f, this, args, kind, v, old):
        F = it.read(args[0])
        if kind == 'throw':
            return GatherVariables().outcome(it, f, this, args, kind, v, old)
        S = it.spec
        fn = H(it, IM, this.ref)
        it.check('one table for reading and writing', z3.And(fn == H(it, MU, this.ref), fn > 0))
        it.check('a table of its own', fn >= old.nextref)
        it.check('plain images', z3.Not(isexp(it, fn)))
        it.check('some factor', VI.len(F) >= 1)
        frame(it, old, refs=(this.ref,))
        it.assume(S.inDom(sizes(it, fn), self.c))
        d = it.fresh('term', AR)
        q = z3.Int('q?o')
        k = it.st
        G = gvars(it, H(it, V_, fn))
        it.st = old
        try: t = self.term(it, VI.at(F, q), self.c, G)
        finally: it.st = k
        it.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < VI.len(F)), d[q] == t), patterns=[d[q]]))
        it.check('product of the images of the factors', z3.Select(img(it, fn), self.c) == S.prod['R'](d, VI.len(F)))


def T0(it, ref, x): return z3.If(z3.Select(it.harr('$tag', IntSort()), ref) == it.tag(expcls(it)['id']), expf_(H0(it, wkey(it), ref) * x), x)


ALL = [ImmCtor(), MutCtor(), MutSet(), GetProbabilities(), GetIndices(), FinderCtor(), MakeFinder(), Extract(), FinderImage(), FinderTransf(),
       FactorData(), FactorVars(), FactorCopy(), FactorClone(), ExpFnCtor(), ExpFnGet(), ExpFnSet(), ExpGetWeight(), ExpSetWeight(), ExpData(), ExpOfFactor(), ExpOfFactor1(), ExpCopy(),
       AllSameSize(), CorrFnCtor(), AntiFnCtor(), FactorCorr(), FactorAnti(),
       NewPositions(), GetPermuted(), ClonePermuted(),
       GatherVariables(),
       FactorMerge()]
