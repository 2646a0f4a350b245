"""Contracts of train::TrainSet and of the thread pool's share of the work."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI

TS = 'EFG::train::TrainSet'
IT = TS + '::Iterator'
VV = VecDT.of(VI.sort)


def sty(it, name):
    rid = it.prog.recbyname[name][0]['id']
    ty = it.prog.ty(it.prog.rec[rid]['t'])
    k = it.T.kind(ty)
    if k[0] != 'struct': raise Unsupported('representation of ' + name)
    return ty, k


def fld(it, name, v, suffix):
    ty, k = sty(it, name)
    l = [n for n in k[1].names if n.endswith('::' + suffix)]
    if len(l) != 1: raise Unsupported('representation of ' + name)
    return k[1].get(v, l[0])


def combos(it, name, v):
    """the list of combinations behind the shared pointer of a train set or of an iterator"""
    ty, k = sty(it, name)
    t = next(t for n, t in k[2].items() if n.endswith('::combinations'))
    return it.read(it.unbox(fld(it, name, v, 'combinations'), it.unconst(t.args()[0])))


def subset(it, v):
    ty, k = sty(it, IT)
    t = next(t for n, t in k[2].items() if n.endswith('::combinations_subset'))
    o = it.T.kind(t)[1]
    x = fld(it, IT, v, 'combinations_subset')
    return o.has(x), o.get(x), o


def good(c):
    """non-empty list of rows of one non-zero length"""
    j = z3.Int('j?g')
    r = VV.at(c, j)
    return z3.And(VV.len(c) > 0, VI.len(VV.at(c, 0)) > 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VV.len(c)), VI.len(r) == VI.len(VV.at(c, 0))), patterns=[r]))


def tsinv(it, v): return z3.And(fld(it, TS, v, 'combinations') > 0, good(combos(it, TS, v)))


def itinv(it, v):
    c = combos(it, IT, v)
    h, s, _ = subset(it, v)
    j = z3.Int('j?g')
    return z3.And(fld(it, IT, v, 'combinations') > 0, good(c),
                  z3.Implies(h, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(s)), z3.And(0 <= VI.at(s, j), VI.at(s, j) < VV.len(c))), patterns=[VI.at(s, j)])))


def same(it, a, b):
    j = it.fresh('row', IntSort())
    i = it.fresh('col', IntSort())
    x, y = VV.at(a, j), VV.at(b, j)
    return z3.And(VV.len(a) == VV.len(b), z3.Implies(z3.And(0 <= j, j < VV.len(a)), z3.And(VI.len(x) == VI.len(y), z3.Implies(z3.And(0 <= i, i < VI.len(x)), VI.at(x, i) == VI.at(y, i)))))


class TrainSetCtor(Contract):
    """accepts exactly the non-empty lists of rows of one non-zero length, and keeps exactly them"""
    keys = (TS + '::TrainSet',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::vector')

    def model(self, it, this, args):
        c = it.read(args[0])
        if not it.branch(good(c)): raise CxxThrow('EFG::Error')
        ty, k = sty(it, TS)
        t = next(iter(k[2].values()))
        it.write(this, k[1].mk(it.box(it.unconst(t.args()[0]), c)))

    def outcome(self, it, f, this, args, kind, v, old):
        c = it.read(args[0])
        if kind == 'throw': it.check('refused only when empty or with rows of no or different length', z3.Not(good(c))); return
        it.check('empty lists and rows of no or different length are refused', good(c))
        it.check('the combinations are kept', same(it, combos(it, TS, it.read(this)), c))
        it.check('own copy', fld(it, TS, it.read(this), 'combinations') >= old.nextref)


class TrainSetGet(Contract):
    keys = (TS + '::getCombinations',)

    def pre(self, it, this, args): return [('valid train set', tsinv(it, it.read(this)))]

    def model(self, it, this, args):
        ty, k = sty(it, TS)
        t = next(iter(k[2].values()))
        return it.unbox(fld(it, TS, it.read(this), 'combinations'), it.unconst(t.args()[0]))


class IterCtor(Contract):
    """everything for percentage 1, else the rounded-down share of positions in range"""
    keys = (IT + '::Iterator',)

    def sig(self, prog, f): return len(f['ps']) == 2

    def pre(self, it, this, args):
        v = it.read(args[0])
        return [('valid train set', tsinv(it, v)), ('at most 2^31-1 rows', VV.len(combos(it, TS, v)) < 2 ** 31)]

    def model(self, it, this, args):
        v, p = it.read(args[0]), it.read(args[1])
        bad = z3.Or(p <= 0, p > 1)
        if it.branch(bad): raise CxxThrow('EFG::Error')
        ty, k = sty(it, IT)
        o = subset(it, it.read(this))[2]
        b = fld(it, TS, v, 'combinations')
        if it.branch(p == 1):
            it.write(this, k[1].new(*[b if n.endswith('::combinations') else o.none for n in k[1].names]))
            return
        s = it.fresh('subset', VI.sort)
        n = VV.len(combos(it, TS, v))
        it.assume(VI.wf(s))
        it.assume(z3.And(z3.ToReal(VI.len(s)) <= p * z3.ToReal(n), p * z3.ToReal(n) < z3.ToReal(VI.len(s)) + 1))
        j = z3.Int('j?g')
        it.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(s)), z3.And(0 <= VI.at(s, j), VI.at(s, j) < n)), patterns=[VI.at(s, j)]))
        it.write(this, k[1].new(*[b if m.endswith('::combinations') else o.some(s) for m in k[1].names]))

    def check_it(self, it, v, p, w, kind):
        bad = z3.Or(p <= 0, p > 1)
        if kind == 'throw': it.check('refused only outside of (0, 1]', bad); return
        it.check('percentages outside of (0, 1] are refused', z3.Not(bad))
        h, s, _ = subset(it, w)
        c = combos(it, TS, v)
        n = VV.len(c)
        it.check('over the combinations of the train set', z3.And(same(it, combos(it, IT, w), c), fld(it, IT, w, 'combinations') > 0))
        it.check('a subset unless the percentage is one', h == (p != 1))
        it.check('rounded-down share', z3.Implies(h, z3.And(VI.len(s) >= 0, z3.ToReal(VI.len(s)) <= p * z3.ToReal(n), p * z3.ToReal(n) < z3.ToReal(VI.len(s)) + 1)))
        j = it.fresh('j', IntSort())
        it.check('of existing combinations', z3.Implies(z3.And(h, 0 <= j, j < VI.len(s)), z3.And(0 <= VI.at(s, j), VI.at(s, j) < n)))

    def outcome(self, it, f, this, args, kind, v, old):
        self.check_it(it, it.read(args[0]), it.read(args[1]), it.read(this), kind)


    def setup(self, it, f, this, args):
        n = VV.len(combos(it, TS, it.read(args[0])))

        def hint(it, info, entry, trans):
            out = []
            j = z3.Int('j?h')
            for l in info.leaves:
                if l.sort is not None and l.sort == z3.ArraySort(IntSort(), IntSort()):
                    out.append(('positions in range', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < info.n), z3.And(0 <= l.sym[j], l.sym[j] < n)), patterns=[l.sym[j]])))
            return out
        it.hints = [hint] + it.hints


class MakeSubset(IterCtor):
    keys = (TS + '::makeSubSetIterator',)

    def sig(self, prog, f): return len(f['ps']) == 1

    def setup(self, it, f, this, args): pass

    def pre(self, it, this, args): return IterCtor.pre(self, it, None, [this])

    def model(self, it, this, args):
        ty, k = sty(it, IT)
        c = it.newcell(it.fresh('iter', k[1].sort), ty)
        IterCtor.model(self, it, c, [this] + args)
        return it.read(c)

    def outcome(self, it, f, this, args, kind, v, old):
        self.check_it(it, it.read(this), it.read(args[0]), it.read(v) if isinstance(v, LV) else v, kind)


class MakeIter(MakeSubset):
    keys = (TS + '::makeIterator',)

    def sig(self, prog, f): return len(f['ps']) == 0

    def model(self, it, this, args): return MakeSubset.model(self, it, this, [it.newcell(z3.RealVal(1))])

    def outcome(self, it, f, this, args, kind, v, old):
        self.check_it(it, it.read(this), z3.RealVal(1), it.read(v) if isinstance(v, LV) else v, kind)


def visits(it, v):
    h, s, _ = subset(it, v)
    return z3.If(h, VI.len(s), VV.len(combos(it, IT, v)))


class IterSize(Contract):
    """the number of combinations that will be visited"""
    keys = (IT + '::size',)

    def pre(self, it, this, args): return [('valid iterator', itinv(it, it.read(this)))]

    def model(self, it, this, args): return visits(it, it.read(this))


class ForEachSample(Contract):
    """calls back with every combination (or those of the subset), in order"""
    keys = (IT + '::forEachSample',)

    def pre(self, it, this, args): return [('valid iterator', itinv(it, it.read(this)))]

    def at(self, it, v, n):
        h, s, _ = subset(it, v)
        c = combos(it, IT, v)
        return z3.If(h, VV.at(c, VI.at(s, n)), VV.at(c, n))

    def model_f(self, it, f, this, args):
        v = it.read(this)
        cl = it.read(args[0]) if isinstance(args[0], LV) else args[0]
        r = it.newcell(I0)

        def body():
            c = it.fresh('row', VI.sort)
            it.assume(c == self.at(it, v, it.read(r)))
            it.assume(VI.wf(c))
            it.call_closure(cl, [it.newcell(c)], None)
        it.loop(f, lambda: it.read(r) < visits(it, v), body, lambda: it.write(r, it.read(r) + 1))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        w = it.read(this)
        L, C, V = [it.read(x) for x in it.trace_cells]
        it.check('number of visits', L == visits(it, w))
        j = it.fresh('j', IntSort())
        it.assume(z3.And(0 <= j, j < L))
        it.check('combinations in order', z3.Select(C, j) == self.at(it, w, j))


VF = VecDT.of(FnS)


class ProcessTasks(Contract):
    """runs, once each and with its own index, the tasks at the positions id, id + n, id + 2n, ..."""
    keys = ('EFG::strct::(anonymous namespace)::process_tasks_in_parallel',)

    def setup(self, it, f, this, args):
        L, F, A = it.newcell(I0), it.newcell(z3.K(IntSort(), z3.Const('no_task', FnS))), it.newcell(z3.K(IntSort(), I0))
        self.tr = (L, F, A)

        def call(fn, a):
            n = it.read(L)
            x = it.read(a[0]) if isinstance(a[0], LV) else a[0]
            it.write(F, z3.Store(it.read(F), n, fn))
            it.write(A, z3.Store(it.read(A), n, x))
            it.write(L, n + 1)
        it.task_call = call
        t, N, i = [it.read(a) for a in args]
        j = self.j = it.fresh('any', IntSort())

        def hint(it, info, entry, trans):
            out = []
            n = info.n
            for l in info.leaves:
                if l.sort == IntSort(): out.append(('stride', l.sym == i + N * n))
                if l.sort == z3.ArraySort(IntSort(), FnS): out.append(('share so far', z3.Implies(z3.And(0 <= j, j < n), z3.And(i + N * j < VF.len(t), l.sym[j] == VF.at(t, i + N * j)))))
            out.append(('product', N * n >= 0))
            return out
        it.hints = [hint] + it.hints

    def pre(self, it, this, args):
        t, n, i = [it.read(a) for a in args]
        return [('index of a worker', z3.And(0 <= i, i < n, n <= MAXLEN))]

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        t, n, i = [it.read(a) for a in args]
        L, F, A = [it.read(x) for x in self.tr]
        j = self.j
        p = i + n * j
        it.check('no task of the share is left', i + n * L >= VF.len(t))
        it.assume(z3.And(0 <= j, j < L))
        it.check('tasks of the share, in order', z3.And(p < VF.len(t), z3.Select(F, j) == VF.at(t, p)))
        it.check('with the index of the worker', z3.Select(A, j) == i)


def lemmas():
    k, n, a, b, j, l, L, z, q, r = z3.Ints('k n a b j l L z q r')
    return [('multiples are at least the modulus', [n > 0, z >= 1], n * z >= n),
            ('negative multiples', [n > 0, z <= -1], n * z <= -n),
            # every position k below the size z is q-th of the share r (k = r + n * q), and is run since the share is exhausted
            ('every task is run', [n > 0, 0 <= r, r < n, q >= 0, k == r + n * q, k < z, r + n * L >= z, z3.Implies(q >= L, n * (q - L) >= 0)], q < L),
            ('no task is run twice', [n > 0, 0 <= a, a < n, 0 <= b, b < n, a + n * j == b + n * l, z == j - l, n * z == n * j - n * l, z3.Implies(z >= 1, n * z >= n), z3.Implies(z <= -1, n * z <= -n)], z3.And(a == b, j == l))]


ALL = [ProcessTasks(), TrainSetCtor(), TrainSetGet(), IterCtor(), MakeSubset(), MakeIter(), IterSize(), ForEachSample()]
