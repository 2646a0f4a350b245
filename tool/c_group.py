"""Contracts of categoric::Variable and categoric::Group."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from stdmodel import NAME_F, SIZE_F

GN = 'EFG::categoric::Group'
VN = 'EFG::categoric::Variable'
SET = MapDT.of(VKey.sort, None, True)
HN = z3.ArraySort(IntSort(), Str)
HS = z3.ArraySort(IntSort(), IntSort())
# index of a key in a list of variables (ghost), sizes of a list of variables
gpos = z3.Function('gpos', VI.sort, HN, HS, VKey.sort, IntSort())
szs = z3.Function('sizes', VI.sort, HS, VI.sort)
mem = z3.Function('mem', VI.sort, HN, HS, IntSort(), VKey.sort, BoolSort())        # key among the first p variables
cnt = z3.Function('distinctCount', VI.sort, HN, HS, IntSort(), IntSort())
lst = z3.Function('firstWith', VI.sort, HN, HS, IntSort(), VKey.sort, IntSort())   # the object stored for the key: first occurrence


def heaps(it): return it.harr(NAME_F, Str), it.harr(SIZE_F, IntSort())


def heaps_of(it, st):
    k = it.st
    it.st = st
    try: return heaps(it)
    finally: it.st = k


def vk(hn, hs, r): return VKey.mk(z3.Select(hn, r), z3.Select(hs, r))


def group_dt(it):
    rid = it.prog.recbyname[GN][0]['id']
    ty = it.prog.ty(it.prog.rec[rid]['t'])
    k = it.T.kind(ty)
    if k[0] != 'struct': raise Unsupported('representation of Group')
    n = {x.split('::')[-1]: x for x in k[1].names}
    if set(n) != {'group', 'group_sorted'}: raise Unsupported('representation of Group')
    return k[1], n['group'], n['group_sorted']


def gvars(it, g):
    dt, a, b = group_dt(it)
    return dt.get(g, a)


def gset(it, g):
    dt, a, b = group_dt(it)
    return dt.get(g, b)


def axioms():
    """definitions of the ghost functions"""
    v, hn, hs, k = z3.Const('v', VI.sort), z3.Const('hn', HN), z3.Const('hs', HS), z3.Const('k', VKey.sort)
    p, j = z3.Ints('p j')
    kp = vk(hn, hs, VI.at(v, p))
    res = []
    a = szs(v, hs)
    res.append(z3.ForAll([v, hs], z3.And(VI.len(a) == VI.len(v)), patterns=[a]))
    res.append(z3.ForAll([v, hs, j], VI.at(a, j) == z3.If(z3.And(0 <= j, j < VI.len(v)), z3.Select(hs, VI.at(v, j)), 0), patterns=[VI.at(a, j)]))
    return res


def step_facts(v, hn, hs, p):
    """recursive definitions of mem/cnt/lst at p -> p+1 (definitional instance)"""
    k = z3.Const('k?s', VKey.sort)
    kp = vk(hn, hs, VI.at(v, p))
    m0, m1 = mem(v, hn, hs, p, k), mem(v, hn, hs, p + 1, k)
    l0, l1 = lst(v, hn, hs, p, k), lst(v, hn, hs, p + 1, k)
    return [z3.Implies(p >= 0, cnt(v, hn, hs, p + 1) == cnt(v, hn, hs, p) + z3.If(mem(v, hn, hs, p, kp), 0, 1)),
            z3.ForAll([k], z3.Implies(p >= 0, m1 == z3.Or(m0, k == kp)), patterns=[m1]),
            z3.ForAll([k], z3.Implies(p >= 0, l1 == z3.If(m0, l0, z3.If(k == kp, VI.at(v, p), 0))), patterns=[l1])]


def base_facts(v, hn, hs):
    k = z3.Const('k?s', VKey.sort)
    m0, l0 = mem(v, hn, hs, I0, k), lst(v, hn, hs, I0, k)
    return [cnt(v, hn, hs, I0) == 0, z3.ForAll([k], z3.Not(m0), patterns=[m0]), z3.ForAll([k], l0 == 0, patterns=[l0])]


def mem_facts(v, hn, hs, p):
    """proved consequences (lemmas) for 0 <= p <= len: membership witness, distinctness"""
    k = z3.Const('k?s', VKey.sort)
    i, j = z3.Ints('i?s j?s')
    w = gposp(v, hn, hs, p, k)
    dw1, dw2 = dupw1(v, hn, hs, p), dupw2(v, hn, hs, p)
    ki, kj = vk(hn, hs, VI.at(v, i)), vk(hn, hs, VI.at(v, j))
    kk = lambda x: vk(hn, hs, VI.at(v, x))
    m = mem(v, hn, hs, p, k)
    return [z3.ForAll([k], z3.Implies(m, z3.And(0 <= w, w < p, kk(w) == k, lst(v, hn, hs, p, k) == VI.at(v, w))), patterns=[m]),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), mem(v, hn, hs, p, kj)), patterns=[VI.at(v, j)]),
            cnt(v, hn, hs, p) <= p,
            z3.Implies(cnt(v, hn, hs, p) == p, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < p, 0 <= j, j < p, ki == kj), i == j), patterns=[z3.MultiPattern(VI.at(v, i), VI.at(v, j))])),
            z3.Implies(cnt(v, hn, hs, p) != p, z3.And(0 <= dw1, dw1 < dw2, dw2 < p, kk(dw1) == kk(dw2)))]


gposp = z3.Function('gposp', VI.sort, HN, HS, IntSort(), VKey.sort, IntSort())
dupw1 = z3.Function('dup_w1', VI.sort, HN, HS, IntSort(), IntSort())
dupw2 = z3.Function('dup_w2', VI.sort, HN, HS, IntSort(), IntSort())


def lemmas():
    """inductive proofs of mem_facts"""
    v, hn, hs, k = z3.Const('v', VI.sort), z3.Const('hn', HN), z3.Const('hs', HS), z3.Const('k', VKey.sort)
    p, j, w, a, b = z3.Ints('p j w a b')
    kk = lambda x: vk(hn, hs, VI.at(v, x))
    st = step_facts(v, hn, hs, p)
    inst = [z3.Implies(p >= 0, mem(v, hn, hs, p + 1, x) == z3.Or(mem(v, hn, hs, p, x), x == kk(p))) for x in (k, kk(j), kk(p), kk(a), kk(b))] + \
           [z3.Implies(p >= 0, lst(v, hn, hs, p + 1, k) == z3.If(mem(v, hn, hs, p, k), lst(v, hn, hs, p, k), z3.If(k == kk(p), VI.at(v, p), 0))), st[0]]
    L = []
    ihw = z3.Implies(mem(v, hn, hs, p, k), z3.And(0 <= w, w < p, kk(w) == k, lst(v, hn, hs, p, k) == VI.at(v, w)))
    w2 = z3.If(mem(v, hn, hs, p, k), w, p)
    L.append(('membership witness: step', inst + [p >= 0, ihw], z3.Implies(mem(v, hn, hs, p + 1, k), z3.And(0 <= w2, w2 < p + 1, kk(w2) == k, lst(v, hn, hs, p + 1, k) == VI.at(v, w2)))))
    L.append(('elements are members: step', inst + [p >= 0, 0 <= j, j < p + 1, z3.Implies(j < p, mem(v, hn, hs, p, kk(j)))], mem(v, hn, hs, p + 1, kk(j))))
    L.append(('distinct count bound: step', inst + [p >= 0, cnt(v, hn, hs, p) <= p], cnt(v, hn, hs, p + 1) <= p + 1))
    # distinct(p): pairwise different keys
    pair = lambda q, x, y: z3.Implies(z3.And(0 <= x, x < q, 0 <= y, y < q, kk(x) == kk(y)), x == y)
    L.append(('full count means distinct: step', inst + [p >= 0, cnt(v, hn, hs, p) <= p, z3.Implies(cnt(v, hn, hs, p) == p, pair(p, a, b)), cnt(v, hn, hs, p + 1) == p + 1,
                                                         z3.Implies(z3.And(0 <= a, a < p), mem(v, hn, hs, p, kk(a))), z3.Implies(z3.And(0 <= b, b < p), mem(v, hn, hs, p, kk(b)))], pair(p + 1, a, b)))
    d1, d2, wp = z3.Ints('d1 d2 wp')
    e1, e2 = z3.If(cnt(v, hn, hs, p) != p, d1, wp), z3.If(cnt(v, hn, hs, p) != p, d2, p)
    L.append(('smaller count means a duplicate: step', inst + [p >= 0, cnt(v, hn, hs, p) <= p, z3.Implies(cnt(v, hn, hs, p) != p, z3.And(0 <= d1, d1 < d2, d2 < p, kk(d1) == kk(d2))),
                                                               z3.Implies(mem(v, hn, hs, p, kk(p)), z3.And(0 <= wp, wp < p, kk(wp) == kk(p))), cnt(v, hn, hs, p + 1) != p + 1],
              z3.And(0 <= e1, e1 < e2, e2 < p + 1, kk(e1) == kk(e2))))
    return L


def ginv(it, g, heaps_=None, nonempty=True):
    """class invariant of Group"""
    hn, hs = heaps_ or heaps(it)
    v, s = gvars(it, g), gset(it, g)
    i, j = z3.Ints('i?g j?g')
    k = z3.Const('k?g', VKey.sort)
    dom, key = SET.get(s, 'dom'), SET.get(s, 'key')
    ai, aj = VI.at(v, i), VI.at(v, j)
    w = gpos(v, hn, hs, k)
    l = [SET.size(s) == VI.len(v),
         # no duplicates: the position of the key of an entry is that of the entry
         z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(v)), z3.And(gpos(v, hn, hs, vk(hn, hs, aj)) == j, aj > 0, dom[vk(hn, hs, aj)], key[vk(hn, hs, aj)] == aj, z3.Select(hs, aj) >= 1)), patterns=[aj]),
         z3.ForAll([k], z3.Implies(dom[k], z3.And(0 <= w, w < VI.len(v), vk(hn, hs, VI.at(v, w)) == k)), patterns=[dom[k]])]
    if nonempty: l.append(VI.len(v) >= 1)
    a = szs(v, hs)
    l.append(it.spec.posd(a) if it.spec else TRUE)
    return l


def check_ginv(it, g, what='group'):
    """obligations: the invariant of a group value, by components"""
    hn, hs = heaps(it)
    v, s = gvars(it, g), gset(it, g)
    i, j = it.fresh('i', IntSort()), it.fresh('j', IntSort())
    k = it.fresh('k', VKey.sort)
    dom, key = SET.get(s, 'dom'), SET.get(s, 'key')
    inr = lambda x: z3.And(0 <= x, x < VI.len(v))
    kk = lambda x: vk(hn, hs, VI.at(v, x))
    it.check(what + ' has no duplicates', z3.Implies(z3.And(inr(i), inr(j), kk(i) == kk(j)), i == j))
    it.check(what + ': every listed variable is in the set view', z3.Implies(inr(j), z3.And(dom[kk(j)], key[kk(j)] == VI.at(v, j))))
    it.check(what + ': set view has only listed variables', z3.Implies(dom[k], z3.Not(mkforall_not(it, v, k, kk, inr))))
    it.check(what + ': set view has the same size', SET.size(s) == VI.len(v))


def mkforall_not(it, v, k, kk, inr):
    j = z3.Int('j?n')
    return z3.ForAll([j], z3.Implies(inr(j), kk(j) != k), patterns=[VI.at(v, j)])


def sizes_vec(it, g): return szs(gvars(it, g), heaps(it)[1])


def var_inv(it, r):
    hn, hs = heaps(it)
    return [z3.Select(hs, r) >= 1, z3.Select(hs, r) < U64, z3.Select(hn, r) != EMPTY_STR]


def soup_ok(it, v, nonnull=True):
    """every entry of a list of variables is a non-null variable"""
    j = z3.Int('j?v')
    hn, hs = heaps(it)
    a = VI.at(v, j)
    return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(v)), z3.And(a > 0, z3.Select(hs, a) >= 1)), patterns=[a])]


# ------------------------------------------------------------------ Variable
class VarCtor(Contract):
    keys = (VN + '::Variable',)

    def sig(self, prog, f): return len(f['ps']) == 2

    def model(self, it, this, args):
        size, name = it.read(args[0]), it.read(args[1])
        if it.branch(z3.Or(strlen(name) == 0, size == 0)): raise CxxThrow('EFG::Error')
        it.write(LV(('h', SIZE_F, this.ref)), size)
        it.write(LV(('h', NAME_F, this.ref)), name)

    def outcome(self, it, f, this, args, kind, v, old):
        size, name = it.read(args[0]), it.read(args[1])
        bad = z3.Or(strlen(name) == 0, size == 0)
        if kind == 'throw': it.check('refused only for an empty name or a null size', bad); return
        it.check('empty names and null sizes are refused', z3.Not(bad))
        it.check('size stored', it.read(LV(('h', SIZE_F, this.ref))) == size)
        it.check('name stored', it.read(LV(('h', NAME_F, this.ref))) == name)


class VarSize(Contract):
    keys = (VN + '::size',)

    def model(self, it, this, args): return it.read(LV(('h', SIZE_F, this.ref)))


class VarName(Contract):
    keys = (VN + '::name',)

    def model(self, it, this, args): return LV(('h', NAME_F, this.ref))


class MakeVariable(Contract):
    keys = ('EFG::categoric::make_variable',)

    def model(self, it, this, args):
        size, name = it.read(args[0]), it.read(args[1])
        if it.branch(z3.Or(strlen(name) == 0, size == 0)): raise CxxThrow('EFG::Error')
        rid = it.prog.recbyname[VN][0]['id']
        r = it.alloc(rid)
        it.write(LV(('h', SIZE_F, r)), size)
        it.write(LV(('h', NAME_F, r)), name)
        return r

    def outcome(self, it, f, this, args, kind, v, old):
        size, name = it.read(args[0]), it.read(args[1])
        bad = z3.Or(strlen(name) == 0, size == 0)
        if kind == 'throw': it.check('refused only for an empty name or a null size', bad); return
        it.check('empty names and null sizes are refused', z3.Not(bad))
        it.check('variable has the given size', it.read(LV(('h', SIZE_F, v))) == size)
        it.check('variable has the given name', it.read(LV(('h', NAME_F, v))) == name)
        it.check('a new variable', z3.And(v >= old.nextref))


class SmartCmp(Contract):
    """the models of SmartSet/SmartMap identify keys by (name,size): the comparator and hasher must agree"""
    keys = ('EFG::Comparator::operator()',)
    mod = 'none'

    def setup(self, it, f, this, args):
        for a in args:
            v = it.read(a)
            it.assume(v > 0)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('comparison does not throw', FALSE); return
        a, b = it.read(args[0]), it.read(args[1])
        it.check('keys are equal exactly when name and size are', v == (it.vkey(a) == it.vkey(b)))


class SmartHash(Contract):
    """equal keys have equal hashes"""
    keys = ('EFG::Hasher::operator()',)
    mod = 'none'

    def sig(self, prog, f): return prog.ty(f['ps'][0]['t']).noref().args()[0].isrec(VN)

    def setup(self, it, f, this, args):
        b = it.fresh('b', IntSort())
        it.assume(z3.And(b > 0, b < it.st.nextref))
        self.b = it.newcell(b, it.prog.ty(f['ps'][0]['t']).noref())

    def outcome(self, it, f, this, args, kind, v, old):
        a, b = it.read(args[0]), it.read(self.b)
        if kind == 'throw': it.check('hashing fails only for null pointers', a == 0); return
        it.assume(it.vkey(a) == it.vkey(b))
        v2 = it.run_body(f, {f['ps'][0]['id']: self.b}, this)
        it.check('variables with equal name and size have equal hashes', v == v2)


# ------------------------------------------------------------------ Group
def soup_hint(it, info, entry, trans):
    """offered to loops that fill a set of variables from a list"""
    out = []
    hn, hs = heaps(it)
    n = info.n
    vecs = candidate_vecs(it, entry)
    leaves = {}
    for l in info.leaves:
        if l.path and l.path[-1][0] == 'dt' and l.path[-1][1] is SET: leaves.setdefault((l.base[:2], l.path[:-1]), {})[l.path[-1][2]] = l
    for _, d in leaves.items():
        if 'dom' not in d or 'key' not in d: continue
        dom, key, size = d['dom'].sym, d['key'].sym, d['size'].sym
        k = z3.Const('k?h', VKey.sort)
        for v in vecs:
            info.defs += step_facts(v, hn, hs, n) + base_facts(v, hn, hs)
            out.append(('set holds the keys of the visited variables', z3.ForAll([k], dom[k] == mem(v, hn, hs, n, k), patterns=[dom[k]])))
            out.append(('set keeps the first variable of every key', z3.ForAll([k], key[k] == lst(v, hn, hs, n, k), patterns=[key[k]])))
            out.append(('set size', size == cnt(v, hn, hs, n)))
            j = z3.Int('j?h')
    return out


def candidate_vecs(it, entry):
    res = []
    try: gs = group_dt(it)[0].sort
    except Unsupported: gs = None
    def add(v):
        if not any(v.eq(x) for x in res): res.append(v)
    vals = list(entry.cells.values()) + [v for k, v in entry.ghost.items() if k[0] == 'ld']
    for v in vals:
        if gs is not None and isinstance(v, z3.ExprRef) and v.sort() == gs: add(gvars(it, v))
    for c, v in entry.cells.items():
        if isinstance(v, z3.ExprRef):
            if v.sort() == VI.sort:
                t = entry.ctype.get(c)
                if t is not None and t.noref().isrec('std::vector') and it.T.kind(t.noref())[0] == 'vec' and it.T.kind(it.T.kind(t.noref())[2])[0] == 'ref':
                    if not any(v.eq(x) for x in res): res.append(v)
    return res[:4]


class ToVarsSet(Contract):
    keys = ('EFG::categoric::to_vars_set',)
    hints = (soup_hint,)

    def pre(self, it, this, args): return [('non-null variables', and_(soup_ok(it, it.read(args[0]))))]

    def model(self, it, this, args):
        v = it.read(args[0])
        hn, hs = heaps(it)
        n = VI.len(v)
        m = it.fresh('varset', SET.sort)
        it.assume(SET.wf(m))
        k = z3.Const('k?v', VKey.sort)
        dom, key = SET.get(m, 'dom'), SET.get(m, 'key')
        it.assume_all([z3.ForAll([k], dom[k] == mem(v, hn, hs, n, k), patterns=[dom[k]]), z3.ForAll([k], key[k] == lst(v, hn, hs, n, k), patterns=[key[k]]),
                       SET.size(m) == cnt(v, hn, hs, n)])
        it.assume_all(mem_facts(v, hn, hs, n))
        return m

    def outcome(self, it, f, this, args, kind, r, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        v = it.read(args[0])
        hn, hs = heaps(it)
        n = VI.len(v)
        if isinstance(r, LV): r = it.read(r)
        k = it.fresh('k', VKey.sort)
        it.check('exactly the keys of the listed variables', SET.has(r, k) == mem(v, hn, hs, n, k))
        it.check('stored variable is the first listed one', z3.Select(SET.get(r, 'key'), k) == lst(v, hn, hs, n, k))
        it.check('size is the number of distinct variables', SET.size(r) == cnt(v, hn, hs, n))


class GroupCtor(Contract):
    """Group(const VariablesSoup&)"""
    keys = (GN + '::Group',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::vector')

    def pre(self, it, this, args): return [('non-null variables', and_(soup_ok(it, it.read(args[0]))))]

    def ok(self, it, v):
        hn, hs = heaps(it)
        return z3.And(VI.len(v) >= 1, cnt(v, hn, hs, VI.len(v)) == VI.len(v))

    def model(self, it, this, args):
        v = it.read(args[0])
        hn, hs = heaps(it)
        it.assume_all(mem_facts(v, hn, hs, VI.len(v)))
        if not it.branch(self.ok(it, v)): raise CxxThrow('EFG::Error')
        g = new_group(it, v)
        it.write(this, g)

    def outcome(self, it, f, this, args, kind, r, old):
        v = it.read(args[0])
        hn, hs = heaps(it)
        it.assume_all(mem_facts(v, hn, hs, VI.len(v)))
        if kind == 'throw': it.check('refused only when empty or with duplicates', z3.Not(self.ok(it, v))); return
        it.check('empty lists are refused', VI.len(v) >= 1)
        it.check('duplicates are refused', self.ok(it, v))
        g = it.read(this)
        check_ginv(it, g)
        it.check('variables listed in the given order', gvars(it, g) == v)


def new_group(it, v):
    """a fresh group value over the list v that satisfies the invariant"""
    dt, a, b = group_dt(it)
    s = it.fresh('gset', SET.sort)
    it.assume(SET.wf(s))
    g = dt.mk(*[v if n == a else s for n in dt.names])
    it.assume_all(ginv(it, g))
    return g


class GroupCtor1(Contract):
    keys = (GN + '::Group',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args):
        r = it.read(args[0])
        return [('a variable', z3.And(r > 0, z3.Select(heaps(it)[1], r) >= 1))]

    def model(self, it, this, args):
        r = it.read(args[0])
        it.write(this, new_group(it, VI.mk(z3.IntVal(1), z3.Store(z3.K(IntSort(), I0), 0, r))))

    def outcome(self, it, f, this, args, kind, r, old):
        if kind == 'throw': it.check('a single variable is accepted', FALSE); return
        g = it.read(this)
        check_ginv(it, g)
        v = gvars(it, g)
        it.check('lists the variable', z3.And(VI.len(v) == 1, VI.at(v, I0) == it.read(args[0])))


class GroupAdd(Contract):
    keys = (GN + '::add',)

    def pre(self, it, this, args):
        return [('group invariant', and_(ginv(it, it.read(this), nonempty=False))), ('non-null variable', z3.And(it.read(args[0]) > 0, z3.Select(heaps(it)[1], it.read(args[0])) >= 1))]

    def model(self, it, this, args):
        g, r = it.read(this), it.read(args[0])
        if it.branch(SET.has(gset(it, g), it.vkey(r))): raise CxxThrow('EFG::Error')
        v = gvars(it, g)
        it.assume(VI.len(v) + 1 <= MAXLEN)
        it.write(this, new_group(it, VI.mk(VI.len(v) + 1, z3.Store(VI.arr(v), VI.len(v), r))))

    def outcome(self, it, f, this, args, kind, ret, old):
        g0, r = old.cells[this.root[1]], it.read(args[0])
        g = it.read(this)
        dup = SET.has(gset(it, g0), it.vkey(r))
        if kind == 'throw':
            it.check('refused only for a duplicate', dup)
            it.check('unchanged after refusal', it.val_eq(g, g0))
            return
        it.check('duplicates are refused', z3.Not(dup))
        check_ginv(it, g)
        v, v0 = gvars(it, g), gvars(it, g0)
        it.check('appended', z3.And(VI.len(v) == VI.len(v0) + 1, VI.at(v, VI.len(v0)) == r))
        i = it.fresh('i', IntSort())
        it.check('earlier variables kept in order', z3.Implies(z3.And(0 <= i, i < VI.len(v0)), VI.at(v, i) == VI.at(v0, i)))


class GroupReplace(Contract):
    keys = (GN + '::replaceVariables',)

    def pre(self, it, this, args):
        return [('group invariant', and_(ginv(it, it.read(this)))), ('non-null variables', and_(soup_ok(it, it.read(args[0]))))]

    def okf(self, it, g, v):
        hn, hs = heaps(it)
        v0 = gvars(it, g)
        i = z3.Int('i?r')
        return z3.And(VI.len(v) == VI.len(v0), cnt(v, hn, hs, VI.len(v)) == VI.len(v), szs(v, hs) == szs(v0, hs))

    def model(self, it, this, args):
        g, v = it.read(this), it.read(args[0])
        hn, hs = heaps(it)
        it.assume_all(mem_facts(v, hn, hs, VI.len(v)))
        if not it.branch(self.okf(it, g, v)): raise CxxThrow('EFG::Error')
        it.write(this, new_group(it, v))

    def outcome(self, it, f, this, args, kind, ret, old):
        g0, v = old.cells[this.root[1]], it.read(args[0])
        hn, hs = heaps(it)
        it.assume_all(mem_facts(v, hn, hs, VI.len(v)))
        g = it.read(this)
        v0 = gvars(it, g0)
        i = z3.Int('i?r')
        same = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VI.len(v0)), z3.Select(hs, VI.at(v, i)) == z3.Select(hs, VI.at(v0, i))), patterns=[VI.at(v, i), VI.at(v0, i)])
        ok = z3.And(VI.len(v) == VI.len(v0), cnt(v, hn, hs, VI.len(v)) == VI.len(v), same)
        if kind == 'throw':
            it.check('refused only for an invalid replacement', z3.Not(ok))
            it.check('unchanged after refusal', it.val_eq(g, g0))
            return
        it.check('replacements of another length are refused', VI.len(v) == VI.len(v0))
        it.check('replacements with duplicates are refused', cnt(v, hn, hs, VI.len(v)) == VI.len(v))
        j = it.fresh('j', IntSort())
        it.check('replacements with other domain sizes are refused', z3.Implies(z3.And(0 <= j, j < VI.len(v0)), z3.Select(hs, VI.at(v, j)) == z3.Select(hs, VI.at(v0, j))))
        check_ginv(it, g)
        it.check('variables listed in the given order', it.val_eq(gvars(it, g), v))


class GroupSize(Contract):
    keys = (GN + '::size',)

    def pre(self, it, this, args):
        g = it.read(this)
        return [('group invariant', and_(ginv(it, g))), ('joint size is representable', it.spec.tot(sizes_vec(it, g)) < U64)]

    def model(self, it, this, args):
        return it.spec.tot(sizes_vec(it, it.read(this)))

    @property
    def hints(self): return (prod_hint,)


def prod_hint(it, info, entry, trans):
    """running product of domain sizes, bounded by the total"""
    out = []
    S = it.spec
    for v in candidate_vecs(it, entry):
        a = VI.arr(szs(v, heaps(it)[1]))
        PI = S.fold('prod', False)
        for m in (info.n, ):
            info.defs.append(z3.And(PI(a, I0) == 1, z3.Implies(m >= 0, PI(a, m + 1) == PI(a, m) * a[m])))
            for l in info.leaves:
                if l.sort == IntSort() and l.counter is None: out.append(('product of the visited sizes', l.sym == PI(a, m)))
    return out


class GroupVars(Contract):
    keys = (GN + '::getVariables',)

    def model(self, it, this, args):
        dt, a, b = group_dt(it)
        return this.ext(('f', dt, a))


class GroupSet(Contract):
    keys = (GN + '::getVariablesSet',)

    def model(self, it, this, args):
        dt, a, b = group_dt(it)
        return this.ext(('f', dt, b))


class GroupEq(Contract):
    """same members (the same variable objects), whatever their order"""
    keys = (GN + '::operator==',)

    def sets(self, it, this, args): return gset(it, it.read(this)), gset(it, it.read(args[0]))

    def same(self, it, a, b):
        k = z3.Const('k?e', VKey.sort)
        da, db, ka, kb = SET.get(a, 'dom'), SET.get(b, 'dom'), SET.get(a, 'key'), SET.get(b, 'key')
        return z3.ForAll([k], z3.And(da[k] == db[k], z3.Implies(da[k], ka[k] == kb[k])), patterns=[da[k], db[k]])

    def model(self, it, this, args):
        a, b = self.sets(it, this, args)
        r = it.fresh('samegroup', BoolSort())
        w = it.fresh('k', VKey.sort)
        da, db, ka, kb = SET.get(a, 'dom'), SET.get(b, 'dom'), SET.get(a, 'key'), SET.get(b, 'key')
        it.assume(z3.Or(z3.And(r, self.same(it, a, b)), z3.And(z3.Not(r), z3.Or(da[w] != db[w], z3.And(da[w], ka[w] != kb[w])))))
        return r

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        a, b = self.sets(it, this, args)
        k = it.fresh('k', VKey.sort)
        da, db, ka, kb = SET.get(a, 'dom'), SET.get(b, 'dom'), SET.get(a, 'key'), SET.get(b, 'key')
        v = it.read(v) if isinstance(v, LV) else v
        it.check('equal groups have the same members', z3.Implies(v, z3.And(da[k] == db[k], z3.Implies(da[k], ka[k] == kb[k]))))
        it.assume(z3.And(self.same(it, a, b), SET.size(a) == SET.size(b)))
        it.check('groups with the same members are equal', v)


def diff_facts(it, m, a, b):
    k = z3.Const('k?v', VKey.sort)
    d, da, db = SET.get(m, 'dom'), SET.get(a, 'dom'), SET.get(b, 'dom')
    return [z3.ForAll([k], d[k] == z3.And(da[k], z3.Not(db[k])), patterns=[d[k]]),
            z3.ForAll([k], z3.Implies(d[k], z3.Select(SET.get(m, 'key'), k) == z3.Select(SET.get(a, 'key'), k)), patterns=[z3.Select(SET.get(m, 'key'), k)])]


def diff_hint(it, info, entry, trans):
    out = []
    n = info.n
    groups = {}
    for l in info.leaves:
        if l.path and l.path[-1][0] == 'dt' and l.path[-1][1] is SET: groups.setdefault((l.base[:2], l.path[:-1]), {})[l.path[-1][2]] = l
    sets = []
    for c, v in entry.cells.items():
        if isinstance(v, z3.ExprRef) and v.sort() == SET.sort and not any(v.eq(x) for x in sets): sets.append(v)
    k = z3.Const('k?h', VKey.sort)
    for _, d in groups.items():
        if 'dom' not in d: continue
        dom, key = d['dom'], d['key']
        for s in sets[:4]:
            pos, sd = SET.get(s, 'pos'), SET.get(s, 'dom')
            out.append(('removed the visited ones', z3.ForAll([k], dom.sym[k] == z3.And(dom.init[k], z3.Not(z3.And(sd[k], pos[k] < n))), patterns=[dom.sym[k]])))
            out.append(('added the visited ones', z3.ForAll([k], dom.sym[k] == z3.Or(dom.init[k], z3.And(sd[k], pos[k] < n)), patterns=[dom.sym[k]])))
            out.append(('copied the visited ones that are missing', z3.ForAll([k], z3.Implies(dom.sym[k], z3.And(sd[k], pos[k] < n)), patterns=[dom.sym[k]])))
            for s2 in sets[:4]:
                sd2 = SET.get(s2, 'dom')
                out.append(('filtered copy', z3.ForAll([k], dom.sym[k] == z3.And(sd[k], pos[k] < n, z3.Not(sd2[k])), patterns=[dom.sym[k]])))
            out.append(('keys of the source', z3.ForAll([k], z3.Implies(dom.sym[k], key.sym[k] == z3.Select(SET.get(s, 'key'), k)), patterns=[key.sym[k]])))
        out.append(('keys kept', z3.ForAll([k], z3.Implies(dom.sym[k], key.sym[k] == key.init[k]), patterns=[key.sym[k]])))
    return out


class SetMinus(Contract):
    keys = ('EFG::categoric::operator-=',)
    hints = (diff_hint,)

    def model(self, it, this, args):
        a, b = it.read(args[0]), it.read(args[1])
        m = it.fresh('diff', SET.sort)
        it.assume(SET.wf(m))
        it.assume_all(diff_facts(it, m, a, b))
        it.write(args[0], m)
        return args[0]

    def outcome(self, it, f, this, args, kind, r, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        a, b = old.cells[args[0].root[1]], old.cells[args[1].root[1]]
        m = it.read(args[0])
        self.chk(it, m, a, b)
        it.check('second set unchanged', it.val_eq(it.read(args[1]), b))
        if isinstance(r, LV): it.check('returns the modified set', it.val_eq(it.read(r), m))

    def chk(self, it, m, a, b):
        k = it.fresh('k', VKey.sort)
        it.check('exactly the elements of the first set that are not in the second', SET.has(m, k) == z3.And(SET.has(a, k), z3.Not(SET.has(b, k))))
        it.check('the elements themselves are kept', z3.Implies(SET.has(m, k), z3.Select(SET.get(m, 'key'), k) == z3.Select(SET.get(a, 'key'), k)))


class Complementary(SetMinus):
    keys = ('EFG::categoric::get_complementary',)

    def model(self, it, this, args):
        a, b = it.read(args[0]), it.read(args[1])
        m = it.fresh('diff', SET.sort)
        it.assume(SET.wf(m))
        it.assume_all(diff_facts(it, m, a, b))
        return m

    def outcome(self, it, f, this, args, kind, r, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        a, b = old.cells[args[0].root[1]], old.cells[args[1].root[1]]
        self.chk(it, it.read(r) if isinstance(r, LV) else r, a, b)


ALL = [VarCtor(), VarSize(), VarName(), MakeVariable(), SmartCmp(), SmartHash(), ToVarsSet(), GroupCtor(), GroupCtor1(), GroupAdd(), GroupReplace(), GroupSize(), GroupVars(), GroupSet(), GroupEq(),
       SetMinus(), Complementary()]
