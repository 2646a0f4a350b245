"""C++ types -> SMT sorts. Values of 'sortable' types are plain z3 terms; everything
else (closures, iterators, pointers into objects, ...) is a Python 'meta' value."""
import z3
from z3 import *

U64 = 2 ** 64
MAXLEN = 2 ** 60          # no container is longer than this (documented assumption)
VKeyS = None


class Unsupported(Exception):
    pass


Str = z3.DeclareSort('Str')
strlen = z3.Function('strlen', Str, IntSort())
EMPTY_STR = z3.Const('str:""', Str)
FnS = z3.DeclareSort('Fn')      # tasks held in containers
I0 = z3.IntVal(0)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def and_(*xs):
    l = []
    for x in xs:
        if isinstance(x, (list, tuple)): l.extend(x)
        else: l.append(x)
    l = [x for x in l if not z3.is_true(x)]
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return z3.And(*l)


class DT:
    """wrapper over a single-constructor datatype"""

    def __init__(self, name, fields):
        self.name = name
        self.names = [n for n, _ in fields]
        d = z3.Datatype(name)
        d.declare('mk_' + name, *[(name + '.' + n, s) for n, s in fields])
        self.sort = d.create()
        self.mk = self.sort.constructor(0)
        self.acc = {n: self.sort.accessor(0, i) for i, (n, _) in enumerate(fields)}
        self.idx = {n: i for i, (n, _) in enumerate(fields)}

    def new(self, *vals):
        return self.mk(*vals)

    def get(self, v, n):
        if v.decl().eq(self.mk): return v.arg(self.idx[n])
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = self.get(v.arg(1), n), self.get(v.arg(2), n)
            if a.eq(b): return a
            return z3.If(v.arg(0), a, b)
        return self.acc[n](v)

    def set(self, v, n, x):
        return self.mk(*[x if m == n else self.get(v, m) for m in self.names])

    def upd(self, v, **kw):
        return self.mk(*[kw[m] if m in kw else self.get(v, m) for m in self.names])


class VecDT(DT):
    cache = {}

    def __init__(self, es):
        DT.__init__(self, 'Vec<%s>' % es.name(), [('len', IntSort()), ('arr', z3.ArraySort(IntSort(), es))])
        self.es = es

    @staticmethod
    def of(es):
        k = es.name() if es.kind() != z3.Z3_ARRAY_SORT else str(es)
        if k not in VecDT.cache: VecDT.cache[k] = VecDT(es)
        return VecDT.cache[k]

    def len(self, v): return self.get(v, 'len')

    def arr(self, v): return self.get(v, 'arr')

    def at(self, v, i): return z3.Select(self.arr(v), i)

    def empty(self): return self.mk(I0, z3.K(IntSort(), default(self.es)))

    def wf(self, v):
        i = z3.Int('i?w')
        a = self.arr(v)
        return z3.And(self.len(v) >= 0, self.len(v) <= MAXLEN,
                      z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= self.len(v)), z3.Select(a, i) == default(self.es)),
                                patterns=[z3.Select(a, i)]))


class MapDT(DT):
    """unordered_map / unordered_set / list of objects: domain, stored key object (smart keys), value,
    size and the (arbitrary) enumeration order seq/pos."""
    cache = {}

    def __init__(self, ks, vs, smart, tag):
        f = [('dom', z3.ArraySort(ks, BoolSort())), ('size', IntSort()), ('seq', z3.ArraySort(IntSort(), ks)), ('pos', z3.ArraySort(ks, IntSort()))]
        if smart: f.append(('key', z3.ArraySort(ks, IntSort())))
        if vs is not None: f.append(('val', z3.ArraySort(ks, vs)))
        DT.__init__(self, tag, f)
        self.ks, self.vs, self.smart = ks, vs, smart

    @staticmethod
    def of(ks, vs, smart):
        tag = 'Map<%s,%s%s>' % (ks.name(), vs.name() if vs is not None else '', ',smart' if smart else '')
        if tag not in MapDT.cache: MapDT.cache[tag] = MapDT(ks, vs, smart, tag)
        return MapDT.cache[tag]

    def has(self, m, k): return z3.Select(self.get(m, 'dom'), k)

    def val(self, m, k): return z3.Select(self.get(m, 'val'), k)

    def size(self, m): return self.get(m, 'size')

    def empty(self):
        vals = [z3.K(self.ks, FALSE), I0, z3.K(IntSort(), default(self.ks)), z3.K(self.ks, I0)]
        if self.smart: vals.append(z3.K(self.ks, I0))
        if self.vs is not None: vals.append(z3.K(self.ks, default(self.vs)))
        return self.mk(*vals)

    def wf(self, m):
        i = z3.Int('i?m')
        k = z3.Const('k?m', self.ks)
        dom, seq, pos, size = [self.get(m, x) for x in ('dom', 'seq', 'pos', 'size')]
        l = [size >= 0, size <= MAXLEN,
             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < size), z3.And(dom[seq[i]], pos[seq[i]] == i)), patterns=[seq[i]]),
             z3.ForAll([k], z3.Implies(dom[k], z3.And(0 <= pos[k], pos[k] < size, seq[pos[k]] == k)), patterns=[pos[k], dom[k]])]
        # canonical outside of the domain
        if self.vs is not None:
            val = self.get(m, 'val')
            l.append(z3.ForAll([k], z3.Implies(z3.Not(dom[k]), val[k] == default(self.vs)), patterns=[val[k]]))
        if self.smart:
            key = self.get(m, 'key')
            l.append(z3.ForAll([k], z3.Implies(z3.Not(dom[k]), key[k] == 0), patterns=[key[k]]))
        return z3.And(*l)


class OptDT:
    cache = {}

    def __init__(self, s):
        self.name = 'Opt<%s>' % s.name()
        d = z3.Datatype(self.name)
        d.declare('none_' + self.name)
        d.declare('some_' + self.name, ('ov_' + self.name, s))
        self.sort = d.create()
        self.none = self.sort.constructor(0)()
        self.some = self.sort.constructor(1)
        self.isnone = self.sort.recognizer(0)
        self.issome_ = self.sort.recognizer(1)
        self.acc = self.sort.accessor(1, 0)
        self.s = s

    @staticmethod
    def of(s):
        if s.name() not in OptDT.cache: OptDT.cache[s.name()] = OptDT(s)
        return OptDT.cache[s.name()]

    def has(self, v):
        if v.decl().eq(self.some): return TRUE
        if v.eq(self.none): return FALSE
        return self.issome_(v)

    def get(self, v):
        if v.decl().eq(self.some): return v.arg(0)
        return self.acc(v)


class VarDT:
    cache = {}

    def __init__(self, ss):
        self.name = 'Variant<%s>' % ','.join(s.name() for s in ss)
        d = z3.Datatype(self.name)
        for i, s in enumerate(ss):
            d.declare('alt%d_%s' % (i, self.name), ('v%d_%s' % (i, self.name), s))
        self.sort = d.create()
        self.ss = ss
        self.n = len(ss)

    @staticmethod
    def of(ss):
        k = ','.join(s.name() for s in ss)
        if k not in VarDT.cache: VarDT.cache[k] = VarDT(ss)
        return VarDT.cache[k]

    def mk(self, i, v): return self.sort.constructor(i)(v)

    def isalt(self, v, i):
        for j in range(self.n):
            if v.decl().eq(self.sort.constructor(j)): return TRUE if i == j else FALSE
        return self.sort.recognizer(i)(v)

    def get(self, v, i):
        if v.decl().eq(self.sort.constructor(i)): return v.arg(0)
        return self.sort.accessor(i, 0)(v)


def default(s):
    k = s.kind()
    if k == z3.Z3_INT_SORT: return I0
    if k == z3.Z3_REAL_SORT: return z3.RealVal(0)
    if k == z3.Z3_BOOL_SORT: return FALSE
    if s == Str: return EMPTY_STR
    if k == z3.Z3_ARRAY_SORT: return z3.K(s.domain(), default(s.range()))
    for c in VecDT.cache.values():
        if c.sort == s: return c.empty()
    for c in MapDT.cache.values():
        if c.sort == s: return c.empty()
    for c in OptDT.cache.values():
        if c.sort == s: return c.none
    for c in VarDT.cache.values():
        if c.sort == s: return c.mk(0, default(c.ss[0]))
    if k == z3.Z3_DATATYPE_SORT:
        c = s.constructor(0)
        return c(*[default(c.domain(i)) for i in range(c.arity())])
    return z3.Const('dflt_' + s.name(), s)


VKey = DT('VKey', [('name', Str), ('size', IntSort())])

PTRS = ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr')


class Types:
    def __init__(self, prog, abstract=None):
        self.prog = prog
        self.structs = {}
        self.kind_cache = {}
        self.heaps = None                # current name/size arrays of the variables
        self.abstract = abstract or {}   # record name -> DT (abstract model)

    # ---- classification
    def kind(self, ty):
        """returns tuple (kind, info...)"""
        ty = ty.noref()
        r = self.kind_cache.get(ty.i)
        if r is None:
            self.kind_cache[ty.i] = ('meta', 'recursive')
            try:
                r = self._kind(ty)
            except Unsupported:
                r = ('meta', ty.s)
            self.kind_cache[ty.i] = r
        return r

    def _kind(self, ty):
        k = ty.k
        if k == 'b':
            n = ty.name
            if n == 'bool': return ('bool',)
            if n in ('float', 'double', 'long double'): return ('real',)
            if n == 'void': return ('void',)
            if n == 'std::nullptr_t': return ('null',)
            if n in ('unsigned long', 'unsigned int', 'unsigned char', 'unsigned short', 'unsigned long long'):
                return ('int', 0, {'unsigned long': U64, 'unsigned long long': U64, 'unsigned int': 2 ** 32, 'unsigned short': 2 ** 16, 'unsigned char': 256}[n])
            if n in ('int', 'long', 'long long', 'short', 'char', 'signed char'):
                b = {'int': 31, 'long': 63, 'long long': 63, 'short': 15, 'char': 7, 'signed char': 7}[n]
                return ('int', -2 ** b, 2 ** b)
            return ('meta', n)
        if k == 'enum': return ('int', 0, 2 ** 31)
        if k == 'ptr':
            t = ty.to
            if t.k == 'rec' and self.prog.is_refcls(t.rid): return ('ref', t)
            return ('meta', 'ptr')
        if k == 'rec':
            n = ty.name
            if n in self.abstract: return ('abs', self.abstract[n])
            if n in PTRS:
                t = ty.args()[0]
                if t.k == 'rec' and self.prog.is_refcls(t.rid): return ('ref', t)
                if n == 'std::unique_ptr' or n == 'std::shared_ptr':
                    s = self.sort(t)
                    if s is not None: return ('box', t)
                return ('meta', n)
            if n in ('std::basic_string', 'std::__cxx11::basic_string'): return ('str',)
            if n in ('std::vector', 'std::list') or n == 'std::__cxx11::list':
                t = ty.args()[0]
                if 'list' in n and t.k == 'rec' and self.prog.is_refcls(t.rid):
                    return ('map', MapDT.of(IntSort(), None, False), 'olist', t, None)
                s = FnS if t.isrec('std::function') else self.sort(t)
                if s is None: return ('meta', n)
                return ('vec', VecDT.of(s), t)
            if n in ('std::unordered_map', 'std::unordered_set', 'std::map', 'std::set'):
                a = ty.args()
                kt = a[0]
                ismap = n.endswith('map')
                vt = a[1] if ismap else None
                cmp = a[3] if ismap and len(a) > 3 else (a[2] if len(a) > 2 else None)
                smart = any(x.k == 'rec' and x.name == 'EFG::Comparator' for x in a[1:])
                ks = VKey.sort if smart else self.sort(kt)
                if ks is None: return ('meta', n)
                vs = self.sort(vt) if ismap else None
                if ismap and vs is None: return ('meta', n)
                return ('map', MapDT.of(ks, vs, smart), 'map' if ismap else 'set', kt, vt)
            if n in ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_List_const_iterator'):
                return ('meta', n)
            if n == 'std::_List_iterator':
                t = ty.args()[0]
                if t.k == 'rec' and self.prog.is_refcls(t.rid): return ('ref', t)
                return ('meta', n)
            if n == 'std::optional':
                s = self.sort(ty.args()[0])
                if s is None: return ('meta', n)
                return ('opt', OptDT.of(s), ty.args()[0])
            if n == 'std::variant':
                ss = [self.sort(t) for t in ty.args()]
                if any(s is None for s in ss): return ('meta', n)
                return ('var', VarDT.of(ss), ty.args())
            if n == 'std::pair':
                ss = [self.sort(t) for t in ty.args()]
                if any(s is None for s in ss): return ('meta', n)
                key = 'Pair<%s,%s>' % (ss[0].name(), ss[1].name())
                if key not in self.structs: self.structs[key] = DT(key, [('first', ss[0]), ('second', ss[1])])
                return ('struct', self.structs[key], {'first': ty.args()[0], 'second': ty.args()[1]})
            if ty.j.get('lam'): return ('meta', 'lambda')
            rec = self.prog.rec.get(ty.rid)
            if rec is not None:
                if self.prog.is_refcls(ty.rid): return ('ref', ty)
                fs = self.fields(ty.rid)
                ss = [(fk, self.sort(ft)) for fk, ft, _ in fs]
                # a pointer to a value: only its address
                ss = [(fk, IntSort() if x is None and ft.k == 'ptr' and ft.to.k == 'rec' and ft.to.rid in self.prog.rec else x) for (fk, x), (_, ft, _) in zip(ss, fs)]
                if any(s is None for _, s in ss): return ('meta', 'struct')
                if not ss: return ('meta', 'empty struct')
                key = self.rname(ty.rid)
                if key not in self.structs: self.structs[key] = DT(key, ss)
                return ('struct', self.structs[key], {fk: ft for fk, ft, _ in fs})
            return ('meta', n)
        return ('meta', k)

    def fields(self, rid):
        """[(key, type, field-json)] of a repo record, bases included"""
        rec = self.prog.rec[rid]
        res = []
        for n, b in enumerate(self.prog.bases(rid)):
            if b.rid in self.prog.rec: res += [x for x in self.fields(b.rid) if x[0] not in [y[0] for y in res]]
            else: res.append(('$b%d' % n, b, None))
        for f in rec['fields']:
            res.append((self.fkey(f['id']), self.prog.ty(f['t']), f))
        return res

    def fkey(self, fid):
        r, f = self.prog.field[fid]
        return self.rname(r['id']) + '::' + f['n']

    def rname(self, rid):
        r = self.prog.rec[rid]
        t = (self.prog.ty(r['t']).s if 't' in r else r['n']).replace('const ', '')
        if '::' not in t: t += '#%d' % rid      # function-local struct
        return t

    def sort(self, ty):
        k = self.kind(ty)
        if k[0] == 'bool': return BoolSort()
        if k[0] == 'int': return IntSort()
        if k[0] == 'real': return RealSort()
        if k[0] == 'ref': return IntSort()
        if k[0] == 'box': return IntSort()
        if k[0] == 'null': return IntSort()
        if k[0] == 'str': return Str
        if k[0] in ('vec', 'map', 'opt', 'var', 'struct', 'abs'): return k[1].sort
        return None

    def default(self, ty):
        s = self.sort(ty)
        return default(s)

    def wf(self, ty, v, nextref, depth=0):
        """well-formedness facts of an arbitrary value v of type ty (list)"""
        k = self.kind(ty)
        if k[0] == 'int': return [v >= k[1], v < k[2]]
        if k[0] in ('ref', 'box'): return [v >= 0, v < nextref]
        if k[0] == 'str': return [strlen(v) >= 0, (strlen(v) == 0) == (v == EMPTY_STR), strlen(v) <= MAXLEN]
        if k[0] == 'vec':
            res = [k[1].wf(v)]
            i = z3.Int('i?e%d' % depth)
            e = k[1].at(v, i)
            sub = self.wf(k[2], e, nextref, depth + 1)
            if sub: res.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k[1].len(v)), and_(sub)), patterns=[e]))
            return res
        if k[0] == 'map':
            m = k[1]
            res = [m.wf(v)]
            kk = z3.Const('k?e%d' % depth, m.ks)
            dom = m.has(v, kk)
            if m.smart:
                key = z3.Select(m.get(v, 'key'), kk)
                l = [key > 0, key < nextref]
                if self.heaps is not None:
                    hn, hs = self.heaps()
                    l.append(VKey.mk(z3.Select(hn, key), z3.Select(hs, key)) == kk)
                res.append(z3.ForAll([kk], z3.Implies(dom, z3.And(*l)), patterns=[key]))
            elif k[2] == 'olist':
                res.append(z3.ForAll([kk], z3.Implies(dom, z3.And(kk > 0, kk < nextref)), patterns=[dom]))
            else:
                sub = self.wf(k[3], kk, nextref, depth + 1)
                if sub: res.append(z3.ForAll([kk], z3.Implies(dom, and_(sub)), patterns=[dom]))
            if k[4] is not None:
                val = m.val(v, kk)
                sub = self.wf(k[4], val, nextref, depth + 1)
                if sub: res.append(z3.ForAll([kk], z3.Implies(dom, and_(sub)), patterns=[val]))
            return res
        if k[0] == 'opt':
            sub = self.wf(k[2], k[1].get(v), nextref, depth)
            return [z3.Implies(k[1].has(v), and_(sub))] if sub else []
        if k[0] == 'var':
            res = []
            for i, t in enumerate(k[2]):
                sub = self.wf(t, k[1].get(v, i), nextref, depth)
                if sub: res.append(z3.Implies(k[1].isalt(v, i), and_(sub)))
            return res
        if k[0] == 'struct':
            res = []
            for n, t in k[2].items(): res += self.wf(t, k[1].get(v, n), nextref, depth)
            return res
        if k[0] == 'abs':
            return k[1].wfspec(v)
        return []
