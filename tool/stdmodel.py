"""Trusted models of the parts of the C++ standard library that the repository uses."""
import z3
from z3 import *
from sorts import *
from interp import *

ITERS = ('__gnu_cxx::__normal_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_List_iterator',
         'std::_List_const_iterator', 'std::__detail::_Node_iterator_base')
NAME_F, SIZE_F = 'EFG::categoric::Variable::name_', 'EFG::categoric::Variable::size_'
VECS = ('std::vector', 'std::list', 'std::__cxx11::list')
MAPS = ('std::unordered_map', 'std::unordered_set', 'std::map', 'std::set')
STRS = ('std::basic_string', 'std::__cxx11::basic_string')

SEQREG = {}
expf_ = z3.Function('expf', RealSort(), RealSort())
tostr_int = z3.Function('to_string', IntSort(), Str)
strcat = z3.Function('strcat', Str, Str, Str)


class StdModel(Interp):
    # ------------------------------------------------------------ helpers
    def val(self, n):
        return self.rv(n)

    def cont(self, b, ty):
        """container operand -> (lvalue, kind)"""
        if isinstance(b, (z3.ExprRef, MetaVec)): b = self.newcell(b, ty)
        k = self.T.kind(ty)
        return b, k

    def vkey(self, ref):
        return VKey.mk(sel(self.harr(NAME_F, Str), ref, self), sel(self.harr(SIZE_F, IntSort()), ref, self))

    def mkey(self, dt, v):
        """value used as a key -> (abstract key, stored object)"""
        if isinstance(v, Obj): v = v.ref
        if dt.smart: return self.vkey(v), v
        return v, v

    def map_fresh(self, dt, ty, dom, size, val=None, key=None):
        m = self.fresh('map', dt.sort)
        seq, pos = self.fresh('seq', dt.get(m, 'seq').sort()), self.fresh('pos', dt.get(m, 'pos').sort())
        a = [dom, size, seq, pos]
        if dt.smart: a.append(key)
        if dt.vs is not None: a.append(val)
        m = dt.mk(*a)
        SEQREG[seq.get_id()] = (seq, pos, dom)
        i = z3.Int('i?m')
        k = z3.Const('k?m', dt.ks)
        self.assume(size >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < size), z3.And(dom[seq[i]], pos[seq[i]] == i)), patterns=[seq[i]]))
        self.assume(z3.ForAll([k], z3.Implies(dom[k], z3.And(0 <= pos[k], pos[k] < size, seq[pos[k]] == k)), patterns=[pos[k]]))
        return m

    def map_put(self, m, dt, k, kobj, v, overwrite):
        """-> (new map, inserted cond) ; forks on presence"""
        if self.branch(dt.has(m, k)):
            if overwrite and dt.vs is not None: return dt.set(m, 'val', z3.Store(dt.get(m, 'val'), k, v)), False
            return m, False
        self.assume(dt.size(m) + 1 <= MAXLEN)
        kw = {}
        if dt.smart: kw['key'] = z3.Store(dt.get(m, 'key'), k, kobj)
        if dt.vs is not None: kw['val'] = z3.Store(dt.get(m, 'val'), k, v)
        nm = self.map_fresh(dt, None, z3.Store(dt.get(m, 'dom'), k, TRUE), dt.size(m) + 1, **kw)
        self.last_put = (m, nm, k)
        return nm, True

    def map_del(self, m, dt, k):
        """k is in m"""
        kw = {}
        if dt.smart: kw['key'] = z3.Store(dt.get(m, 'key'), k, I0)
        if dt.vs is not None: kw['val'] = z3.Store(dt.get(m, 'val'), k, default(dt.vs))
        return self.map_fresh(dt, None, z3.Store(dt.get(m, 'dom'), k, FALSE), dt.size(m) - 1, **kw)

    def store_value(self, ty, v):
        if isinstance(v, (LV, ElemLV)): v = self.read(v)
        v = self.coerce(v, ty)
        return self.refof(v)

    # ------------------------------------------------------------ iterators
    def snapped(self, it):
        """the map whose order the iterator follows: the one at begin(), as long as elements were only erased before the
        position since then (erasing keeps the order of the others); both are obligations"""
        m = self.read(it.lv)
        s = getattr(it, 'snap', None)
        if s is None or m.eq(s): return m
        dt = it.dt
        k = z3.Const('k?i', dt.ks)
        p = z3.Select(dt.get(s, 'pos'), k)
        self.check('no element added during the iteration', z3.ForAll([k], z3.Implies(dt.has(m, k), dt.has(s, k)), patterns=[dt.has(m, k)]), 'safety')
        self.check('elements to visit not erased during the iteration', z3.ForAll([k], z3.Implies(z3.And(dt.has(s, k), p >= it.idx), dt.has(m, k)), patterns=[dt.has(s, k), p]), 'safety')
        return s

    def iter_key(self, it):
        if it.key is not None: return it.key
        if getattr(it, 'snap', None) is not None: return sel(it.dt.get(self.snapped(it), 'seq'), it.idx, self)
        return sel(it.dt.get(self.read(it.lv), 'seq'), it.idx, self)

    def iter_deref(self, it):
        v = self.read(it.lv)
        if it.kind == 'vec':
            self.check('iterator in range', z3.And(it.idx >= 0, it.idx < it.dt.len(v)), 'safety')
            return self.wrapelem(it.lv.ext(('i', it.dt, it.idx)), it.info)
        if it.end: self.check('dereference of end iterator', FALSE, 'safety')
        if it.key is not None:
            self.check('iterator valid', z3.And(it.has if it.has is not None else TRUE, it.dt.has(v, it.key)), 'safety')
            return ElemLV(it.lv, it.dt, it.key, it.info) if it.info != 'olist' else Obj(it.key, it.oty)
        w = self.snapped(it)
        self.check('iterator in range', z3.And(it.idx >= 0, it.idx < it.dt.size(w)), 'safety')
        k = sel(it.dt.get(w, 'seq'), it.idx, self)
        return ElemLV(it.lv, it.dt, k, it.info) if it.info != 'olist' else Obj(k, it.oty)

    def wrapelem(self, lv, ety):
        return lv

    def iter_eq(self, a, b):
        if not isinstance(a, Iter) or not isinstance(b, Iter): raise Unsupported('iterator comparison')
        if a.kind == 'vec': return a.idx == b.idx
        if a.end and b.end: return TRUE
        if b.end: a, b = b, a
        if a.end:
            if b.key is not None: return z3.Not(b.has)
            return b.idx == b.dt.size(self.snapped(b))
        if a.key is not None and b.key is not None:
            return z3.Or(z3.And(a.has, b.has, a.key == b.key), z3.And(z3.Not(a.has), z3.Not(b.has)))
        if a.key is None and b.key is None: return a.idx == b.idx
        raise Unsupported('iterator comparison')

    def iter_idx(self, it):
        if it.idx is not None: return it.idx
        m = self.read(it.lv)
        if it.end: return it.dt.size(m)
        return z3.If(it.has, sel(it.dt.get(m, 'pos'), it.key, self), it.dt.size(m))

    def iter_with(self, it, idx):
        r = Iter(it.kind, it.lv, it.dt, idx, info=it.info)
        r.oty = getattr(it, 'oty', None)
        r.snap = getattr(it, 'snap', None)
        return r

    def iter_step(self, lv, d, post):
        it = self.read(lv) if isinstance(lv, LV) else lv
        i = self.iter_idx(it)
        if it.kind == 'vec':
            n = it.dt.len(self.read(it.lv))
            self.check('iterator step in range', z3.And(i + d >= 0, i + d <= n), 'safety')
        nx = self.iter_with(it, i + d)
        if isinstance(lv, LV): self.write(lv, nx)
        return it if post else (lv if isinstance(lv, LV) else nx)

    def iter_minus(self, a, b):
        return self.iter_idx(a) - self.iter_idx(b)

    def begin(self, lv, k, end=False):
        v = self.read(lv)
        if k[0] == 'vec':
            return Iter('vec', lv, k[1], k[1].len(v) if end else I0, info=k[2])
        it = Iter('map', lv, k[1], k[1].size(v) if end else I0, end=False, info=k[2])
        if end: it = Iter('map', lv, k[1], None, end=True, info=k[2])
        it.oty = k[3]
        if not end and getattr(self.verifying, 'snap_iter', False): it.snap = v
        return it

    # ------------------------------------------------------------ construction
    def std_construct(self, e, ty, argnodes, f):
        n = ty.name
        k = self.T.kind(ty)
        args = [a for a in argnodes if not (a['k'] == 'CXXDefaultArgExpr' and self.is_alloc(a))]
        if n in ITERS:
            if not args: return NullMeta()
            return self.rv(args[0])
        if n in ('std::allocator', 'std::hash', 'std::equal_to', 'std::nullopt_t', 'std::less'): return MetaStruct(ty, {})
        if n == 'std::function':
            if not args: return NullMeta()
            v = self.rv(args[0])
            return v
        if n in PTRS:
            if not args: return I0
            v = self.move_or_copy(args[0])
            if isinstance(v, Obj): v = v.ref
            if isinstance(v, NullMeta): v = I0
            return v
        if n in STRS:
            if not args: return EMPTY_STR
            v = self.rv(args[0])
            if isinstance(v, z3.ExprRef) and v.sort() == Str: return v
            return self.fresh_of('str', ty)
        if n == 'std::optional':
            if k[0] != 'opt':
                return self.meta_opt(args)
            if not args: return k[1].none
            at = self.ty(args[0]).noref()
            if at.isrec('std::nullopt_t'): return k[1].none
            v = self.move_or_copy(args[0])
            if at.isrec('std::optional'): return v
            return k[1].some(self.store_value(k[2], v))
        if n == 'std::variant':
            if not args: return self.T.default(ty)
            at = self.ty(args[0]).noref()
            v = self.move_or_copy(args[0])
            if at.isrec('std::variant'): return v
            if k[0] == 'meta': return self.meta_variant(ty, at, v)
            return self.to_variant(k, at, v)
        if n == 'std::pair':
            vals = [self.rv(a) for a in args]
            if len(vals) == 1: return vals[0]
            if k[0] == 'struct' and all(isinstance(x, (z3.ExprRef, Obj)) for x in vals):
                ts = list(k[2].values())
                return k[1].new(*[self.store_value(t, x) for t, x in zip(ts, vals)])
            return MetaStruct(ty, {'first': vals[0], 'second': vals[1]})
        if n in VECS:
            if k[0] not in ('vec', 'map'):
                if not args: return MetaVec([])
                raise Unsupported('vector of ' + ty.s)
            if not args: return self.T.default(ty)
            if k[0] == 'map':
                if len(args) == 1 and (e['copy'] or e['move']): return self.move_or_copy(args[0])
                raise Unsupported('list construction')
            dt = k[1]
            if len(args) == 1:
                at = self.ty(args[0]).noref()
                if at.isrec(*VECS): return self.move_or_copy(args[0])
                v = self.rv(args[0])
                if isinstance(v, InitList): return self.coerce(v, ty)
                if z3.is_int(v): return self.vec_n(dt, v, default(dt.es), k[2])
                if isinstance(v, z3.ExprRef) and v.sort() == dt.sort: return v
                raise Unsupported('vector construction from ' + at.s)
            a, b = self.rv(args[0]), self.rv(args[1])
            if isinstance(a, Iter): return self.vec_range(dt, k[2], a, b)
            return self.vec_n(dt, a, self.store_value(k[2], b), k[2])
        if n in MAPS:
            if k[0] != 'map': raise Unsupported('map of ' + ty.s)
            if args and (e['copy'] or e['move']): return self.move_or_copy(args[0])
            if args and self.ty(args[0]).noref().isrec('std::initializer_list'):
                m = k[1].empty()
                l = self.rv(args[0])
                for x in l.vals: m = self.put_elem(m, k, x)
                return m
            if args:
                a = self.rv(args[0])
                if isinstance(a, Iter):
                    raise Unsupported('map from range')
            for a in args[1:]: self.rv(a)
            return k[1].empty()
        if n == 'std::basic_stringstream' or n == 'std::__cxx11::basic_stringstream': return MetaStruct(ty, {})
        if n in ('std::uniform_real_distribution', 'std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::uniform_int_distribution'):
            return MetaStruct(ty, {'args': [self.rv(a) for a in args]})
        raise Unsupported('construction of ' + ty.s)

    def meta_opt(self, args):
        if not args or self.ty(args[0]).noref().isrec('std::nullopt_t'): return MetaOpt(False)
        v = self.move_or_copy(args[0])
        if isinstance(v, MetaOpt): return v
        return MetaOpt(True, v)

    def meta_variant(self, ty, at, v):
        v = self.stable(v)
        for i, t in enumerate(ty.args()):
            if t.s.replace('const ', '') == at.s.replace('const ', ''): return MetaVar(i, v)
        raise Unsupported('variant alternative')

    def stable(self, v):
        """an iterator of a node container goes with its element, not with its position"""
        if isinstance(v, Iter) and v.kind == 'map' and v.key is None and not v.end:
            m = self.read(v.lv)
            r = Iter('map', v.lv, v.dt, None, key=sel(v.dt.get(m, 'seq'), v.idx, self), has=v.idx < v.dt.size(m), info=v.info)
            r.oty = getattr(v, 'oty', None)
            return r
        return v

    def is_alloc(self, a):
        return self.ty(a).noref().name in ('std::allocator', 'std::hash', 'std::equal_to')

    def put_elem(self, m, k, x):
        dt = k[1]
        if k[2] == 'set':
            kk, ko = self.mkey(dt, x)
            return self.map_put(m, dt, kk, ko, None, False)[0]
        raise Unsupported('map initialiser')

    def to_variant(self, k, at, v):
        v = self.refof(v)
        for i, t in enumerate(k[2]):
            if t.s.replace('const ', '') == at.s.replace('const ', ''): return k[1].mk(i, v)
        for i, t in enumerate(k[2]):
            if isinstance(v, z3.ExprRef) and self.T.sort(t) == v.sort(): return k[1].mk(i, v)
        raise Unsupported('variant alternative')

    def vec_n(self, dt, n, x, ety):
        self.assume(n <= MAXLEN)
        if x.eq(default(dt.es)): return dt.new(n, z3.K(IntSort(), x))
        v = self.fresh('vecn', dt.sort)
        i = z3.Int('i?n')
        a = dt.arr(v)
        self.assume(dt.len(v) == n)
        self.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(0 <= i, i < n), x, default(dt.es)), patterns=[z3.Select(a, i)]))
        return v

    def vec_range(self, dt, ety, a, b):
        src = self.read(a.lv)
        v = self.fresh('vecr', dt.sort)
        i = z3.Int('i?n')
        arr = dt.arr(v)
        lo, hi = self.iter_idx(a), self.iter_idx(b)
        self.check('iterator range', z3.And(0 <= lo, lo <= hi), 'safety')
        n = hi - lo
        self.assume(dt.len(v) == n)
        if a.kind == 'vec':
            if a.dt.es != dt.es: raise Unsupported('range conversion')
            x = z3.Select(a.dt.arr(src), i + lo)
        else:
            if a.info not in ('set', 'olist'): raise Unsupported('range of map')
            x = z3.Select(a.dt.get(src, 'seq'), i + lo)
            if a.dt.smart: x = z3.Select(a.dt.get(src, 'key'), x)
            # (consequence: every member is at its position)
            k = z3.Const('k?n', a.dt.ks)
            ps = z3.Select(a.dt.get(src, 'pos'), k) - lo
            self.assume(z3.ForAll([k], z3.Implies(z3.And(a.dt.has(src, k), 0 <= ps, ps < n), z3.Select(arr, z3.simplify(ps)) == (z3.Select(a.dt.get(src, 'key'), k) if a.dt.smart else k)), patterns=[a.dt.has(src, k)]))
        self.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(0 <= i, i < n), x, default(dt.es)), patterns=[z3.Select(arr, i)]))
        return v

    # ------------------------------------------------------------ free functions
    def std_call(self, e, f):
        qn = (f or {}).get('qn') or e.get('qn') or ''
        name = qn.split('::')[-1]
        a = e['args']
        m = getattr(self, 'fn_' + name.replace('operator==', 'opeq').replace('operator!=', 'opne').replace('operator<<', 'opshl').replace('operator+', 'opplus').replace('operator-', 'opminus'), None)
        if m is None: raise Unsupported('library function ' + qn)
        self.assumed_std.add(qn)
        return m(e, a)

    def fn_forward(self, e, a): return self.ev(a[0])
    fn_move = fn_as_const = fn_ref = fn_cref = fn_forward

    def fn_opeq(self, e, a):
        if self.ty(a[0]).noref().isrec('std::nullptr_t') or self.ty(a[1]).k == 'b' or True:
            x, y = self.rv(a[0]), self.rv(a[1])
        return self.std_equal(x, y, self.ty(a[0]).noref(), self.ty(a[1]).noref())

    def fn_opne(self, e, a): return z3.Not(self.fn_opeq(e, a))

    def std_equal(self, x, y, tx, ty):
        if isinstance(x, NullMeta) or isinstance(y, NullMeta):
            return TRUE if isinstance(x, NullMeta) and isinstance(y, NullMeta) else FALSE
        if isinstance(x, Closure) or isinstance(y, Closure): return FALSE
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort():
            k = self.T.kind(tx)
            if k[0] == 'map':
                r = z3.And(k[1].size(x) == k[1].size(y), k[1].get(x, 'dom') == k[1].get(y, 'dom'))
                if k[1].vs is not None: r = z3.And(r, k[1].get(x, 'val') == k[1].get(y, 'val'))
                if k[1].smart:
                    # members are compared by pointer
                    q = z3.Const('k?eq', k[1].ks)
                    kx, ky = z3.Select(k[1].get(x, 'key'), q), z3.Select(k[1].get(y, 'key'), q)
                    r = z3.And(r, z3.ForAll([q], z3.Implies(k[1].has(x, q), kx == ky), patterns=[kx, ky]))
                return r
            if k[0] == 'opt':
                et = k[2].noref()
                rec = self.prog.rec.get(et.rid) if et.isrec() else None
                if rec is not None:
                    ops = [self.prog.fn[m] for m in rec['methods'] if m in self.prog.fn and self.prog.fn[m]['n'] == 'operator==']
                    if ops:
                        hx, hy = self.branch(k[1].has(x)), self.branch(k[1].has(y))
                        if not (hx and hy): return TRUE if hx == hy else FALSE
                        cx, cy = self.newcell(k[1].get(x), et), self.newcell(k[1].get(y), et)
                        return self.call_fn_vals(ops[0], cx, [cy])
            return x == y
        return self.equal(x, y)

    def fn_opplus(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        if isinstance(x, Iter):
            return self.iter_with(x, self.iter_idx(x) + y)
        if isinstance(x, z3.ExprRef) and x.sort() == Str and isinstance(y, z3.ExprRef) and y.sort() == Str: return strcat(x, y)
        return self.fresh_of('str', self.ty(e))

    def fn_opminus(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        if isinstance(x, Iter) and isinstance(y, Iter): return self.iter_minus(x, y)
        if isinstance(x, Iter): return self.iter_with(x, self.iter_idx(x) - y)
        raise Unsupported('operator-')

    def fn_make_shared(self, e, a):
        t = self.ty(e).args()[0]
        vals = [self.ev(x) for x in a]
        tys = [self.ty(x) for x in a]
        t = self.unconst(t)
        k = self.T.kind(t)
        if t.isrec() and t.rid in self.prog.rec and self.prog.is_refcls(t.rid):
            vals = [v for v in vals]
            r = self.build(t, vals, tys)
            return r.ref if isinstance(r, Obj) else r
        v = self.build(t, vals, tys)
        return self.box(t, v)
    fn_make_unique = fn_make_shared

    def unconst(self, t):
        if not t.const: return t
        s = t.s.replace('const ', '')
        for i, j in enumerate(self.prog.d['types']):
            if j['s'] == s: return self.prog.ty(i)
        return t

    def box(self, t, v):
        s = self.T.sort(t)
        if s is None or not isinstance(v, z3.ExprRef): raise Unsupported('box of ' + t.s)
        key = '$box:' + str(s)
        self.fsorts[key] = s
        self.ftypes[key] = t
        r = self.alloc(None)
        self.write(LV(('h', key, r)), v)
        return r

    def unbox(self, ref, t):
        s = self.T.sort(t)
        key = '$box:' + str(s)
        self.fsorts[key] = s
        self.ftypes.setdefault(key, t)
        return LV(('h', key, ref))

    def fn_max(self, e, a):
        if not a: return self.limits(e, True)
        x, y = self.numpair(self.rv(a[0]), self.rv(a[1]))
        return z3.If(x < y, y, x)

    def fn_min(self, e, a):
        if not a: return self.limits(e, False)
        x, y = self.numpair(self.rv(a[0]), self.rv(a[1]))
        return z3.If(y < x, y, x)

    def limits(self, e, mx):
        k = self.T.kind(self.ty(e))
        if k[0] == 'int': return z3.IntVal(k[2] - 1 if mx else k[1])
        v = z3.Real('FLT_MAX' if mx else 'FLT_MIN')
        self.assume(v > 0)
        return v

    def fn_floor(self, e, a):
        v = self.to_real(self.rv(a[0]))
        i = self.fresh('floor', IntSort())
        self.assume(z3.And(z3.ToReal(i) <= v, v < z3.ToReal(i) + 1))
        return z3.ToReal(i)
    fn_floorf = fn_floor

    def fn_ceil(self, e, a):
        v = self.to_real(self.rv(a[0]))
        i = self.fresh('ceil', IntSort())
        self.assume(z3.And(z3.ToReal(i) >= v, v > z3.ToReal(i) - 1))
        return z3.ToReal(i)
    fn_ceilf = fn_ceil

    def fn_abs(self, e, a):
        v = self.rv(a[0])
        return z3.If(v >= 0, v, -v)
    fn_fabs = fn_fabsf = fn_abs

    def fn_expf(self, e, a): return expf_(self.to_real(self.rv(a[0])))
    fn_exp = fn_expf

    def fn_rand(self, e, a):
        v = self.fresh('rand', IntSort())
        self.assume(z3.And(v >= 0, v <= 2147483647))
        return v

    def fn_time(self, e, a): return self.fresh_of('time', self.ty(e))

    def fn_to_string(self, e, a):
        v = self.rv(a[0])
        return self.fresh_of('tostr', self.ty(e))

    def fn_distance(self, e, a):
        return self.iter_minus(self.rv(a[1]), self.rv(a[0]))

    def fn_next(self, e, a):
        it = self.rv(a[0])
        d = self.rv(a[1]) if len(a) > 1 else z3.IntVal(1)
        return self.iter_with(it, self.iter_idx(it) + d)

    def fn_prev(self, e, a):
        it = self.rv(a[0])
        d = self.rv(a[1]) if len(a) > 1 else z3.IntVal(1)
        return self.iter_with(it, self.iter_idx(it) - d)

    def fn_begin(self, e, a):
        lv, k = self.cont(self.ev(a[0]), self.ty(a[0]).noref())
        return self.begin(lv, k)
    fn_cbegin = fn_begin

    def fn_end(self, e, a):
        lv, k = self.cont(self.ev(a[0]), self.ty(a[0]).noref())
        return self.begin(lv, k, True)
    fn_cend = fn_end

    def fn_size(self, e, a):
        lv, k = self.cont(self.ev(a[0]), self.ty(a[0]).noref())
        return k[1].len(self.read(lv)) if k[0] == 'vec' else k[1].size(self.read(lv))

    def elem_at(self, it, idx):
        """lvalue / value of the element of the range of `it` at position idx"""
        v = self.read(it.lv)
        if it.kind == 'vec': return it.lv.ext(('i', it.dt, idx))
        k = sel(it.dt.get(v, 'seq'), idx, self)
        if it.info == 'olist': return Obj(k, it.oty)
        return ElemLV(it.lv, it.dt, k, it.info)

    def find_gen(self, a, b, pred):
        """first position in [a,b) with pred(elem)"""
        lo, hi = self.iter_idx(a), self.iter_idx(b)
        j = self.fresh('fj', IntSort())
        p = self.pure(lambda: pred(self.elem_at(a, j)), [lo <= j, j < hi])
        r = self.fresh('found', IntSort())
        self.check('iterator range', z3.And(0 <= lo, lo <= hi), 'safety')
        self.assume(z3.And(lo <= r, r <= hi))
        self.assume(z3.Implies(r < hi, z3.substitute(p, (j, r))))
        q = z3.Int('j?f')
        body = z3.substitute(p, (j, q))
        rng = z3.And(lo <= q, q < r)
        self.assume(self.forall([q], z3.Implies(rng, z3.Not(body))))
        return self.iter_with(a, r)

    def forall(self, vs, body):
        """quantifier with patterns picked from array selects that mention the variable directly"""
        from loops import pick_patterns
        pats = pick_patterns(vs, body)
        if pats: return z3.ForAll(vs, body, patterns=pats)
        return z3.ForAll(vs, body)

    def pure(self, fn, assumptions):
        """boolean/arith value of fn() merged over its paths, as a formula of the current state"""
        res = []
        outer_rep = self.replaying()

        def run():
            for x in assumptions: self.assume(x)
            v = fn()
            if isinstance(v, (LV, ElemLV)): v = self.read(v)
            return v

        def on(kind, v):
            if kind != 'ok': raise Unsupported('predicate that does not return')
            res.append((list(self.bconds), v))
        w = Recorder()
        self.writes.append(w)
        if outer_rep: self.infer += 1
        try: self.explore(run, on)
        finally:
            if outer_rep: self.infer -= 1
            if self.writes and self.writes[-1] is w: self.writes.pop()
        if w.heap: raise Unsupported('predicate with side effects')
        if not res: return FALSE
        r = res[-1][1]
        for c, v in reversed(res[:-1]): r = z3.If(and_(c), v, r)
        return r

    def fn_find(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        v = self.rv(a[2])
        t = self.ty(a[2]).noref()
        return self.find_gen(x, y, lambda el: self.std_equal(self.read(el), self.refof(v), t, t))

    def fn_find_if(self, e, a):
        x, y, c = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
        return self.find_gen(x, y, lambda el: self.call_closure(c, [el], None))

    def fn_any_of(self, e, a):
        x, y, c = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
        r = self.find_gen(x, y, lambda el: self.call_closure(c, [el], None))
        return r.idx < self.iter_idx(y)

    def fn_none_of(self, e, a): return z3.Not(self.fn_any_of(e, a))

    def fn_all_of(self, e, a):
        x, y, c = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
        r = self.find_gen(x, y, lambda el: z3.Not(self.call_closure(c, [el], None)))
        return r.idx == self.iter_idx(y)

    def fn_max_element(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        lo, hi = self.iter_idx(x), self.iter_idx(y)
        if x.kind != 'vec' or len(a) > 2: raise Unsupported('max_element')
        r = self.fresh('argmax', IntSort())
        arr = x.dt.arr(self.read(x.lv))
        self.assume(z3.If(lo < hi, z3.And(lo <= r, r < hi), r == hi))
        q = z3.Int('j?f')
        self.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), z3.And(arr[q] <= arr[r], z3.Implies(q < r, arr[q] < arr[r]))), patterns=[arr[q]]))
        return self.iter_with(x, r)

    def synth_loop(self, tag, start, cond, body, inc, node):
        self.loop(node, cond, body, inc)

    def fn_for_each(self, e, a):
        x, y, c = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
        it = self.newcell(x)
        self.loop(e, lambda: z3.Not(self.iter_eq(self.read(it), y)), lambda: self.call_closure(c, [self.iter_deref(self.read(it))], None),
                  lambda: self.iter_step(it, 1, False))
        return c

    def fn_fill(self, e, a):
        x, y, v = self.rv(a[0]), self.rv(a[1]), self.rv(a[2])
        it = self.newcell(x)
        self.loop(e, lambda: z3.Not(self.iter_eq(self.read(it), y)), lambda: self.write(self.iter_deref(self.read(it)), self.num(v, x.dt.es)),
                  lambda: self.iter_step(it, 1, False))

    def fn_accumulate(self, e, a):
        x, y = self.rv(a[0]), self.rv(a[1])
        t = self.ty(e)
        acc = self.newcell(self.coerce(self.rv(a[2]), t), t)
        c = self.rv(a[3]) if len(a) > 3 else None
        it = self.newcell(x)

        def body():
            el = self.iter_deref(self.read(it))
            if c is None: r = self.arith('+', self.read(acc), self.read(el), t)
            elif isinstance(c, Closure): r = self.call_closure(c, [acc, el], None)
            elif isinstance(c, MetaStruct) and c.ty.name == 'std::multiplies': r = self.arith('*', self.read(acc), self.read(el), t)
            else: raise Unsupported('accumulate operation')
            if isinstance(r, LV): r = self.read(r)
            self.write(acc, self.coerce(r, t))
        self.loop(e, lambda: z3.Not(self.iter_eq(self.read(it), y)), body, lambda: self.iter_step(it, 1, False))
        return self.read(acc)

    def fn_swap(self, e, a):
        x, y = self.ev(a[0]), self.ev(a[1])
        u, v = self.read(x), self.read(y)
        self.write(x, v)
        self.write(y, u)

    def fn_make_pair(self, e, a):
        vals = [self.rv(x) for x in a]
        k = self.T.kind(self.ty(e))
        if k[0] == 'struct' and all(isinstance(x, (z3.ExprRef, Obj)) for x in vals):
            return k[1].new(*[self.store_value(t, x) for t, x in zip(k[2].values(), vals)])
        return MetaStruct(self.ty(e), {'first': vals[0], 'second': vals[1]})

    def fn_get(self, e, a):
        b = self.ev(a[0])
        t = self.ty(a[0]).noref()
        mv = self.read(b) if isinstance(b, LV) and t.isrec('std::variant') else b
        if isinstance(mv, MetaVar):
            i = self.alt_of(t, self.ty(e).noref())
            if i != mv.i: raise CxxThrow('std::bad_variant_access')
            return self.newcell(mv.v, self.ty(e).noref())
        if t.isrec('std::pair'):
            ta = e.get('ta') or (self.prog.fn.get(e['fn']) or {}).get('ta') or []
            idx = next((int(x['v']) for x in ta if 'v' in x), None)
            if idx is None: raise Unsupported('std::get by type')
            name = ('first', 'second')[idx]
            if isinstance(b, ElemLV):
                if name == 'second': return self.mapval_lv(b)
                return self.newcell(self.elem_key(b))
            if isinstance(b, (z3.ExprRef, MetaStruct)): b = self.newcell(b, t)
            v = self.read(b)
            if isinstance(v, MetaStruct): return b.ext(('f', None, name))
            k = self.T.kind(t)
            return b.ext(('f', k[1], name))
        if t.isrec('std::variant'):
            k = self.T.kind(t)
            rt = self.ty(e).noref()
            if isinstance(b, z3.ExprRef): b = self.newcell(b, t)
            for i, at in enumerate(k[2]):
                if at.s.replace('const ', '') == rt.s.replace('const ', ''):
                    if not self.branch(k[1].isalt(self.read(b), i)): raise CxxThrow('std::bad_variant_access')
                    return b.ext(('a', k[1], i))
        raise Unsupported('std::get on ' + t.s)

    def alt_of(self, t, at):
        for i, x in enumerate(t.args()):
            if x.s.replace('const ', '') == at.s.replace('const ', ''): return i
        raise Unsupported('variant alternative')

    def fn_get_if(self, e, a):
        p = self.rv(a[0])
        if not isinstance(p, PtrLV): raise Unsupported('get_if')
        t = self.ty(a[0]).noref().to
        k = self.T.kind(t)
        rt = self.ty(e).noref().to
        mv = self.read(p.lv)
        if isinstance(mv, MetaVar):
            i = self.alt_of(t, rt)
            return PtrLV(self.newcell(mv.v, rt)) if i == mv.i else NullMeta()
        for i, at in enumerate(k[2]):
            if at.s.replace('const ', '') == rt.s.replace('const ', ''):
                if self.branch(k[1].isalt(self.read(p.lv), i)): return PtrLV(p.lv.ext(('a', k[1], i)))
                return NullMeta()
        raise Unsupported('get_if')

    def fn_holds_alternative(self, e, a):
        b = self.ev(a[0])
        t = self.ty(a[0]).noref()
        k = self.T.kind(t)
        ta = (self.prog.fn.get(e['fn']) or {}).get('ta') or []
        mv = self.read(b) if isinstance(b, LV) else b
        for x in ta:
            if 't' in x and isinstance(mv, MetaVar): return z3.BoolVal(self.alt_of(t, self.prog.ty(x['t'])) == mv.i)
            if 't' in x:
                for i, at in enumerate(k[2]):
                    if at.s.replace('const ', '') == self.prog.ty(x['t']).s.replace('const ', ''): return k[1].isalt(self.read(b), i)
                break
        raise Unsupported('holds_alternative')

    def fn_visit(self, e, a):
        vis = self.ev(a[0])
        var = self.ev(a[1])
        t = self.ty(a[1]).noref()
        k = self.T.kind(t)
        if isinstance(var, MetaVar): var = self.newcell(var, t)
        mv = self.read(var) if isinstance(var, LV) else var
        if not isinstance(mv, MetaVar): mv = None
        if k[0] != 'var' and mv is None: raise Unsupported('visit')
        if isinstance(var, z3.ExprRef): var = self.newcell(var, t)
        alts = k[2] if mv is None else t.args()
        for i, at in enumerate(alts):
            if mv is not None:
                if i != mv.i: continue
                ok = True
            elif i == len(k[2]) - 1:
                self.assume(k[1].isalt(self.read(var), i))
                ok = True
            else: ok = self.branch(k[1].isalt(self.read(var), i))
            if ok:
                sub = var.ext(('a', k[1] if mv is None else None, i))
                v = self.read(vis) if isinstance(vis, LV) else vis
                if isinstance(v, Closure): return self.call_closure(v, [sub], None)
                vt = self.ty(a[0]).noref()
                for g in self.prog.d['functions']:
                    if g.get('rec') == vt.rid and g['n'] == 'operator()' and 'body' in g and len(g['ps']) == 1 and \
                            self.prog.ty(g['ps'][0]['t']).noref().s.replace('const ', '') == at.s.replace('const ', ''):
                        return self.call_fn_vals(g, vis if isinstance(vis, LV) else self.newcell(vis, vt), [sub])
                raise Unsupported('visitor without overload')

    # ------------------------------------------------------------ member functions
    def std_method(self, e, f, b, argnodes):
        rn = f.get('rn', '')
        n = f['n']
        self.assumed_std.add(rn + '::' + n)
        if rn in ITERS or (n in ('operator*', 'operator->', 'operator++', 'operator--', 'operator+', 'operator-', 'operator=', 'operator+=', 'operator==', 'operator!=') and self.isiter(b)):
            return self.m_iter(n, b, argnodes, e)
        if rn in PTRS or rn in ('std::__shared_ptr', 'std::__shared_ptr_access'): return self.m_ptr(n, b, argnodes, e, rn)
        if rn == 'std::optional': return self.m_opt(n, b, argnodes, e)
        if rn in VECS or rn == 'std::__cxx11::list':
            return self.m_vec(n, b, argnodes, e)
        if rn in MAPS: return self.m_map(n, b, argnodes, e)
        if rn == 'std::function': return self.m_function(n, b, argnodes, e)
        if rn in STRS: return self.m_str(n, b, argnodes, e)
        if rn == 'std::variant':
            if n == 'operator=':
                k = self.T.kind(self.base_ty(e))
                at = self.ty(argnodes[0]).noref()
                v = self.move_or_copy(argnodes[0])
                self.write(b, v if at.isrec('std::variant') else self.to_variant(k, at, v))
                return b
            if n == 'index':
                k = self.T.kind(self.base_ty(e))
                v = self.read(b)
                r = z3.IntVal(k[1].n - 1)
                for i in range(k[1].n - 1): r = z3.If(k[1].isalt(v, i), z3.IntVal(i), r)
                return r
        if rn == 'std::pair' and n == 'operator=':
            self.write(b, self.move_or_copy(argnodes[0]))
            return b
        if (rn == 'std::hash' or rn.endswith('hash_base')) and n == 'operator()' and len(argnodes) == 1:
            v = self.rv(argnodes[0])
            if isinstance(v, z3.ExprRef):
                r = z3.Function('hash_' + v.sort().name(), v.sort(), IntSort())(v)
                self.assume(z3.And(r >= 0, r < U64))
                return r
        if rn in ('std::uniform_real_distribution',) and n == 'operator()':
            return self.fresh_of('random', self.ty(e))
        raise Unsupported('library method %s::%s' % (rn, n))

    def isiter(self, b):
        if isinstance(b, Iter): return True
        if isinstance(b, LV):
            try: return isinstance(self.read(b), Iter)
            except Unsupported: return False
        return False

    def base_ty(self, e):
        if e['k'] == 'CXXMemberCallExpr':
            cal = e['callee']
            while cal['k'] == 'ParenExpr': cal = cal['c'][0]
            t = self.ty(cal['b']).noref()
            return t.to if cal['arrow'] and t.k == 'ptr' else t
        return self.ty(e['args'][0]).noref()

    def m_iter(self, n, b, a, e):
        it = self.read(b) if isinstance(b, LV) else b
        if isinstance(it, NullMeta) and n == 'operator=' and isinstance(b, LV):
            self.write(b, self.rv(a[0])); return b
        if not isinstance(it, Iter):
            # list iterators over objects are references
            if isinstance(it, z3.ExprRef):
                bt = self.base_ty(e)
                if n in ('operator*', 'operator->'): return self.ptr_target(it, bt.args()[0], n)
                if n == 'operator=':
                    self.write(b, self.refof(self.rv(a[0]))); return b
            raise Unsupported('iterator operation ' + n)
        if n == 'operator*': return self.iter_deref(it)
        if n == 'operator->':
            d = self.iter_deref(it)
            if isinstance(d, Obj): return d
            return PtrLV(d)
        if n in ('operator++', 'operator--'):
            return self.iter_step(b, 1 if n == 'operator++' else -1, len(a) == 1)
        if n == 'operator=':
            self.write(b, self.rv(a[0]))
            return b
        if n in ('operator+', 'operator-'):
            x = self.rv(a[0])
            if isinstance(x, Iter): return self.iter_minus(it, x)
            return self.iter_with(it, self.iter_idx(it) + x if n == 'operator+' else self.iter_idx(it) - x)
        if n == 'operator+=':
            self.write(b, self.iter_with(it, self.iter_idx(it) + self.rv(a[0])))
            return b
        if n == 'operator[]':
            return self.iter_deref(self.iter_with(it, self.iter_idx(it) + self.rv(a[0])))
        raise Unsupported('iterator ' + n)

    def ptr_target(self, ref, t, n):
        if isinstance(ref, Obj): return ref
        if t.isrec() and t.rid in self.prog.rec and self.prog.is_refcls(t.rid):
            self.check('null dereference', ref != 0, 'safety')
            return Obj(ref, t)
        self.check('null dereference', ref != 0, 'safety')
        lv = self.unbox(ref, self.unconst(t))
        return lv if n == 'operator*' else PtrLV(lv)

    def ptr_elem_ty(self, e, rn):
        t = self.base_ty(e)
        return t.args()[0]

    def m_ptr(self, n, b, a, e, rn):
        if n in ('get', 'operator bool', 'operator*', 'operator->'):
            v = self.read(b) if isinstance(b, (LV, ElemLV)) else b
            if isinstance(v, Obj): v = v.ref
            if n == 'get':
                t = self.ptr_elem_ty(e, rn)
                if t.isrec() and t.rid in self.prog.rec and self.prog.is_refcls(t.rid): return v
                if self.branch(v == 0): return NullMeta()
                return PtrLV(self.unbox(v, self.unconst(t)))
            if n == 'operator bool': return v != 0
            return self.ptr_target(v, self.ptr_elem_ty(e, rn), n)
        if n == 'operator=':
            v = self.move_or_copy(a[0])
            if isinstance(v, (NullMeta,)): v = I0
            self.write(b, self.refof(v))
            return b
        if n == 'reset':
            self.write(b, self.refof(self.rv(a[0])) if a and a[0]['k'] != 'CXXDefaultArgExpr' else I0)
            return None
        if n == 'use_count': return self.fresh_of('usecount', self.ty(e))
        raise Unsupported('smart pointer ' + n)

    def m_opt(self, n, b, a, e):
        t = self.base_ty(e)
        k = self.T.kind(t)
        if k[0] == 'meta': return self.m_metaopt(n, b, a, t)
        if k[0] != 'opt': raise Unsupported('optional of ' + t.s)
        dt = k[1]
        if isinstance(b, z3.ExprRef): b = self.newcell(b, t)
        if isinstance(b, PtrLV): b = b.lv
        if n in ('has_value', 'operator bool'): return dt.has(self.read(b))
        if n in ('operator*', 'operator->'):
            self.check('optional holds a value', dt.has(self.read(b)), 'safety')
            lv = b.ext(('o', dt))
            w = self.objwrap(lv, k[2])
            if isinstance(w, Obj): return w
            return lv if n == 'operator*' else PtrLV(lv)
        if n == 'value':
            if not self.branch(dt.has(self.read(b))): raise CxxThrow('std::bad_optional_access')
            return self.objwrap(b.ext(('o', dt)), k[2])
        if n == 'value_or':
            if self.branch(dt.has(self.read(b))): return dt.get(self.read(b))
            return self.store_value(k[2], self.rv(a[0]))
        if n == 'reset':
            self.write(b, dt.none); return None
        if n == 'emplace':
            vals = [self.ev(x) for x in a]
            v = self.build(k[2], vals, [self.ty(x) for x in a])
            self.write(b, dt.some(self.store_value(k[2], v)))
            return b.ext(('o', dt))
        if n == 'operator=':
            at = self.ty(a[0]).noref()
            if at.isrec('std::nullopt_t'): self.write(b, dt.none)
            else:
                v = self.move_or_copy(a[0])
                self.write(b, v if at.isrec('std::optional') else dt.some(self.store_value(k[2], v)))
            return b
        raise Unsupported('optional ' + n)

    def m_metaopt(self, n, b, a, t):
        if isinstance(b, PtrLV): b = b.lv
        if isinstance(b, MetaOpt): b = self.newcell(b, t)
        v = self.read(b)
        if n == 'operator=':
            self.write(b, self.meta_opt(a)); return b
        if n == 'reset':
            self.write(b, MetaOpt(False)); return None
        if not isinstance(v, MetaOpt): raise Unsupported('optional of ' + t.s)
        if n in ('has_value', 'operator bool'): return TRUE if v.has else FALSE
        if n in ('operator*', 'operator->', 'value'):
            if not v.has:
                if n == 'value': raise CxxThrow('std::bad_optional_access')
                self.check('optional holds a value', FALSE, 'safety')
                raise PathEnd()
            lv = b.ext(('o', None))
            return PtrLV(lv) if n == 'operator->' else lv
        raise Unsupported('optional ' + n)

    def m_function(self, n, b, a, e):
        v = self.read(b) if isinstance(b, LV) else b
        if n == 'operator=':
            self.write(b, self.rv(a[0])); return b
        if n == 'operator bool': return FALSE if isinstance(v, NullMeta) else TRUE
        if n == 'operator()':
            args = [self.ev(x) for x in a]
            if isinstance(v, Closure): return self.call_closure(v, args, None)
            if isinstance(v, z3.ExprRef) and v.sort() == FnS and getattr(self, 'task_call', None): return self.task_call(v, args)
            raise Unsupported('call of unknown std::function')
        raise Unsupported('function ' + n)

    def m_str(self, n, b, a, e):
        v = self.read(b) if isinstance(b, LV) else b
        if n in ('size', 'length'): return strlen(v)
        if n == 'empty': return strlen(v) == 0
        if n == 'operator=':
            self.write(b, self.rv(a[0])); return b
        raise Unsupported('string ' + n)

    # ---- vectors and lists
    def m_vec(self, n, b, a, e):
        t = self.base_ty(e)
        k = self.T.kind(t)
        if isinstance(b, PtrLV): b = b.lv
        if k[0] == 'map': return self.m_olist(n, b, a, e, k)
        if k[0] != 'vec':
            return self.m_metavec(n, b, a, e, t)
        dt = k[1]
        if isinstance(b, z3.ExprRef): b = self.newcell(b, t)
        if isinstance(b, ElemLV): raise Unsupported('vector in map element')
        if n in ('begin', 'cbegin'): return self.begin(b, k)
        if n in ('end', 'cend'): return self.begin(b, k, True)
        v = self.read(b)
        if n == 'size': return dt.len(v)
        if n == 'empty': return dt.len(v) == 0
        if n == 'reserve' or n == 'shrink_to_fit':
            for x in a: self.rv(x)
            return None
        if n == 'clear':
            self.write(b, dt.empty()); return None
        if n in ('operator[]', 'at'):
            i = self.rv(a[0])
            inr = z3.And(i >= 0, i < dt.len(v))
            if n == 'at':
                if not self.branch(inr): raise CxxThrow('std::out_of_range')
            else: self.check('index in range', inr, 'safety')
            return self.objwrap(b.ext(('i', dt, i)), k[2]) if False else b.ext(('i', dt, i))
        if n == 'front':
            self.check('front of non-empty container', dt.len(v) > 0, 'safety')
            return b.ext(('i', dt, I0))
        if n == 'back':
            self.check('back of non-empty container', dt.len(v) > 0, 'safety')
            return b.ext(('i', dt, dt.len(v) - 1))
        if n in ('push_back', 'emplace_back'):
            if n == 'push_back': x = self.move_or_copy(a[0])
            else:
                vals = [self.ev(y) for y in a]
                x = self.build(k[2], vals, [self.ty(y) for y in a]) if vals or not self.embedded(k[2]) else self.new_embedded(k[2])
            v = self.read(b)
            x = self.num(self.store_value(k[2], x), dt.es)
            if not isinstance(x, z3.ExprRef): raise Unsupported('element value')
            ln = dt.len(v)
            self.assume(ln + 1 <= MAXLEN)
            self.write(b, dt.new(ln + 1, z3.Store(dt.arr(v), ln, x)))
            return b.ext(('i', dt, ln)) if n == 'emplace_back' else None
        if n == 'pop_back':
            self.check('pop_back of non-empty container', dt.len(v) > 0, 'safety')
            ln = dt.len(v)
            self.write(b, dt.new(ln - 1, z3.Store(dt.arr(v), ln - 1, default(dt.es))))
            return None
        if n == 'resize':
            m = self.rv(a[0])
            x = self.store_value(k[2], self.rv(a[1])) if len(a) > 1 else default(dt.es)
            self.assume(m <= MAXLEN)
            ln = dt.len(v)
            if z3.is_int_value(z3.simplify(ln)) and z3.simplify(ln).as_long() == 0:
                self.write(b, self.vec_n(dt, m, x, k[2])); return None
            if self.quick(m <= ln) and self.quick(m == ln): return None
            nv = self.fresh('resized', dt.sort)
            i = z3.Int('i?n')
            arr = dt.arr(nv)
            self.assume(dt.len(nv) == m)
            self.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(0 <= i, i < m), z3.If(i < ln, z3.Select(dt.arr(v), i), x), default(dt.es)), patterns=[z3.Select(arr, i)]))
            self.write(b, nv)
            return None
        if n == 'assign' and len(a) == 2:
            x, y = self.rv(a[0]), self.rv(a[1])
            if isinstance(x, Iter): self.write(b, self.vec_range(dt, k[2], x, y))
            else: self.write(b, self.vec_n(dt, x, self.store_value(k[2], y), k[2]))
            return None
        if n == 'operator=':
            x = self.move_or_copy(a[0])
            self.write(b, self.coerce(x, t))
            return b
        if n == 'swap':
            o = self.ev(a[0])
            x = self.read(o)
            self.write(o, v); self.write(b, x)
            return None
        if n == 'erase' and len(a) == 1:
            it = self.rv(a[0])
            i = self.iter_idx(it)
            self.check('erase in range', z3.And(i >= 0, i < dt.len(v)), 'safety')
            nv = self.fresh('erased', dt.sort)
            j = z3.Int('i?n')
            arr = dt.arr(nv)
            self.assume(dt.len(nv) == dt.len(v) - 1)
            self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(j < i, z3.Select(dt.arr(v), j), z3.Select(dt.arr(v), j + 1)), patterns=[z3.Select(arr, j)]))
            self.write(b, nv)
            return self.iter_with(it, i)
        if n == 'insert' and len(a) == 2:
            it = self.rv(a[0])
            i = self.iter_idx(it)
            x = self.num(self.store_value(k[2], self.move_or_copy(a[1])), dt.es)
            nv = self.fresh('inserted', dt.sort)
            j = z3.Int('i?n')
            arr, old = dt.arr(nv), dt.arr(v)
            self.assume(dt.len(nv) == dt.len(v) + 1)
            self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(j < i, old[j], z3.If(j == i, x, old[j - 1])), patterns=[z3.Select(arr, j)]))
            self.write(b, nv)
            return self.iter_with(it, i)
        if n == 'capacity': return self.fresh_of('capacity', self.ty(e))
        raise Unsupported('vector ' + n)

    def m_metavec(self, n, b, a, e, t):
        v = self.read(b) if isinstance(b, LV) else b
        if not isinstance(v, MetaVec): raise Unsupported('container of ' + t.s)
        raise Unsupported('container of ' + t.s)

    # ---- unordered containers
    def m_map(self, n, b, a, e):
        t = self.base_ty(e)
        k = self.T.kind(t)
        if isinstance(b, PtrLV): b = b.lv
        if k[0] != 'map': raise Unsupported('container ' + t.s)
        dt = k[1]
        if isinstance(b, z3.ExprRef): b = self.newcell(b, t)
        if n in ('begin', 'cbegin'): return self.begin(b, k)
        if n in ('end', 'cend'): return self.begin(b, k, True)
        m = self.read(b)
        if n == 'size': return dt.size(m)
        if n == 'empty': return dt.size(m) == 0
        if n in ('find', 'count', 'contains'):
            kk, _ = self.mkey(dt, self.rv(a[0]))
            if n == 'contains': return dt.has(m, kk)
            if n == 'count': return z3.If(dt.has(m, kk), z3.IntVal(1), I0)
            it = Iter('map', b, dt, None, key=kk, has=dt.has(m, kk), info=k[2])
            it.oty = k[3]
            return it
        if n == 'reserve':
            for x in a: self.rv(x)
            return None
        if n == 'clear':
            self.write(b, dt.empty()); return None
        if n == 'operator=':
            v = self.move_or_copy(a[0])
            self.write(b, self.coerce(v, t))
            return b
        if n == 'operator[]':
            kk, ko = self.mkey(dt, self.move_or_copy(a[0]))
            if self.embedded(k[4]):
                if self.branch(dt.has(m, kk)): return self.objwrap(b.ext(('mv', dt, kk)), k[4])
                o = self.new_embedded(k[4], (b.root[1], b.root[2], kk) if b.root[0] == 'h' and not b.path else None)
                self.write(b, self.map_put(self.read(b), dt, kk, ko, o.ref, False)[0])
                return o
            nm, ins = self.map_put(m, dt, kk, ko, default(dt.vs), False)
            if ins: self.write(b, nm)
            return b.ext(('mv', dt, kk))
        if n == 'at':
            kk, ko = self.mkey(dt, self.rv(a[0]))
            if not self.branch(dt.has(m, kk)): raise CxxThrow('std::out_of_range')
            return b.ext(('mv', dt, kk))
        if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            if k[2] == 'set':
                if len(a) == 2 and n == 'insert':
                    x, y = self.rv(a[0]), self.rv(a[1])
                    if not (isinstance(x, Iter) and isinstance(y, Iter) and x.kind == 'map' and y.end and x.idx is not None and z3.is_int_value(x.idx) and x.idx.as_long() == 0) or x.dt is not dt or dt.smart:
                        raise Unsupported('insert range')
                    o = self.read(x.lv)
                    d = self.fresh('union', dt.get(m, 'dom').sort())
                    q = self.fresh('size', IntSort())
                    kq = z3.Const('k?i', dt.ks)
                    self.assume(z3.ForAll([kq], d[kq] == z3.Or(dt.has(m, kq), dt.has(o, kq)), patterns=[d[kq]]))
                    self.assume(z3.And(q >= dt.size(m), q >= dt.size(o), q <= dt.size(m) + dt.size(o), q <= MAXLEN))
                    self.write(b, self.map_fresh(dt, None, d, q))
                    return None
                v = self.build(k[3], [self.ev(a[0])], [self.ty(a[0])])
                kk, ko = self.mkey(dt, self.store_value(k[3], v))
                nm, ins = self.map_put(m, dt, kk, ko, None, False)
            else:
                if len(a) == 1:
                    p = self.rv(a[0])
                    pt = self.ty(a[0]).noref()
                    if isinstance(p, MetaStruct): kv, vv = p.f['first'], p.f['second']
                    else:
                        pk = self.T.kind(pt)
                        kv, vv = pk[1].get(p, 'first'), pk[1].get(p, 'second')
                else:
                    kv = self.move_or_copy(a[0])
                    vv = self.build(k[4], [self.ev(x) for x in a[1:]], [self.ty(x) for x in a[1:]])
                kk, ko = self.mkey(dt, self.store_value(k[3], kv))
                vv = self.num(self.store_value(k[4], vv), dt.vs)
                nm, ins = self.map_put(m, dt, kk, ko, vv, n == 'insert_or_assign')
            self.write(b, nm) if ins or n == 'insert_or_assign' else None
            it = Iter('map', b, dt, None, key=kk, has=TRUE, info=k[2])
            it.oty = k[3]
            return MetaStruct(None, {'first': it, 'second': TRUE if ins else FALSE})
        if n == 'erase':
            v = self.rv(a[0])
            if isinstance(v, Iter):
                kk = self.iter_key(v)
                self.check('erase of a valid iterator', dt.has(m, kk) if v.has is None else z3.And(v.has, dt.has(m, kk)), 'safety')
                self.write(b, self.map_del(m, dt, kk))
                return None
            kk, _ = self.mkey(dt, v)
            if not self.branch(dt.has(m, kk)): return I0
            self.write(b, self.map_del(m, dt, kk))
            return z3.IntVal(1)
        raise Unsupported('map ' + n)

    def is_temp(self, e):
        """result of a call by value"""
        while e.get('k') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ParenExpr') and e.get('c'): e = e['c'][0]
        return e.get('k') in ('CallExpr', 'CXXMemberCallExpr') and self.ty(e).k != 'ref' and (self.prog.fn.get(e.get('fn')) or {}).get('qn', '').split('::')[0] != 'std'

    # ---- list of objects with identity
    def m_olist(self, n, b, a, e, k):
        dt = k[1]
        if isinstance(b, z3.ExprRef): b = self.newcell(b)
        if n in ('begin', 'cbegin'): return self.begin(b, k)
        if n in ('end', 'cend'): return self.begin(b, k, True)
        m = self.read(b)
        if n == 'size': return dt.size(m)
        if n == 'empty': return dt.size(m) == 0
        if n == 'emplace_back' and not a:
            o = self.new_embedded(k[3])
            m = self.read(b)
            self.assume(z3.Not(dt.has(m, o.ref)))
            nm = self.map_put(m, dt, o.ref, o.ref, None, False)[0]
            self.assume(sel(dt.get(nm, 'seq'), dt.size(m), self) == o.ref)
            self.write(b, nm)
            return o
        if n in ('emplace_back', 'push_back') and len(a) == 1:
            src = self.rv(a[0])
            if not isinstance(src, Obj) or self.ty(a[0]).noref().name != k[3].noref().name: raise Unsupported('list of objects ' + n)
            moved = a[0].get('k') != 'DeclRefExpr'
            o = self.new_embedded(k[3])
            m = self.read(b)
            self.assume(z3.Not(dt.has(m, o.ref)))
            for fk, ft, _ in self.T.fields(k[3].noref().rid):
                self.write(LV(('h', fk, o.ref)), self.read(LV(('h', fk, src.ref))))
                if moved: self.write(LV(('h', fk, src.ref)), self.fresh_of('moved', ft))      # may be left in any state
            nm = self.map_put(m, dt, o.ref, o.ref, None, False)[0]
            self.assume(sel(dt.get(nm, 'seq'), dt.size(m), self) == o.ref)
            self.write(b, nm)
            return o
        if n == 'operator=' and len(a) == 1:
            v = self.rv(a[0])
            if isinstance(v, z3.ExprRef) and v.sort() == dt.sort and self.is_temp(a[0]):
                self.write(b, v)
                return b
            raise Unsupported('list of objects operator=')
        if n == 'erase' and len(a) == 1:
            it = self.stable(self.rv(a[0]))
            if not isinstance(it, Iter) or it.key is None: raise Unsupported('erase of the end')
            self.check('erase of a valid iterator', z3.And(it.has, dt.has(m, it.key)), 'safety')
            self.write(b, self.map_del(m, dt, it.key))
            return None
        raise Unsupported('list of objects ' + n)


class Recorder:
    def __init__(self):
        self.cells, self.heap, self.alloc = set(), {}, False
