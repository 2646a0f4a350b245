"""Loops: invariants are inferred (closed forms of counters, fills, folds, generalised path conditions, library
templates offered by the contracts), pruned to an inductive set, and then discharged as obligations like any other."""
import z3, time, os
from z3 import *
from sorts import *
from interp import *
from stdmodel import StdModel, Recorder

GLOB = [0]
DROP = os.environ.get('VC_DROP')    # debugging: report candidates that are dropped


def gname(base):
    GLOB[0] += 1
    return '%s@%d' % (base, GLOB[0])


def has_var(e, ids):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in ids: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False


def pick_patterns(vs, body):
    """terms usable as triggers: uninterpreted applications / selects having one of the bound vars as direct argument"""
    ids = {v.get_id() for v in vs}
    best = []
    seen = set()
    st = [body]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            k = x.decl().kind()
            if x.num_args() > 0 and k in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                ch = x.children()
                if all(any(c.get_id() == i for c in ch) for i in ids) and not (k == z3.Z3_OP_SELECT and z3.is_app_of(ch[0], z3.Z3_OP_CONST_ARRAY)):
                    if not contains_ite(x): best.append(x)
            st.extend(x.children())
    res = []
    for b in best:
        if not any(b.eq(r) for r in res): res.append(b)
    return res[:4]


def contains_ite(x):
    st, seen = [x], set()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y):
            if y.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_STORE): return True
            st.extend(y.children())
    return False


def mkforall(vs, body):
    p = pick_patterns(vs, body)
    return z3.ForAll(vs, body, patterns=p) if p else z3.ForAll(vs, body)


class Leaf:
    """a scalar/array component of a modified location"""

    def __init__(self, base, path, sort):
        self.base, self.path, self.sort = base, path, sort
        self.sym = None         # havoc symbol, or closed form in n
        self.init = None
        self.counter = None     # step
        self.name = ''

    def __repr__(self): return 'Leaf(%s,%s)' % (self.base[:2], [p[-1] for p in self.path])


class LoopInfo:
    def __init__(self):
        self.cells, self.heap, self.alloc = set(), {}, False
        self.leaves = []
        self.n = None
        self.invs = []
        self.defs = []          # definitional axioms of fold arrays
        self.whole = {}         # fkey -> (fresh array, facts)
        self.nextref = None


class VariantChanges(Unsupported): pass


class Loops(StdModel):
    MAXPASS = 8

    def dt_of(self, s):
        if s.kind() != z3.Z3_DATATYPE_SORT: return None
        c = getattr(self, '_dtc', None)
        if c is None: c = self._dtc = {}
        k = s.name()
        if k in c: return c[k]
        for d in list(VecDT.cache.values()) + list(MapDT.cache.values()) + list(self.T.structs.values()) + list(self.T.abstract.values()):
            if d.sort == s:
                c[k] = d
                return d
        return None

    # ---- components
    def leaves_of(self, v, path=()):
        if isinstance(v, z3.ExprRef):
            d = self.dt_of(v.sort())
            if d is not None:
                res = []
                for n in d.names: res += self.leaves_of(d.get(v, n), path + (('dt', d, n),)) if not isinstance(d, (VecDT, MapDT)) else [(path + (('dt', d, n),), d.get(v, n))]
                return res
            # variant: when the alternative is known, only its content is considered (getleaf checks that it does not change)
            for d in VarDT.cache.values() if self._split else ():
                if d.sort == v.sort():
                    for i in range(d.n):
                        if self.quick(d.isalt(v, i)): return self.leaves_of(d.get(v, i), path + (('alt', d, i),))
            for d in OptDT.cache.values() if self._split else ():
                if d.sort == v.sort() and self.quick(d.has(v)): return self.leaves_of(d.get(v), path + (('opt', d),))
            return [(path, v)]
        if isinstance(v, Iter):
            if v.key is not None: return [(path + (('iterkey',),), v)]
            if v.end: return [(path + (('iterkey',),), v)]
            return [(path + (('iter', 'idx'),), v.idx)]
        if isinstance(v, MetaStruct):
            res = []
            for n, x in v.f.items(): res += self.leaves_of(x, path + (('ms', n),))
            return res
        return [(path, v)]

    def rebuild(self, v, path, x):
        if not path: return x
        p = path[0]
        if p[0] == 'dt': return p[1].set(v, p[2], self.rebuild(p[1].get(v, p[2]), path[1:], x))
        if p[0] == 'iter': return self.iter_with(v, x)
        if p[0] == 'alt': return p[1].mk(p[2], self.rebuild(p[1].get(v, p[2]), path[1:], x))
        if p[0] == 'opt': return p[1].some(self.rebuild(p[1].get(v), path[1:], x))
        if p[0] == 'ms':
            f = dict(v.f)
            f[p[1]] = self.rebuild(f[p[1]], path[1:], x)
            return MetaStruct(v.ty, f)
        raise Unsupported('rebuild')

    def getleaf(self, v, path):
        for p in path:
            if p[0] == 'dt': v = p[1].get(v, p[2])
            elif p[0] == 'iter':
                if not isinstance(v, Iter): raise Unsupported('iterator changes kind in loop')
                v = self.iter_idx(v)
            elif p[0] == 'ms': v = v.f[p[1]]
            elif p[0] == 'alt':
                if not self.quick(p[1].isalt(v, p[2])): raise VariantChanges('alternative of a variant changes in a loop')
                v = p[1].get(v, p[2])
            elif p[0] == 'opt':
                if not self.quick(p[1].has(v)): raise VariantChanges('optional changes in a loop')
                v = p[1].get(v)
            elif p[0] == 'iterkey': return v
        return v

    def base_val(self, base):
        if base[0] == 'c': return self.st.cells[base[1]]
        if base[0] == 'h':
            s = self.fsorts[base[1]]
            return sel(self.harr(base[1], s), base[2], self)
        if base[0] == 'H': return self.harr(base[1], self.fsorts[base[1]])

    def set_base(self, base, v):
        if base[0] == 'c': self.st.cells[base[1]] = v
        elif base[0] == 'h':
            self.st.heap[base[1]] = z3.Store(self.harr(base[1], self.fsorts[base[1]]), base[2], v)
        elif base[0] == 'H': self.st.heap[base[1]] = v

    def base_ty(self_, *a):
        if len(a) == 1 and isinstance(a[0], dict): return StdModel.base_ty(self_, a[0])
        base = a[0]
        if base[0] == 'c': return self_.st.ctype.get(base[1])
        if base[0] == 'h': return self_.ftypes.get(base[1])
        return None

    # ---- havoc
    def sym_ok(self, entry, g0, extra=()):
        """predicate: the term only has symbols that existed at loop entry (or in extra)"""
        ex = {x.get_id() for x in extra}

        def ok(t):
            for nm, c in consts_of(t).items():
                if c.get_id() in ex: continue
                if '@' in nm and int(nm.rsplit('@', 1)[1]) > g0: return False
                if serial(nm) > entry: return False
            return True
        return ok

    def make_havoc(self, info, entry_state):
        """creates the leaves and symbols for the current mod-set"""
        info.leaves = []
        info.whole = {}
        info.n = z3.Int(gname('n'))
        for c in sorted(info.cells):
            v = entry_state.cells[c]
            if isinstance(v, Uninit):
                s = self.T.sort(v.ty)
                if s is None: raise Unsupported('loop initialises ' + v.ty.s)
                v = self.read_root(('c', c))
                entry_state.cells[c] = v
            for path, t in self.leaves_of(v):
                l = Leaf(('c', c), path, t.sort() if isinstance(t, z3.ExprRef) else None)
                l.init = t
                l.name = 'c%d' % c
                info.leaves.append(l)
        for fkey in sorted(info.heap):
            kind, refs = info.heap[fkey]
            if kind == 'refs':
                for r in refs:
                    v = self.base_val(('h', fkey, r))
                    for path, t in self.leaves_of(v):
                        l = Leaf(('h', fkey, r), path, t.sort())
                        l.init = t
                        l.name = fkey.split('::')[-1]
                        info.leaves.append(l)
            else:
                a = self.harr(fkey, self.fsorts[fkey])
                l = Leaf(('H', fkey), (), a.sort())
                l.init = a
                l.name = fkey
                info.leaves.append(l)
        for l in info.leaves:
            if l.sort is not None: l.sym = z3.Const(gname('L.' + l.name), l.sort)
        if info.alloc: info.nextref = z3.Int(gname('nextref'))

    def enter_havoc(self, info, entry_nextref):
        """put the current state into an arbitrary iteration (no invariants yet)"""
        self.assume(info.n >= 0)
        if info.alloc:
            self.assume(info.nextref >= entry_nextref)
            self.st.nextref = info.nextref
        done = {}
        for l in info.leaves:
            if l.sym is None: continue
            bk = l.base[:2] + ((l.base[2].get_id(),) if len(l.base) > 2 else ())
            done.setdefault(bk, (l.base, []))[1].append(l)
        for bk, (base, ls) in done.items():
            v = self.base_val(base)
            for l in ls: v = self.rebuild(v, l.path, l.sym)
            self.set_base(base, v)
            if base[0] == 'H':
                kind, refs = info.heap[base[1]]
                r = z3.Int('r?h')
                old = [l.init for l in ls][0]
                cond = [r != x for x in refs]
                if kind == 'fresh': self.assume(z3.ForAll([r], z3.Implies(and_(cond + [r < entry_nextref]), v[r] == old[r]), patterns=[v[r]]))
            else:
                ty = self.base_ty(base)
                if ty is not None and isinstance(v, z3.ExprRef): self.assume_all(self.T.wf(ty, v, self.st.nextref))
                elif isinstance(v, z3.ExprRef):
                    d = self.dt_of(v.sort())
                    if isinstance(d, (VecDT, MapDT)): self.assume(d.wf(v))

    def loop(self, node, cond, body, inc):
        key = (id(node), tuple(self.prefix[:self.pos]), self.st.cnt, self.ctxid(), len(self.frames))
        info = self.loopcache.get(key)
        if info is None:
            info = self.infer_loop(node, cond, body, inc)
            self.loopcache[key] = info
        entry_nextref = self.st.nextref
        self.assume_all(info.defs)
        ini = [(l.sym0, l.init) for l in info.leaves if getattr(l, 'sym0', None) is not None]
        for nm, f in info.invs:
            self.check('loop invariant holds initially (%s)' % nm, self.inst(info, f, None, 0), 'inv')
        self.enter_havoc(info, entry_nextref)
        for nm, f in info.invs: self.assume(f)
        lk = (self.frames[-1].fn.get('key') if self.frames[-1].fn else '', node.get('l'))
        nb = len(self.bconds)
        if self.branch(cond()):
            try:
                try: body()
                except ContinueX: pass
            except BreakX:
                return
            if inc: inc()
            self.line = node.get('l', self.line)
            self.loops_done = getattr(self, 'loops_done', set())
            self.loops_done.add(lk)
            for nm, f in info.invs:
                self.check('loop invariant preserved (%s)' % nm, self.inst(info, f, 'post', 1), 'inv')
            raise PathEnd()
        self.solve_exit(info, self.bconds[nb:])

    def ctxid(self): return getattr(self, '_ctx', 0)

    def inst(self, info, f, when, dn):
        """invariant formula at loop entry (when None) or at the end of the iteration"""
        sub = []
        for l in info.leaves:
            s0 = getattr(l, 'sym0', None)
            if s0 is None: continue
            v = l.init if when is None else self.getleaf(self.base_val(l.base), l.path)
            if not isinstance(v, z3.ExprRef): raise Unsupported('loop-carried value changes kind')
            sub.append((s0, v))
        sub.append((info.n, I0 if when is None else info.n + 1))
        if info.nextref is not None: sub.append((info.nextref, self.st.nextref))
        return z3.substitute(f, *sub)

    def solve_exit(self, info, conds):
        """after the guard failed: if the iteration number is determined, rewrite the state with it"""
        n = info.n
        for c in conds[::-1]:
            for sol in solve_for(c, n):
                if self.quick(n == sol, 600):
                    for l in info.leaves:
                        if l.sym is None: continue
                        if not has_var(l.sym, {n.get_id()}): continue
                    for c_ in list(self.st.cells):
                        if c_ in info.cells:
                            self.st.cells[c_] = self.substval(self.st.cells[c_], n, sol)
                    for l in info.leaves:
                        if l.base[0] == 'h' and l.counter is not None:
                            v = self.base_val(l.base)
                            self.set_base(l.base, z3.substitute(v, (n, sol)))
                    # definitional closed forms
                    for nm, f in info.invs:
                        if nm.startswith('fold'):
                            x, t = f.arg(0), f.arg(1)
                            t = z3.substitute(t, (n, sol))
                            for l in info.leaves:
                                if l.sym is not None and l.sym.eq(x):
                                    self.assume(x == t)
                                    if l.base[0] == 'c': self.st.cells[l.base[1]] = self.rebuild(self.st.cells[l.base[1]], l.path, t)
                    return
        return

    def substval(self, v, n, sol):
        if isinstance(v, z3.ExprRef): return z3.substitute(v, (n, sol))
        if isinstance(v, Iter) and v.idx is not None: return self.iter_with(v, z3.simplify(z3.substitute(v.idx, (n, sol))) if z3.is_expr(v.idx) else v.idx)
        if isinstance(v, MetaStruct): return MetaStruct(v.ty, {k: self.substval(x, n, sol) for k, x in v.f.items()})
        return v

    # ---- inference
    _split = True

    def infer_loop(self, node, cond, body, inc):
        keep, st = self._split, self.st
        nd = len(self.frames), len(self.writes)
        try:
            self._split = True
            try: return self.infer_loop1(node, cond, body, inc)
            except VariantChanges:
                del self.frames[nd[0]:]
                self.st = st
                self._split = False
                return self.infer_loop1(node, cond, body, inc)
        finally: self._split = keep

    def infer_loop1(self, node, cond, body, inc):
        info = LoopInfo()
        entry = self.st
        ecnt = entry.cnt
        g0 = GLOB[0]
        entry_nextref = entry.nextref
        trans = []
        nrec = len(self.writes)
        saved_writes = self.writes
        t0 = time.time()

        def iteration(assum):
            def run():
                for x in assum(): self.assume(x)
                if not self.branch(cond()): raise PathEnd()
                try: body()
                except ContinueX: pass
                if inc: inc()
            return run

        def collect(kind, v):
            if kind == 'ok':
                vals = []
                for l in info.leaves: vals.append(self.getleaf(self.base_val(l.base), l.path) if l.sym is not None else None)
                for l, x in zip(info.leaves, vals):
                    if l.sym is not None and not isinstance(x, z3.ExprRef): raise Unsupported('loop-carried value changes kind')
                trans.append((list(self.bconds), vals))

        def passes(assum):
            nonlocal trans
            del trans[:]
            rec = Recorder()
            self.writes = [rec]
            self.infer += 1
            keep = self.st
            self.st = entry.copy()
            ctx = self.ctxid()
            self._ctx = gname('ctx')
            try:
                so = self.solver
                self.solver = NullSolver()
                try: self.enter_havoc(info, entry_nextref) if info.n is not None else None
                finally: self.solver = so
                self.explore(iteration(assum), collect)
            finally:
                self.infer -= 1
                self.st = keep
                self.writes = saved_writes
                self._ctx = ctx
            return rec
        # 1. what does the loop modify
        info.n = None
        for _ in range(self.MAXPASS):
            rec = self.quiet(lambda: passes(lambda: []))
            grew = False
            for c in rec.cells:
                if c in entry.cells and c not in info.cells: info.cells.add(c); grew = True
            if rec.alloc and not info.alloc: info.alloc = True; grew = True
            ok = self.sym_ok(ecnt, g0)
            for fk, refs in rec.heap.items():
                kind, old = info.heap.get(fk, ('refs', []))
                nk, new = kind, list(old)
                for r in refs:
                    if r is None: nk = 'all'
                    elif ok(r) and not (info.alloc and self.mentions_nextref(r, entry_nextref)):
                        if not any(r.eq(x) for x in new): new.append(r)
                    elif self.is_fresh_ref(r, entry_nextref, info):
                        if nk == 'refs': nk = 'fresh'
                    else: nk = 'all'
                if nk == 'refs' and len(new) > 1: nk = 'fresh'
                if nk != kind or len(new) != len(old) or fk not in info.heap:
                    info.heap[fk] = (nk, new); grew = True
            if not grew and info.n is not None: break
            self.make_havoc(info, entry)
        else: raise Unsupported('modified locations of the loop')
        # 2. counters
        for l in info.leaves:
            l.sym0 = None
            l.counter = None
        for i, l in enumerate(info.leaves):
            if l.sort is None or l.sort.kind() != z3.Z3_INT_SORT or not trans: continue
            steps = set()
            for _, vals in trans:
                d = z3.simplify(unwrap(vals[i]) - l.sym)
                steps.add(d.as_long() if z3.is_int_value(d) else None)
            if len(steps) == 1 and None not in steps:
                l.counter = steps.pop()
        for i, l in enumerate(info.leaves):
            l.sym0 = l.sym
            if l.counter is not None: l.close = l.init + l.counter * info.n if l.counter else l.init
            elif l.sort is not None and trans and all(vals[i].eq(l.sym) for _, vals in trans): l.counter, l.close = 0, l.init
        cands = []
        for l in info.leaves:
            if l.counter is not None: cands.append(('counter ' + l.name, l.sym0 == l.close, True))
        # 3. second pass in closed form
        base = lambda: [f for _, f, m in cands if m]
        for l in info.leaves:
            if l.counter: l.sym = z3.simplify(l.close)
            elif l.counter == 0: l.sym = l.close
        # (symbol of counters is replaced by its closed form; obligations keep sym0)
        self.quiet(lambda: passes(lambda: []))
        trans2 = [(list(b), list(v)) for b, v in trans]
        okn = self.sym_ok(ecnt, g0, [info.n])
        cands += self.bound_cands(info, trans2, okn)
        cands += self.fill_cands(info, trans2, okn)
        cands += self.fold_cands(info, trans2, okn)
        cands += self.path_cands(info, trans2, okn)
        for h in self.hints:
            try: cands += [(nm, f, None) for nm, f in h(self, info, entry, trans2)]
            except Unsupported: pass
        seen = {}
        for nm, f, m in cands:
            f = f if not z3.is_true(z3.simplify(f)) or m else None
            if f is None: continue
            if f.get_id() not in seen: seen[f.get_id()] = (nm, f, m)
        cands = list(seen.values())
        # 4. Houdini
        cands = self.quiet(lambda: self.houdini(info, entry, entry_nextref, cands, cond, body, inc))
        info.invs = [(nm, f) for nm, f, m in cands]
        self.log('   loop line', node.get('l'), 'leaves', len(info.leaves), 'invs', [nm for nm, _ in info.invs], '%.1fs' % (time.time() - t0))
        return info

    def quiet(self, fn):
        self.infer += 1
        try: return fn()
        finally: self.infer -= 1

    def mentions_nextref(self, r, nr):
        return has_var(r, {nr.get_id()})

    def is_fresh_ref(self, r, entry_nextref, info):
        cs = consts_of(r)
        if info.nextref is not None and info.nextref.get_id() in {c.get_id() for c in cs.values()} and z3.is_int(r):
            d = z3.simplify(r - info.nextref)
            return z3.is_int_value(d) and d.as_long() >= 0
        d = z3.simplify(r - entry_nextref)
        return z3.is_int_value(d) and d.as_long() >= 0

    def bound_cands(self, info, trans, okn):
        """c*n+i0 against the other side of the guards"""
        res = []
        terms = []
        for l in info.leaves:
            if l.counter is not None and l.counter != 0: terms.append(l.sym)
        if not terms: terms = []
        terms.append(info.n)
        others = []
        for b, _ in trans:
            for c in b[:4]:
                for lhs, rhs in compars(c):
                    for t in (lhs, rhs):
                        if z3.is_int(t) and okn(t) and not has_var(t, {info.n.get_id()}) and not any(t.eq(o) for o in others): others.append(t)
        for l in info.leaves:
            if l.counter is not None and l.counter < 0: others.append(I0)
        # lengths of containers involved
        for b, _ in trans:
            for c in b:
                for t in int_accessors(c):
                    if okn(t) and not has_var(t, {info.n.get_id()}) and not any(t.eq(o) for o in others): others.append(t)
        for t in terms:
            for o in others[:14]:
                res.append(('bound', t <= o, False))
                res.append(('bound', t >= o, False))
        for b, _ in trans:
            for c in b:
                if okn(c) and has_var(c, {info.n.get_id()}):
                    res.append(('previous guard', z3.Implies(info.n >= 1, z3.substitute(c, (info.n, info.n - 1))), False))
        return res

    def relevant(self, info, conds, okn):
        return [c for c in conds]

    def merged(self, info, trans, i, okn, absorb):
        """single expression for the new value of leaf i over all continuing paths; absorb(path value)->e or None"""
        es = []
        for b, vals in trans:
            e = absorb(vals[i])
            if e is None: return None
            es.append((b, e))
        if all(e.eq(es[0][1]) for _, e in es): return es[0][1]
        r = es[-1][1]
        for b, e in es[:-1][::-1]:
            bb = [c for c in b if okn(c)]
            if len(bb) != len(b):
                # conditions that are common to all paths can be dropped
                bad = [c for c in b if not okn(c)]
                if any(not all(any(c.eq(d) for d in ob) for ob, _ in es) for c in bad): return None
            r = z3.If(and_(bb), e, r)
        return r

    def fill_cands(self, info, trans, okn):
        res = []
        n = info.n
        for i, l in enumerate(info.leaves):
            if l.sort is None or l.sort.kind() != z3.Z3_ARRAY_SORT or not trans: continue
            idxs = []
            for _, vals in trans:
                v = vals[i]
                while z3.is_app_of(v, z3.Z3_OP_STORE):
                    if not any(v.arg(1).eq(x) for x in idxs): idxs.append(v.arg(1))
                    v = v.arg(0)
                if not v.eq(l.sym): idxs = None; break
            if idxs is None: continue
            if not idxs:
                res.append(('unchanged', l.sym == l.init, False)); continue
            if len(idxs) > 1: continue
            idx = idxs[0]
            if not okn(idx): continue

            def absorb(v):
                if z3.is_app_of(v, z3.Z3_OP_STORE): e = v.arg(2)
                else: e = z3.Select(l.sym, idx)
                e = z3.substitute(e, (z3.Select(l.sym, idx), z3.Select(l.init, idx)))
                return e if okn(e) else None
            e = self.merged(info, trans, i, okn, absorb)
            q = z3.Const('q?fill', l.sort.domain())
            a = z3.Select(l.sym, q)
            inv = invert(self, idx, q, n)
            if inv is not None:
                guard, k = inv
                rng = z3.And(guard, 0 <= k, k < n)
                if e is not None:
                    ek = z3.substitute(e, (n, k))
                    res.append(('fill', z3.ForAll([q], z3.Implies(rng, a == ek), patterns=[a]), False))
                res.append(('rest unchanged', z3.ForAll([q], z3.Implies(z3.Not(rng), a == z3.Select(l.init, q)), patterns=[a]), False))
                if z3.is_int(q) and e is not None: 
                    other = pick_patterns([q], z3.substitute(e, (n, k)))
                    if other and not any(x.eq(a) for x in other[:1]):
                        res.append(('fill (other trigger)', z3.ForAll([q], z3.Implies(rng, a == ek), patterns=other[:1]), False))
            elif not has_var(idx, {n.get_id()}):
                res.append(('rest unchanged', z3.ForAll([q], z3.Implies(q != idx, a == z3.Select(l.init, q)), patterns=[a]), False))
        return res

    def fold_cands(self, info, trans, okn):
        res = []
        n = info.n
        S = self.spec
        for i, l in enumerate(info.leaves):
            if l.sort is None or l.counter is not None or not trans: continue
            kd = l.sort.kind()
            if kd == z3.Z3_BOOL_SORT: res.append(('unchanged', l.sym == l.init, False)); continue
            if all(vals[i].eq(l.sym) for _, vals in trans):
                res.append(('unchanged', l.sym == l.init, False)); continue
            if kd not in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT): continue
            real = kd == z3.Z3_REAL_SORT
            for op in getattr(self.verifying, 'folds', ('sum', 'prod', 'max')):
                def absorb(v, op=op):
                    e = factor_out(unwrap(v), l.sym, op)
                    return e if e is not None and okn(e) else None
                e = self.merged(info, trans, i, okn, absorb)
                if e is None and op == 'max' and len(trans) > 1:      # if (l < e) l = e;
                    es = [unwrap(vals[i]) for _, vals in trans if not vals[i].eq(l.sym)]
                    if len(es) < len(trans) and all(x.eq(es[0]) for x in es) and okn(es[0]): e = es[0]
                if e is None: continue
                if real and not z3.is_real(e): e = z3.ToReal(e)
                d = z3.Const(gname('fold'), z3.ArraySort(IntSort(), l.sort))
                q = z3.Int('q?d')
                info.defs.append(z3.ForAll([q], d[q] == z3.substitute(e, (n, q)), patterns=[d[q]]))
                F = S.fold(op, real)
                if op == 'sum': t = F(d, n) if is_num(l.init, 0) else l.init + F(d, n)
                elif op == 'prod': t = F(d, n) if is_num(l.init, 1) else l.init * F(d, n)
                else: t = F(l.init, d, n)
                ini = l.init if op == 'max' else None
                info.defs.append(S.fold_base(op, real, d, ini))
                info.defs.append(z3.Implies(n >= 0, S.fold_step(op, real, d, n, e, ini)))
                res.append(('fold ' + op, l.sym == t, False))
                break
        return res

    def path_cands(self, info, trans, okn):
        n = info.n
        if not trans: return []
        q = z3.Int('q?p')
        res = []
        ds = []
        allok = True
        for b, _ in trans:
            bb = [c for c in b if okn(c) and has_var(c, {n.get_id()})]
            ds.append(and_(bb))
        # counters that start elsewhere: the same, in terms of their values
        offs = []
        for l in info.leaves:
            if l.counter == 1 and z3.is_int_value(l.init) and l.init.as_long() != 0 and l.init.as_long() not in offs: offs.append(l.init.as_long())

        def earlier(c):
            res.append(('earlier iterations', mkforall([q], z3.Implies(z3.And(0 <= q, q < n), z3.substitute(c, (n, q)))), False))
            for o in offs:
                res.append(('earlier iterations', mkforall([q], z3.Implies(z3.And(o <= q, q < o + n), z3.simplify(z3.substitute(c, (n, q - o))))), False))
        if len(trans) == 1:
            for c in trans[0][0]:
                if okn(c) and has_var(c, {n.get_id()}): earlier(c)
        elif not any(z3.is_true(x) for x in ds):
            earlier(z3.Or(*ds))
            # common conjuncts
            for c in trans[0][0]:
                if okn(c) and has_var(c, {n.get_id()}) and all(any(c.eq(d) for d in b) for b, _ in trans[1:]): earlier(c)
        return res

    def houdini(self, info, entry, entry_nextref, cands, cond, body, inc):
        # initially true
        keep = []
        self.st = entry
        for c in cands:
            f = self.inst(info, c[1], None, 0)
            if c[2]:
                keep.append(c); continue
            self.solver.push()
            for d in info.defs: self.solver.add(d)
            ok = self.quick(f, 400)
            self.solver.pop()
            if ok: keep.append(c)
            elif DROP and DROP in c[0]: self.log('   DROP initially', c[0], f)
        cands = keep
        for rnd in range(12):
            bad = set()
            saved = self.writes
            self.writes = []

            def run():
                if not self.branch(cond()): raise PathEnd()
                try: body()
                except ContinueX: pass
                if inc: inc()

            def on(kind, v):
                if kind != 'ok': return
                for j, c in enumerate(cands):
                    if j in bad: continue
                    f = self.inst(info, c[1], 'post', 1)
                    if not self.quick(f, 1200) and not (c[2] is None and getattr(self.verifying, "strong", True) and self.strong(f, 5000)):
                        if c[2]:
                            raise Unsupported('counter form not preserved')
                        bad.add(j)
                        if DROP and DROP in c[0]:
                            self.log('   DROP round', rnd, c[0], self.path_desc())
                            sv = self.new_solver(self.st.pc)
                            sv.add(z3.Not(f))
                            open('/tmp/drop.%d.%s.smt2' % (self.line, self.path_desc()[:-1]), 'w').write(sv.to_smt2())
            ctx = self.ctxid()
            self._ctx = gname('ctx')
            st0 = self.st
            self.st = entry.copy()
            try:
                pc0 = len(self.st.pc)
                # explore() builds its own solver from st.pc
                so = self.solver
                self.solver = NullSolver()
                self.st.pc = list(self.st.pc)
                try:
                    for d in info.defs: self.assume(d)
                    self.enter_havoc(info, entry_nextref)
                    for c in cands: self.assume(c[1])
                finally: self.solver = so
                self.explore(run, on)
            finally:
                self.writes = saved
                self._ctx = ctx
                self.st = st0
            if not bad: return cands
            cands = [c for j, c in enumerate(cands) if j not in bad]
        return cands


class NullSolver:
    def add(self, *a): pass


def is_num(e, k):
    e = z3.simplify(e)
    return (z3.is_int_value(e) and e.as_long() == k) or (z3.is_rational_value(e) and e.as_fraction() == k)


def unwrap(v):
    """drop the modular wrap-around alternative of unsigned arithmetic (re-proved later)"""
    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int(v):
        c = v.arg(0)
        if str(U64) in c.sexpr() or str(U64) in v.arg(2).sexpr(): return unwrap(v.arg(1))
    if z3.is_app_of(v, z3.Z3_OP_MOD) and z3.is_int_value(v.arg(1)) and v.arg(1).as_long() in (U64, 2 ** 32): return unwrap(v.arg(0))
    return v


def compars(c):
    if z3.is_not(c): return compars(c.arg(0))
    if z3.is_and(c) or z3.is_or(c):
        r = []
        for x in c.children(): r += compars(x)
        return r
    if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ): return [(c.arg(0), c.arg(1))]
    return []


def int_accessors(e):
    res, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        if z3.is_app(x):
            if z3.is_int(x) and x.decl().kind() == z3.Z3_OP_DT_ACCESSOR and x.decl().name().split('.')[-1] in ('len', 'size'): res.append(x)
            st.extend(x.children())
    return res[:6]


def linear_in(t, n):
    """t = c*n + rest -> (c, rest) with integer c, or None"""
    z = z3.substitute(t, (n, I0))
    one = z3.substitute(t, (n, z3.IntVal(1)))
    two = z3.substitute(t, (n, z3.IntVal(2)))
    c = z3.simplify(one - z)
    c2 = z3.simplify(two - one)
    if z3.is_int_value(c) and z3.is_int_value(c2) and c.as_long() == c2.as_long() and not has_var(z3.simplify(t - c * n), {n.get_id()}): return c.as_long(), z
    return None


def solve_for(c, n):
    res = []
    for lhs, rhs in compars(c):
        if not z3.is_int(lhs): continue
        d = lhs - rhs
        r = linear_in(d, n)
        if r and r[0] in (1, -1):
            base = z3.simplify(-r[1]) if r[0] == 1 else z3.simplify(r[1])
            res += [base, z3.simplify(base + 1), z3.simplify(base - 1)]
    return res


def factor_out(v, x, op):
    """v = x op e -> e"""
    if v.eq(x): return (z3.RealVal(0) if z3.is_real(x) else I0) if op == 'sum' else ((z3.RealVal(1) if z3.is_real(x) else z3.IntVal(1)) if op == 'prod' else x if False else None)
    if op == 'sum':
        if z3.is_app_of(v, z3.Z3_OP_ADD):
            ch = v.children()
            m = [c for c in ch if c.eq(x)]
            o = [c for c in ch if not c.eq(x)]
            if len(m) == 1 and not any(has_var(c, {x.get_id()}) for c in o): return z3.Sum(*o) if len(o) > 1 else o[0]
        if z3.is_app_of(v, z3.Z3_OP_SUB) and v.num_args() == 2 and v.arg(0).eq(x) and not has_var(v.arg(1), {x.get_id()}): return -v.arg(1)
    if op == 'prod':
        if z3.is_app_of(v, z3.Z3_OP_MUL):
            ch = v.children()
            m = [c for c in ch if c.eq(x)]
            o = [c for c in ch if not c.eq(x)]
            if len(m) == 1 and not any(has_var(c, {x.get_id()}) for c in o): return z3.Product(*o) if len(o) > 1 else o[0]
    if op == 'max' and z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.arg(0), v.arg(1), v.arg(2)
        for e, y in ((a, b), (b, a)):
            if y.eq(x) and not has_var(e, {x.get_id()}): return e
    return None


def invert(it, idx, q, n):
    """idx(n) == q  <=>  guard /\\ n == k(q)"""
    if z3.is_int(idx):
        r = linear_in(idx, n)
        if r and r[0] in (1, -1):
            return TRUE, z3.simplify(q - r[1] if r[0] == 1 else r[1] - q)
    if not z3.is_app(idx): return None
    S = it.spec
    if S is not None:
        if idx.decl().eq(S.unrank):
            r = invert(it, idx.arg(1), S.rank(idx.arg(0), q), n)
            if r and not has_var(idx.arg(0), {n.get_id()}): return z3.And(S.inDom(idx.arg(0), q), S.canon(q), r[0]), r[1]
        if idx.decl().eq(S.rank):
            r = invert(it, idx.arg(1), S.unrank(idx.arg(0), q), n)
            if r and not has_var(idx.arg(0), {n.get_id()}): return z3.And(0 <= q, q < S.tot(idx.arg(0)), r[0]), r[1]
    if z3.is_app_of(idx, z3.Z3_OP_SELECT):
        a = idx.arg(0)
        # seq of a map: accessor application whose datatype has pos
        for d in MapDT.cache.values():
            for m, nm in map_of(a, d):
                if nm == 'seq':
                    pos, dom = m['pos'], m['dom']
                    r = invert(it, idx.arg(1), z3.Select(pos, q), n)
                    if r: return z3.And(z3.Select(dom, q), r[0]), r[1]
    return None


from stdmodel import SEQREG


def map_of(a, d):
    if a.get_id() in SEQREG and SEQREG[a.get_id()][0].eq(a):
        yield {'pos': SEQREG[a.get_id()][1], 'dom': SEQREG[a.get_id()][2]}, 'seq'
    if z3.is_app(a) and a.num_args() == 1 and a.decl().eq(d.acc['seq']):
        m = a.arg(0)
        yield {'pos': d.get(m, 'pos'), 'dom': d.get(m, 'dom')}, 'seq'
