"""Verification driver: a function is checked against its contract (pre, model/post, frame); calls use contracts."""
import z3, time
from z3 import *
from sorts import *
from interp import *
from loops import Loops, gname, mkforall
from stdmodel import Recorder, NAME_F, SIZE_F


class Contract:
    virtual = False
    keys = ()
    hints = ()
    checked = True       # verified by the tool (False: assumed)
    mod = 'apply'        # 'apply': used at call sites, 'none': call sites inline the body

    def sig(self, prog, f): return True

    def pre(self, it, this, args): return []

    def model(self, it, this, args): raise NotImplementedError

    def posts(self, it, this, args, ret, old): return []

    def on_throw(self, it, this, args, old): return None

    def compare(self): return True


class Registry:
    def __init__(self, prog, contracts):
        self.prog = prog
        self.by = {}
        for c in contracts:
            for k in c.keys: self.by.setdefault(k, []).append(c)
        self.cache = {}

    def get(self, f, it):
        if f is None: return None
        r = self.lookup(f)
        if r is None or r.mod != 'apply': return None
        if it.verifying is r and f['id'] == it.verifying_fn and it.depth0 == len(it.frames): return None
        return r

    def lookup(self, f):
        i = f['id']
        if i not in self.cache:
            key = f.get('key')
            if key is None: key = ((f['rn'] + '::') if 'rn' in f else '') + (f['n'] if 'rn' in f else f['qn'])
            self.cache[i] = next((c for c in self.by.get(key, []) if c.sig(self.prog, f)), None)
        return self.cache[i]


class Verifier(Loops):
    invs = {}           # record name -> fn(it, ref) -> facts

    def __init__(self, prog, types, contracts, axioms, spec=None, log=None):
        Loops.__init__(self, prog, types, contracts, axioms, spec, log)
        self.verifying = None
        self.verifying_fn = None
        self.depth0 = -1
        self.mapkinds = {}
        self.build_fields()
        self.ghost_fields()
        self.vacuous = []

    def ghost_fields(self): pass

    # ---- class invariants are facts about every object that is not under construction
    def assume_inv(self, ref, ty):
        if ty is None or ty.k != 'rec' or ty.rid not in self.prog.rec: return
        for r, _ in self.st.allocs:
            if r.eq(ref): return
        for rid in self.prog.all_bases(ty.rid):
            n = self.prog.rec[rid]['n'] if rid in self.prog.rec else None
            fn = self.invs.get(n)
            if fn is None: continue
            if self.skip_inv(n, ref): continue
            key = ('inv', n, ref.get_id(), self.inv_stamp(n))
            if key in self.st.ghost: continue
            self.st.ghost[key] = ref
            self.assume_all([z3.Implies(z3.And(ref > 0, ref < self.st.nextref), x) for x in fn(self, ref)])

    def skip_inv(self, n, ref): return False

    def inv_stamp(self, n): return 0

    def deref(self, p, ty=None, what='null dereference'):
        r = Loops.deref(self, p, ty, what)
        if isinstance(r, Obj): self.assume_inv(r.ref, r.ty)
        return r

    def objwrap(self, lv, ty):
        r = Loops.objwrap(self, lv, ty)
        if isinstance(r, Obj): self.assume_inv(r.ref, r.ty)
        return r

    def ptr_target(self, ref, t, n):
        r = Loops.ptr_target(self, ref, t, n)
        if isinstance(r, Obj): self.assume_inv(r.ref, r.ty)
        return r

    # ---- calls
    def apply_contract(self, con, f, this, args):
        self.used_contracts.add(con)
        key = f.get('key', f['qn'])
        # parameters by value/reference as lvalues
        bound = [self.bind(self.prog.ty(p['t']), a) for p, a in zip(f['ps'], args)]
        for nm, g in con.pre(self, this, bound): self.check('precondition of %s: %s' % (key, nm), g, 'pre')
        if hasattr(con, 'model_f'): return con.model_f(self, f, this, bound)
        return con.model(self, this, bound)

    # ---- verification of one function
    def symbolic_param(self, p, ty, i):
        t = ty.noref()
        name = p.get('n') or 'arg%d' % i
        if t.k == 'rec' and t.rid in self.prog.rec and self.prog.is_refcls(t.rid):
            r = self.fresh(name, IntSort())
            self.assume(z3.And(r > 0, r < self.st.nextref))
            self.assume(self.isinstance_(r, t.rid))
            o = Obj(r, t)
            self.assume_inv(r, t)
            return o
        if t.isrec('std::function') or (t.k == 'rec' and t.j.get('lam')):
            return self.opaque_fn(t)
        s = self.T.sort(t)
        if s is None and t.k == 'rec' and t.rid in self.prog.rec and not self.T.fields(t.rid): return self.newcell(MetaStruct(t, {}), t)
        if s is None: raise Unsupported('parameter of type ' + t.s)
        v = self.fresh_of(name, t)
        return self.newcell(v, t)

    def opaque_fn(self, t): raise Unsupported('function parameter')

    def start(self):
        self.st = State()
        self.assume0 = [self.st.nextref > 0]
        self.st.pc = list(self.assume0)
        self.solver = self.new_solver(self.st.pc)
        self.prefix, self.pos, self.work, self.bconds = [], 0, [], []
        self.frames = [Frame(None, {}, None)]
        self.T.heaps = lambda: (self.harr(NAME_F, Str), self.harr(SIZE_F, IntSort()))

    def verify(self, con, f, name=None):
        """all obligations of f against con"""
        self.under = name or f.get('key', f['qn'])
        self.verifying, self.verifying_fn = con, f['id']
        self.hints = list(con.hints) + list(getattr(self, 'global_hints', []))
        self.loopcache = {}
        self.paths_ok = 0
        n0 = len(self.obls)
        self.start()
        self.depth0 = len(self.frames)
        try:
            this = args = None
            if f.get('ctor'): args = [self.symbolic_param(p, self.prog.ty(p['t']), i) for i, p in enumerate(f['ps'])]
            if 'rec' in f and not f.get('static'):
                rty = self.prog.ty(self.prog.rec[f['rec']]['t'])
                if f.get('ctor'): this = self.ctor_this(f, rty)
                elif self.prog.is_refcls(f['rec']):
                    this = self.symbolic_param({'n': 'this'}, rty, 0)
                elif self.T.sort(rty) is None and not self.T.fields(f['rec']): this = self.newcell(MetaStruct(rty, {}), rty)
                elif self.T.sort(rty) is None: this = self.newcell(MetaStruct(rty, {fk: self.fresh_of('this', ft) if self.T.sort(ft) is not None else None for fk, ft, _ in self.T.fields(f['rec'])}), rty)
                else: this = self.newcell(self.fresh_of('this', rty), rty)
            if args is None: args = [self.symbolic_param(p, self.prog.ty(p['t']), i) for i, p in enumerate(f['ps'])]
            con.setup(self, f, this, args) if hasattr(con, 'setup') else None
            for nm, g in con.pre(self, this, args): self.assume(g)
            # the precondition must be satisfiable
            old = self.st.copy()
            nextref0 = self.st.nextref

            def run():
                if f.get('ctor'):
                    env = {p['id']: self.bind(self.prog.ty(p['t']), a) for p, a in zip(f['ps'], args)}
                    self.run_ctor_body(f, env, this)
                    return this
                env = {}
                for p, a in zip(f['ps'], args): env[p['id']] = self.bind(self.prog.ty(p['t']), a)
                return self.run_body(f, env, this)

            def on(kind, v):
                if kind == 'ok' or kind == 'throw':
                    # vacuity guard: the end of the path must not be contradictory
                    if kind == 'ok' and (self.paths_ok or not self.quick(FALSE, 500)): self.paths_ok += 1
                    self.finish(con, f, this, args, kind, v, old, nextref0)
                else: raise Unsupported('control flow')
            self.explore(run, on)
            self.obls.append(Obligation(self.under, 'reachable (not vacuous)', 0, 'proved' if self.paths_ok or getattr(con, 'never_returns', False) else 'refuted', 0.0, 'engine'))
        finally:
            self.verifying = None
        return self.obls[n0:]

    def ctor_this(self, f, rty):
        if self.prog.is_refcls(f['rec']):
            return Obj(self.alloc(f['rec']), rty)
        k = self.T.kind(rty)
        if k[0] in ('struct', 'abs'): return self.newcell(self.fresh('this', k[1].sort), rty)
        return self.newcell(MetaStruct(rty, {fk: None for fk, _, _ in self.T.fields(rty.rid)}), rty)

    def finish(self, con, f, this, args, kind, v, old, nextref0):
        self.line = f.get('line', 0)
        final = self.st
        if hasattr(con, 'outcome'):
            return con.outcome(self, f, this, args, kind, v, old)
        pre = old.copy()
        pre.pc = list(final.pc)
        pre.cnt = final.cnt + 5000
        pre.ghost = dict(final.ghost)
        outcomes = []
        outer = (self.st, self.solver)

        def run():
            return con.model(self, this, args)

        def on(k2, v2):
            mst = self.st
            if k2 == 'throw' or kind == 'throw':
                if k2 != kind:
                    self.check('refuses invalid input' if k2 == 'throw' else 'accepts valid input', FALSE)
                    return
            if kind == 'ok' and k2 == 'ok':
                if not (v is None and v2 is None):
                    g = self.result_eq(v, v2, final, mst, f)
                    if g is not None: self.check('result', g)
            # effects
            for c in old.cells:
                a, b = final.cells.get(c), mst.cells.get(c)
                if a is b: continue
                if not self.is_param_cell(c, this, args, f): continue
                g = self.val_eq(a, b)
                self.check('effect on parameter' if kind == 'ok' else 'unchanged after refusal', g)
            if kind == 'ok' or con_strict(con):
                self.heap_eq(final, mst, nextref0, con, kind)
            if kind == 'ok':
                for nm, g in con.posts(self, this, args, v, old): self.check(nm, g)
        self.st = pre
        sv = self.verifying
        try:
            self.explore(run, on)
        finally:
            self.st, self.solver = outer
            self.verifying = sv

    def is_param_cell(self, c, this, args, f):
        if isinstance(this, LV) and this.root == ('c', c): return True
        for a, p in zip(args, f['ps']):
            if isinstance(a, LV) and a.root == ('c', c):
                t = self.prog.ty(p['t'])
                return t.k == 'ref' and not t.to.const
        return False

    def val_eq(self, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b): return TRUE
            if a.sort() != b.sort():
                a, b = self.numpair(a, b)
                return a == b
            d = self.dt_of(a.sort())
            if isinstance(d, VecDT):
                i = self.fresh('ix', IntSort())
                return z3.And(d.len(a) == d.len(b), z3.Implies(z3.And(0 <= i, i < d.len(a)), self.val_eq(d.at(a, i), d.at(b, i))))
            if isinstance(d, MapDT):
                k = self.fresh('kx', d.ks)
                l = [d.has(a, k) == d.has(b, k), d.size(a) == d.size(b)]
                if d.vs is not None: l.append(z3.Implies(d.has(a, k), self.val_eq(d.val(a, k), d.val(b, k))))
                if d.smart: l.append(z3.Implies(d.has(a, k), z3.Select(d.get(a, 'key'), k) == z3.Select(d.get(b, 'key'), k)))
                return and_(l)
            if d is not None: return and_([self.val_eq(d.get(a, n), d.get(b, n)) for n in d.names])
            if a.sort().kind() == z3.Z3_ARRAY_SORT:
                i = self.fresh('ax', a.sort().domain())
                return self.val_eq(z3.Select(a, i), z3.Select(b, i))
            return a == b
        if isinstance(a, Obj) and isinstance(b, Obj): return a.ref == b.ref
        if isinstance(a, Obj) or isinstance(b, Obj): return self.refof(a) == self.refof(b)
        if isinstance(a, MetaStruct) and isinstance(b, MetaStruct): return and_([self.val_eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, PtrLV) and isinstance(b, PtrLV):
            x, y = a.lv, b.lv
            if isinstance(x, LV) and isinstance(y, LV) and x.root[0] == y.root[0] == 'h' and x.root[1] == y.root[1] and not x.path and not y.path: return x.root[2] == y.root[2]
        raise Unsupported('comparison of results')

    def result_eq(self, v, v2, final, mst, f):
        def rd(x, st):
            if isinstance(x, (LV, ElemLV)):
                keep = self.st
                self.st = st.copy()
                self.st.pc = keep.pc
                try: return self.read(x)
                finally: self.st = keep
            return x
        if v2 is None: return None
        rt = self.prog.ty(f['ret'])
        return self.val_eq(rd(v, final), rd(v2, mst))

    ignore_fields = ()

    def heap_eq(self, final, mst, nextref0, con, kind):
        keys = set(final.heap) | set(mst.heap)
        for fk in sorted(keys):
            if fk in self.ignore_fields or fk == '$tag' or fk.startswith('$box'): continue
            e = self.entry_arrays.get(fk)
            a, b = final.heap.get(fk, e), mst.heap.get(fk, e)
            if a is None or b is None or a.eq(b): continue
            r = self.fresh('r', IntSort())
            va, vb = sel(a, r), sel(b, r)
            self.check('frame/effect on ' + fk, z3.Implies(z3.And(0 < r, r < nextref0), self.val_eq(va, vb)))


def con_strict(con): return getattr(con, 'atomic', True)
