"""Symbolic execution of the extracted functions, contract at calls, invariants at loops."""
import z3, time, re, os, sys, nlabs
from z3 import *
from sorts import *
from front import Ty

DBGW = os.environ.get('VC_DBGW')
TIMEOUT = int(os.environ.get('VC_TIMEOUT_MS', '8000'))


OWNF, OWNR, OWNK = [z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('slot_field', 'slot_holder', 'slot_key')]
FCODES = {}


def fcode(fkey): return z3.IntVal(FCODES.setdefault(fkey, len(FCODES) + 1))


class PathEnd(Exception): pass
class Infeasible(PathEnd): pass
class CxxThrow(Exception):
    def __init__(self, ty): self.ty = ty
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root, self.path = root, tuple(path)

    def ext(self, *p): return LV(self.root, self.path + tuple(p))

    def key(self):
        def e(x): return ('z', x.get_id()) if isinstance(x, z3.AstRef) else (x if isinstance(x, (str, int)) else id(x))
        return tuple(e(x) for x in self.root) + tuple(tuple(e(y) for y in p) for p in self.path)

    def __repr__(self): return 'LV(%s,%s)' % (self.root, [p[0] for p in self.path])


class Obj:
    __slots__ = ('ref', 'ty')

    def __init__(self, ref, ty): self.ref, self.ty = ref, ty


class ElemLV:
    """lvalue of a map element (pair<const K,V>) or the key of a set"""

    def __init__(self, lv, dt, key, kind): self.lv, self.dt, self.k, self.kind = lv, dt, key, kind


class Iter:
    def __init__(self, kind, lv, dt, idx, key=None, has=None, end=False, info=None):
        self.kind, self.lv, self.dt, self.idx, self.key, self.has, self.end, self.info = kind, lv, dt, idx, key, has, end, info


class PtrLV:
    def __init__(self, lv): self.lv = lv


class Closure:
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this


class MetaStruct:
    def __init__(self, ty, f): self.ty, self.f = ty, f


class MetaOpt:
    """optional of a meta value: which of the two it is is known on each path"""

    def __init__(self, has, v=None): self.has, self.v = has, v


class MetaVar:
    """variant of meta values: the alternative is known on each path"""

    def __init__(self, i, v): self.i, self.v = i, v


class MetaVec:
    """vector of meta values with a statically known list of elements"""

    def __init__(self, l): self.l = list(l)


class InitList:
    def __init__(self, vals, ty): self.vals, self.ty = vals, ty


class FnVal:
    def __init__(self, fid): self.fid = fid


class Uninit:
    def __init__(self, ty): self.ty = ty


class State:
    def __init__(self):
        self.cells = {}
        self.ctype = {}
        self.heap = {}
        self.nextref = z3.Int('nextref0')
        self.pc = []
        self.cnt = 0
        self.allocs = []
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.cells, s.ctype, s.heap, s.nextref, s.pc, s.cnt, s.allocs = dict(self.cells), dict(self.ctype), dict(self.heap), self.nextref, list(self.pc), self.cnt, list(self.allocs)
        s.ghost = dict(self.ghost)
        return s


class Obligation:
    def __init__(self, fn, name, line, status, secs, backend, detail=''):
        self.fn, self.name, self.line, self.status, self.secs, self.backend, self.detail = fn, name, line, status, secs, backend, detail


def consts_of(e, acc=None, seen=None):
    if acc is None: acc, seen = {}, set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
        st.extend(x.children())
    return acc


def serial(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else -1


class Frame:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this


class Interp:
    def __init__(self, prog, types, contracts, axioms, spec=None, log=None):
        self.prog, self.T, self.contracts, self.axioms = prog, types, contracts, axioms
        self.spec = spec
        self.obls = []
        self.log = log or (lambda *a: None)
        self.infer = 0              # >0: inside invariant inference (obligations are assumed, not checked)
        self.frames = []
        self.line = 0
        self.solver_secs = 0.0
        self.writes = []            # stack of write recorders
        self.loopcache = {}
        self.entry_arrays = {}
        self.under = None
        self.hints = []
        self.used_contracts = set()
        self.inlined = set()
        self.strlits = {}
        self.feas_to = 250
        self.nq = 0
        self.deadline = None
        self.covered = False
        self.path_reached = {}
        self.assumed_std = set()

    # ------------------------------------------------------------------ fresh symbols
    def fresh(self, base, sort):
        self.st.cnt += 1
        return z3.Const('%s!%d' % (base, self.st.cnt), sort)

    def fresh_of(self, base, ty, wf=True):
        s = self.T.sort(ty)
        if s is None: raise Unsupported('symbolic value of type ' + ty.s)
        v = self.fresh(base, s)
        if wf: self.assume_all(self.T.wf(ty, v, self.st.nextref))
        return v

    # ------------------------------------------------------------------ logic
    def assume(self, f):
        if z3.is_true(f): return
        self.st.pc.append(f)
        self.solver.add(f)

    def assume_all(self, fs):
        for f in fs: self.assume(f)

    wall_hit = False

    def run_solver(self, s, ms):
        """limited by z3's own count of resources, so that the answer does not depend on the load of the machine"""
        s.set('rlimit', int(ms * 1300))
        s.set('timeout', ms * 8 + 2000)
        t = time.time()
        r = s.check()
        if r == z3.unknown:
            w = s.reason_unknown()
            if DBGW: print('UNK', w, ms, round(time.time() - t, 2))
            if DBGW and time.time() - t > 5: open('/tmp/slow.%d.smt2' % int(time.time()), 'w').write(s.to_smt2())
            if time.time() - t > 0.9 * (ms * 8 + 2000) / 1000: self.wall_hit = True
        return r

    def mk_solver(self):
        s = z3.Solver()
        if getattr(getattr(self, 'verifying', None), 'opaque_mul', False):
            if not hasattr(self, '_abs'): self._abs = nlabs.Abs()
            s = nlabs.AbsSolver(s, self._abs, self.verifying.opaque_mul == 'few')
        return s

    def new_solver(self, pcs):
        s = self.mk_solver()
        s.set('smt.mbqi', False)
        if not getattr(getattr(self, 'verifying', None), 'extensional', False): s.set('smt.array.extensional', False)
        s.set('auto_config', False)
        s.set('smt.random_seed', 7)
        for a in self.axioms: s.add(a)
        for p in pcs: s.add(p)
        return s

    def quick(self, goal, to=None):
        """True iff pc => goal is proved (cheap)"""
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g) : pass
        t = time.time()
        self.solver.push()
        self.solver.add(z3.Not(goal))
        r = self.run_solver(self.solver, to or self.feas_to)
        self.solver.pop()
        self.nq += 1
        self.solver_secs += time.time() - t
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the function exhausted')
        return r == z3.unsat

    def strong(self, goal, to):
        """like quick, in new solvers (other seeds when one runs out of time)"""
        for seed in (7, 5, 23):
            t = time.time()
            s = self.new_solver(self.st.pc)
            s.set('smt.random_seed', seed)
            s.add(z3.Not(goal))
            r = self.run_solver(s, to)
            self.solver_secs += time.time() - t
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the function exhausted')
            if r != z3.unknown or 'incomplete' in s.reason_unknown(): break
        return r == z3.unsat

    def prove(self, goal, to=None):
        """full strength; -> (status, secs, backend, detail)"""
        t = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g): return ('proved', 0.0, 'simplifier', '')
        if self.quick(goal, 1500): return ('proved', time.time() - t, 'z3', '')
        to = to or TIMEOUT
        detail = ''
        status = 'timeout'
        saturated = False
        for cfg in ({'smt.mbqi': False, 'smt.array.extensional': False}, {'smt.mbqi': False}, {'smt.mbqi': False, 'smt.random_seed': 23, 'smt.arith.solver': 2}, {'smt.mbqi': False, 'smt.random_seed': 5}, {'smt.mbqi': False, 'smt.random_seed': 41}, {'smt.mbqi': False, 'smt.qi.eager_threshold': 100.0, 'order': 1}, {'smt.mbqi': True}):
            s = self.mk_solver()
            s.set('auto_config', False)
            for k, v in cfg.items():
                if k != 'order': s.set(k, v)
            if 'order' in cfg: s.add(z3.Not(goal))
            for a in self.axioms: s.add(a)
            for p in (self.st.pc if 'order' not in cfg else reversed(self.st.pc)): s.add(p)
            if 'order' not in cfg: s.add(z3.Not(goal))
            r = self.run_solver(s, to)
            if r == z3.unsat:
                self.solver_secs += time.time() - t
                return ('proved', time.time() - t, 'z3', '')
            if r == z3.sat:
                status = 'refuted'
                detail = 'model: ' + str(s.model())[:4000]
                break
            rs = s.reason_unknown()
            if not detail: detail = 'z3: unknown (%s)' % rs
            if 'incomplete' in rs and 'smt.array.extensional' not in cfg:      # every instance was tried: the verifier rejects the obligation
                saturated = True
                status = 'unknown'
            try:
                m = s.model()
                detail += ' candidate model: ' + str(m)[:3000]
            except z3.Z3Exception:
                pass
        self.solver_secs += time.time() - t
        return (status, time.time() - t, 'z3', detail)

    def check(self, name, goal, kind='post'):
        """obligation; assumed afterwards"""
        if not self.infer and not self.replaying():
            st, secs, be, det = self.prove(goal)
            self.obls.append(Obligation(self.under, name, self.line, st, secs, be, det))
            if st != 'proved': self.log('   FAIL', self.under, name, 'line', self.line, st, det[:200], '| path', self.path_desc())
        self.assume(goal)

    def path_desc(self):
        return ''.join('TF'[0 if d else 1] for d in self.prefix[:self.pos]) + '|'

    def replaying(self): return self.pos < len(self.prefix)

    def branch(self, c, why=''):
        """decide a condition, forking the path"""
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            ft = self.sat_possible(c)
            ff = self.sat_possible(z3.Not(c))
            if ft and ff:
                self.work.append(self.prefix + [False])
                d = True
            elif ft: d = True
            elif ff: d = False
            else: raise Infeasible()
            self.prefix = self.prefix + [d]
            self.pos += 1
        f = c if d else z3.Not(c)
        self.assume(f)
        self.bconds.append(f)
        return d

    def sat_possible(self, c):
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.run_solver(self.solver, self.feas_to)
        self.solver.pop()
        self.nq += 1
        self.solver_secs += time.time() - t
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the function exhausted')
        return r != z3.unsat

    def explore(self, fn, on_path):
        """run fn() on every path from the current state. on_path(kind, value) is called at the end of each one"""
        keep = [getattr(self, a, None) for a in ('st', 'solver', 'prefix', 'pos', 'work', 'bconds')]
        base = self.st
        solver = self.new_solver(base.pc)
        work = [[]]
        n = 0
        try:
            while work:
                pre = work.pop()
                n += 1
                if n > 400: raise Unsupported('too many paths')
                self.st = base.copy()
                self.prefix, self.pos, self.work, self.bconds = pre, 0, work, []
                self.solver = solver
                solver.push()
                nf = len(self.frames)
                nw = len(self.writes)
                try:
                    try:
                        v = fn()
                        on_path('ok', v)
                    except Infeasible: pass
                    except PathEnd: pass
                    except CxxThrow as e: on_path('throw', e)
                    except BreakX: on_path('break', None)
                    except ContinueX: on_path('continue', None)
                    except ReturnX as e: on_path('return', e.v)
                finally:
                    del self.frames[nf:]
                    del self.writes[nw:]
                    solver.pop()
        finally:
            self.st, self.solver, self.prefix, self.pos, self.work, self.bconds = keep
        return n

    # ------------------------------------------------------------------ memory
    def newcell(self, v, ty=None):
        self.st.cnt += 1
        c = self.st.cnt
        self.st.cells[c] = v
        self.st.ctype[c] = ty
        return LV(('c', c))

    def harr(self, fkey, sort):
        a = self.st.heap.get(fkey)
        if a is None:
            a = self.entry_arrays.get(fkey)
            if a is None:
                a = self.entry_arrays[fkey] = z3.Const('H.' + fkey, z3.ArraySort(IntSort(), sort))
        return a

    def fieldlv(self, obj, fkey): return LV(('h', fkey, obj.ref if isinstance(obj, Obj) else obj))

    def fsort(self, fkey):
        s = self.fsorts.get(fkey)
        if s is None: raise Unsupported('field ' + fkey)
        return s

    def build_fields(self):
        self.fsorts, self.ftypes = {}, {}
        for r in self.prog.d['records']:
            for f in r['fields']:
                k = self.T.fkey(f['id'])
                ty = self.prog.ty(f['t'])
                self.ftypes[k] = ty
                if ty.k == 'ref' and self.embedded(ty) and self.prog.is_refcls(r['id']):
                    self.fsorts[k], self.ftypes[k] = IntSort(), None
                    continue
                s = self.T.sort(ty)
                if s is None and self.prog.is_refcls(r['id']):
                    s = MetaRefS if ty.k == 'ptr' else None
                self.fsorts[k] = s
        self.fsorts['$tag'] = IntSort()

    def read_root(self, root):
        if root[0] == 'c':
            v = self.st.cells[root[1]]
            if isinstance(v, Uninit):
                s = self.T.sort(v.ty)
                if s is None: raise Unsupported('read of uninitialised ' + v.ty.s)
                x = self.fresh('uninit', s)
                self.assume_all(self.T.wf(v.ty, x, self.st.nextref)) if self.T.kind(v.ty)[0] in ('int', 'bool', 'real') else None
                self.st.cells[root[1]] = x
                return x
            return v
        _, fkey, ref = root
        if fkey.startswith('$meta:'):
            return self.st.ghost[(fkey, ref.get_id())]
        s = self.fsort(fkey) if not fkey.startswith('$box:') else self.fsorts[fkey]
        v = z3.Select(self.harr(fkey, s), ref)
        v = z3.simplify(v) if False else sel(self.harr(fkey, s), ref, self)
        ty = self.ftypes.get(fkey)
        if ty is not None:
            self.loaded_facts(ty, v)
            self.owned_facts(fkey, ty, ref, v)
        return v

    def owned_facts(self, fkey, ty, ref, v):
        """objects stored in the slots of a container belong to it"""
        k = self.T.kind(ty)
        if k[0] != 'map' or k[4] is None or not self.embedded(k[4]): return
        key = ('own', v.get_id(), ref.get_id())
        if key in self.st.ghost: return
        self.st.ghost[key] = (v, ref)
        dt = k[1]
        kk = z3.Const('k?o', dt.ks)
        x = dt.val(v, kk)
        self.assume(z3.ForAll([kk], z3.Implies(dt.has(v, kk), z3.And(x > 0, x < self.st.nextref, OWNF(x) == fcode(fkey), OWNR(x) == ref, OWNK(x) == kk)), patterns=[x]))

    def loaded_facts(self, ty, v):
        """facts that hold of any value stored in memory at that type"""
        key = ('ld', v.get_id(), self.st.nextref.get_id())
        if key in self.st.ghost: return
        self.st.ghost[key] = v
        try: fs = self.T.wf(ty, v, self.st.nextref)
        except z3.Z3Exception: return        # a term that cannot be a trigger: the facts are not needed
        self.assume_all(fs)

    def read(self, lv):
        if isinstance(lv, Obj): return lv.ref
        if isinstance(lv, ElemLV):
            if lv.kind in ('set', 'olist'): return self.elem_key(lv)
            raise Unsupported('read of map element as a whole')
        if not isinstance(lv, LV): return lv
        v = self.read_root(lv.root)
        for p in lv.path: v = self.getp(v, p)
        return v

    def getp(self, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, MetaStruct): return v.f[p[2]]
            return p[1].get(v, p[2])
        if k == 'i':
            if isinstance(v, MetaVec): raise Unsupported('symbolic index in meta vector')
            return sel(p[1].arr(v), p[2], self)
        if k == 'mv': return sel(p[1].get(v, 'val'), p[2], self)
        if k == 'o': return v.v if isinstance(v, MetaOpt) else p[1].get(v)
        if k == 'a': return v.v if isinstance(v, MetaVar) else p[1].get(v, p[2])
        raise Unsupported('path ' + k)

    def setp(self, v, path, x):
        if not path: return x
        p = path[0]
        old = self.getp(v, p) if len(path) > 1 else None
        nv = self.setp(old, path[1:], x)
        k = p[0]
        if k == 'f':
            if isinstance(v, MetaStruct):
                f = dict(v.f); f[p[2]] = nv
                return MetaStruct(v.ty, f)
            return p[1].set(v, p[2], nv)
        if k == 'i': return p[1].set(v, 'arr', z3.Store(p[1].arr(v), p[2], nv))
        if k == 'mv': return p[1].set(v, 'val', z3.Store(p[1].get(v, 'val'), p[2], nv))
        if k == 'o': return MetaOpt(True, nv) if p[1] is None else p[1].some(nv)
        if k == 'a': return MetaVar(p[2], nv) if p[1] is None else p[1].mk(p[2], nv)
        raise Unsupported('path ' + k)

    def write(self, lv, x):
        if isinstance(lv, Obj): raise Unsupported('assignment to an object as a whole')
        if isinstance(lv, ElemLV): raise Unsupported('write to map element as a whole')
        if not isinstance(lv, LV): raise Unsupported('write to ' + type(lv).__name__)
        if isinstance(x, Obj): x = x.ref
        r = lv.root
        if r[0] == 'c':
            for w in self.writes: w.cells.add(r[1])
            if lv.path:
                self.st.cells[r[1]] = self.setp(self.read_root(r), lv.path, x)
            else: self.st.cells[r[1]] = x
            return
        _, fkey, ref = r
        for w in self.writes: w.heap.setdefault(fkey, []).append(ref)
        if fkey.startswith('$meta:') or not isinstance(x, z3.ExprRef):
            raise Unsupported('meta value stored in object field ' + fkey)
        s = self.fsorts.get(fkey)
        if s is None: raise Unsupported('field ' + fkey)
        if lv.path: x = self.setp(self.read_root(r), lv.path, x)
        a = self.harr(fkey, s)
        self.st.heap[fkey] = z3.Store(a, ref, x)

    def alloc(self, cls):
        r = self.st.nextref
        self.st.nextref = r + 1
        self.st.allocs.append((r, cls))
        for w in self.writes: w.alloc = True
        self.assume(r > 0)
        if cls is not None:
            a = self.harr('$tag', IntSort())
            self.st.heap['$tag'] = z3.Store(a, r, z3.IntVal(self.tag(cls)))
        return r

    def known_ne(self, j, i):
        """an object allocated on this path is different from an object that existed before (asked to the solver, cached)"""
        if not any(r.eq(j) or r.eq(i) for r, _ in self.st.allocs): return False
        key = ('ne', j.get_id(), i.get_id())
        c = self.st.ghost.get(key)
        if c is None:
            c = self.st.ghost[key] = (self.quick(j != i, 800), j, i)
        return c[0]

    def tag(self, rid): return 1000 + rid

    def elem_key(self, e):
        if e.dt.smart: return sel(e.dt.get(self.read(e.lv), 'key'), e.k, self)
        return e.k

    # ------------------------------------------------------------------ values
    def to_real(self, v):
        if z3.is_int(v): return z3.ToReal(v)
        return v

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, (LV, ElemLV)): return self.read(v)
        if isinstance(v, Obj): return v
        return v

    def refof(self, v):
        if isinstance(v, Obj): return v.ref
        return v

    def ty(self, n): return self.prog.ty(n['t'])

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression ' + e['k'] + ' at line %s' % e.get('l'))
        if 'l' in e: self.line = e['l']
        return m(e)

    def e_ParenExpr(self, e): return self.ev(e['c'][0])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_CXXDefaultArgExpr = e_CXXDefaultInitExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    e_CXXRewrittenBinaryOperator = e_ParenExpr

    def e_ConstantExpr(self, e):
        if 'cv' in e: return self.const_int(e)
        return self.ev(e['c'][0])

    def const_int(self, e):
        if self.T.kind(self.ty(e))[0] == 'bool': return z3.BoolVal(e['cv'] not in ('0', 'false'))
        return z3.IntVal(int(e['cv']))

    def e_IntegerLiteral(self, e): return z3.IntVal(int(e['v']))
    e_CharacterLiteral = e_IntegerLiteral

    def e_FloatingLiteral(self, e): return z3.RealVal(e['v'])

    def e_CXXBoolLiteralExpr(self, e): return z3.BoolVal(e['v'])

    def e_CXXNullPtrLiteralExpr(self, e): return z3.IntVal(0)
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def strlit(self, s):
        if s == '': return EMPTY_STR
        if s not in self.strlits:
            self.strlits[s] = z3.Const('str:"%s"' % s, Str)
        c = self.strlits[s]
        key = ('slit', s)
        if key not in self.st.ghost:
            self.st.ghost[key] = c
            self.assume(strlen(c) == len(s))
            for o, oc in self.strlits.items():
                if o != s: self.assume(oc != c)
        return c

    def e_StringLiteral(self, e): return self.strlit(e.get('v', '?'))

    def e_ImplicitValueInitExpr(self, e): return self.T.default(self.ty(e))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, e): return self.const_int(e)

    def lookup(self, d):
        f = self.frames[-1]
        b = f.env.get(d)
        if b is not None: return b
        g = self.prog.var.get(d)
        if g is not None: return self.global_lv(d, g)
        raise Unsupported('unbound variable id %d' % d)

    def global_lv(self, d, g):
        k = ('glob', d)
        if k in self.st.ghost: return self.st.ghost[k]
        ty = self.prog.ty(g['t'])
        if 'cv' in g:
            kd = self.T.kind(ty)[0]
            v = z3.BoolVal(g['cv'] not in ('0', 'false')) if kd == 'bool' else z3.RealVal(g['cv']) if kd == 'real' else z3.IntVal(int(g['cv']))
        elif 'init' in g and (ty.const or self.is_const_static(g)):
            v = self.rv(g['init'])
        else: raise Unsupported('global variable ' + g['n'])
        lv = v if isinstance(v, Obj) else self.newcell(v, ty)
        self.st.ghost[k] = lv
        return lv

    def is_const_static(self, g): return True

    def e_DeclRefExpr(self, e):
        dk = e['dk']
        if dk == 'EnumConstant': return z3.IntVal(int(e['cv']))
        if dk in ('Function', 'CXXMethod'): return FnVal(e['d'])
        return self.lookup(e['d'])

    def thisv(self):
        t = self.frames[-1].this
        if t is None: raise Unsupported('this')
        return t

    def e_CXXThisExpr(self, e):
        t = self.thisv()
        if isinstance(t, Obj): return t.ref
        return PtrLV(t)

    def deref(self, p, ty=None, what='null dereference'):
        """pointer value -> lvalue; ty = pointee type"""
        if isinstance(p, (LV, ElemLV)): p = self.read(p)
        if isinstance(p, PtrLV): return p.lv
        if isinstance(p, Obj): return p
        if isinstance(p, Iter): return self.iter_deref(p)
        if isinstance(p, z3.ExprRef):
            if p.sort() == MetaRefS: return self.decode_metaref(p)
            self.check(what, p != 0, 'safety')
            return Obj(p, ty)
        raise Unsupported('dereference of ' + type(p).__name__)

    # pointers into an object, stored in an object field (MergableFunction::imgs_)
    def encode_metaref(self, lv):
        r = lv.root
        if r[0] != 'h': raise Unsupported('pointer into a local stored in an object')
        code = (r[1],) + tuple((p[0], p[2]) if p[0] == 'a' else (p[0],) for p in lv.path)
        for p in lv.path:
            if p[0] not in ('a', 'f'): raise Unsupported('pointer with symbolic path stored in an object')
        if code not in METACODES:
            METACODES[code] = (len(METACODES) + 1, lv.path)
        return MetaRef.mk(z3.IntVal(METACODES[code][0]), r[2])

    def decode_metaref(self, p):
        c, r = MetaRef.get(p, 'code'), MetaRef.get(p, 'ref')
        for code, (n, path) in METACODES.items():
            if self.quick(c == n): return LV(('h', code[0], r), path)
        self.check('null or dangling interior pointer', c > 0, 'safety')
        for code, (n, path) in METACODES.items():
            if self.quick(c == n): return LV(('h', code[0], r), path)
        raise Unsupported('interior pointer of unknown target')

    def e_MemberExpr(self, e):
        b = self.ev(e['b'])
        if e['dk'] == 'Var': return self.lookup(e['d'])
        if e['dk'] != 'Field': return ('bound', b, e)
        if e['arrow']: b = self.deref(b, self.ty(e['b']).noref().to if self.ty(e['b']).noref().k == 'ptr' else None)
        return self.objlv(self.member(b, e['d'], e['n']), self.ty(e))

    def member(self, b, fid, name):
        if isinstance(b, ElemLV):
            if name == 'second': return self.mapval_lv(b)
            if name == 'first':
                k = self.elem_key(b)
                return self.newcell(k)
        if fid not in self.prog.field:
            # std::pair and friends
            if isinstance(b, LV):
                v = self.read(b)
                if isinstance(v, MetaStruct): return b.ext(('f', None, name))
                for dt in self.T.structs.values():
                    if isinstance(v, z3.ExprRef) and dt.sort == v.sort(): return b.ext(('f', dt, name))
            if isinstance(b, MetaStruct): return b.f[name]
            raise Unsupported('member ' + name)
        fkey = self.T.fkey(fid)
        fty = self.prog.ty(self.prog.field[fid][1]['t'])
        if isinstance(b, Obj):
            if fty.k == 'ref':
                if self.fsorts.get(fkey) is None: raise Unsupported('reference member of object ' + fkey)
                r = self.read(LV(('h', fkey, b.ref)))
                self.assume(z3.And(r > 0, r < self.st.nextref))
                return Obj(r, fty.noref())
            lv = LV(('h', fkey, b.ref))
            return self.objwrap(lv, fty)
        if isinstance(b, PtrLV): b = b.lv
        if isinstance(b, (MetaStruct, z3.ExprRef)): b = self.newcell(b)
        if isinstance(b, LV):
            v = self.read(b)
            if isinstance(v, MetaStruct):
                x = v.f.get(fkey)
                if fty.k == 'ref': return x
                return self.objwrap(b.ext(('f', None, fkey)), fty)
            if not isinstance(v, z3.ExprRef): raise Unsupported('member of ' + type(v).__name__)
            for dt in self.T.structs.values():
                if dt.sort == v.sort() and fkey in dt.idx: return self.objwrap(b.ext(('f', dt, fkey)), fty)
        raise Unsupported('member access ' + fkey)

    def objwrap(self, lv, ty):
        """lvalue of ref-class type -> Obj"""
        t = ty.noref()
        if t.k == 'rec' and t.rid in self.prog.rec and self.prog.is_refcls(t.rid):
            return Obj(self.read(lv), t)
        return lv

    def mapval_lv(self, el):
        k = self.mapkinds.get(el.dt.name)
        lv = el.lv.ext(('mv', el.dt, el.k))
        return lv

    # ---- casts
    def cast(self, e):
        ck = e['ck']
        sub = e['c'][0]
        if ck in ('LValueToRValue',):
            v = self.ev(sub)
            if isinstance(v, Obj): return v.ref
            return self.read(v) if isinstance(v, (LV, ElemLV)) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr', 'BitCast'):
            return self.ev(sub)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            v = self.ev(sub)
            if isinstance(v, (Obj, PtrLV)) or (isinstance(v, z3.ExprRef)):
                if isinstance(v, PtrLV): return PtrLV(self.upcast(v.lv, e, sub))
                return v
            if ck == 'BaseToDerived': return v
            return self.upcast(v, e, sub)
        if ck == 'NullToPointer': return z3.IntVal(0)
        if ck == 'PointerToBoolean':
            v = self.rv(sub)
            if isinstance(v, z3.ExprRef):
                if v.sort() == MetaRefS: return MetaRef.get(v, 'code') != 0
                return v != 0
            if isinstance(v, NullMeta): return FALSE
            return TRUE
        if ck == 'IntegralToBoolean': return self.rv(sub) != 0
        if ck == 'FloatingToBoolean': return self.rv(sub) != 0
        if ck == 'IntegralCast':
            v = self.rv(sub)
            if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            k = self.T.kind(self.ty(e))
            if k[0] == 'bool': return v != 0
            sk = self.T.kind(self.ty(sub))
            if sk[0] == 'int' and sk[1] >= k[1] and sk[2] <= k[2]: return v
            v = z3.simplify(v) if z3.is_int_value(z3.simplify(v)) else v
            if z3.is_int_value(v) and k[1] <= v.as_long() < k[2]: return v
            if self.quick(z3.And(v >= k[1], v < k[2])): return v
            return self.wrap(v, k)
        if ck == 'IntegralToFloating': return self.to_real(self.boolint(self.rv(sub)))
        if ck == 'FloatingCast': return self.rv(sub)
        if ck == 'FloatingToIntegral':
            v = self.rv(sub)
            i = self.fresh('trunc', IntSort())
            self.assume(z3.If(v >= 0, i == z3.ToInt(v), i == -z3.ToInt(-v)))
            k = self.T.kind(self.ty(e))
            self.check('float to integer conversion in range', z3.And(i >= k[1], i < k[2]), 'safety')
            return i
        if ck == 'Dynamic':
            return self.dyncast(e, self.ev(sub))
        if ck == 'ToVoid':
            self.ev(sub); return None
        raise Unsupported('cast ' + ck)

    def boolint(self, v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(v) else v

    def wrap(self, v, k):
        if k[1] == 0: return v % k[2]
        raise Unsupported('narrowing to signed')

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXDynamicCastExpr = cast

    def upcast(self, v, e, sub):
        """lvalue of value-class type to its base"""
        to = self.ty(e).noref()
        if to.k == 'ptr': to = to.to
        frm = self.ty(sub).noref()
        if frm.k == 'ptr': frm = frm.to
        if to.rid in self.prog.rec: return v
        if isinstance(v, (MetaStruct, z3.ExprRef)): v = self.newcell(v)
        if isinstance(v, LV) and frm.rid in self.prog.rec:
            for n, b in enumerate(self.prog.bases(frm.rid)):
                if b.name == to.name or b.rid == to.rid:
                    val = self.read(v)
                    if isinstance(val, MetaStruct): return v.ext(('f', None, '$b%d' % n))
                    k = self.T.kind(frm)
                    return v.ext(('f', k[1], '$b%d' % n))
        # base of a std type (e.g. shared_ptr -> __shared_ptr_access): same value
        return v

    def dyncast(self, e, v):
        to = self.ty(e).noref()
        ptr = to.k == 'ptr'
        t = to.to if ptr else to
        ref = v if isinstance(v, z3.ExprRef) else self.refof(v)
        if isinstance(ref, LV): ref = self.read(ref)
        ok = self.isinstance_(ref, t.rid)
        if self.branch(z3.And(ref != 0, ok)):
            return ref if ptr else Obj(ref, t)
        if ptr: return z3.IntVal(0)
        raise CxxThrow('std::bad_cast')

    def tagof(self, ref): return sel(self.harr('$tag', IntSort()), ref, self)

    def isinstance_(self, ref, rid):
        t = self.tagof(ref)
        return z3.Or(*[t == self.tag(x) for x in self.prog.all_derived(rid)])

    # ---- operators
    def arith(self, op, a, b, ty):
        k = self.T.kind(ty)
        if k[0] == 'real':
            a, b = self.to_real(a), self.to_real(b)
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                self.check('division by zero (float)', b != 0, 'safety')
                return a / b
            raise Unsupported('real ' + op)
        a, b = self.boolint(a), self.boolint(b)
        if op in '+-*':
            r = {'+': a + b, '-': a - b, '*': a * b}[op]
            s = z3.simplify(r)
            if z3.is_int_value(s):
                if k[1] <= s.as_long() < k[2]: return s
            inr = z3.And(r >= k[1], r < k[2])
            if k[1] != 0:
                self.check('signed overflow', inr, 'safety')
                return r
            if self.quick(inr, 1000): return r
            if op == '-': return z3.If(a >= b, r, r + k[2])
            if op == '+': return z3.If(r < k[2], r, r - k[2])
            return z3.If(r < k[2], r, r % k[2])
        if op in '/%':
            self.check('division by zero', b != 0, 'safety')
            if k[1] != 0: self.check('signed division of non-negative operands', z3.And(a >= 0, b > 0), 'safety')
            q = self.fresh('quot', IntSort())
            r = self.fresh('rem', IntSort())
            self.assume(z3.And(a == q * b + r, r >= 0, r < b, q >= 0, q <= a))
            if getattr(self, 'div_hook', None): self.assume_all(self.div_hook(a, b, q, r))
            return q if op == '/' else r
        raise Unsupported('operator ' + op)

    def e_BinaryOperator(self, e):
        op = e['op']
        l, r = e['c']
        if op == '&&':
            if not self.branch(self.rv(l)): return FALSE
            return self.as_bool(self.rv(r))
        if op == '||':
            if self.branch(self.rv(l)): return TRUE
            return self.as_bool(self.rv(r))
        if op == ',':
            self.ev(l); return self.ev(r)
        if op == '=':
            x = self.rv(r)
            lv = self.ev(l)
            self.assign(lv, x)
            return lv
        a, b = self.rv(l), self.rv(r)
        if op in ('==', '!='):
            v = self.equal(a, b)
            return v if op == '==' else z3.Not(v)
        if op in ('<', '>', '<=', '>='):
            a, b = self.numpair(a, b)
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if op == '-' and isinstance(a, Iter): return self.iter_minus(a, b)
        return self.arith(op, a, b, self.ty(e))

    def as_bool(self, v): return v

    def numpair(self, a, b):
        a, b = self.boolint(a), self.boolint(b)
        if z3.is_real(a) or z3.is_real(b): return self.to_real(a), self.to_real(b)
        return a, b

    def equal(self, a, b):
        if isinstance(a, Iter) or isinstance(b, Iter): return self.iter_eq(a, b)
        if isinstance(a, Obj): a = a.ref
        if isinstance(b, Obj): b = b.ref
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == b.sort(): return a == b
            if MetaRefS in (a.sort(), b.sort()):
                x = a if a.sort() == MetaRefS else b
                return MetaRef.get(x, 'code') == 0
            a, b = self.numpair(a, b)
            return a == b
        if isinstance(a, PtrLV) and isinstance(b, PtrLV):
            if a.lv.key() == b.lv.key(): return TRUE
            raise Unsupported('comparison of interior pointers')
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PtrLV) and isinstance(y, z3.ExprRef) and z3.is_int(y): return FALSE if z3.is_int_value(y) else self.addr(x.lv) == y
            if isinstance(x, (PtrLV, Closure)) and isinstance(y, z3.ExprRef): return FALSE
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def addr(self, lv):
        """address of a variable: only that it is not null and what it is equal to is known"""
        if not isinstance(lv, LV): raise Unsupported('address of ' + type(lv).__name__)
        k = ('addr', str(lv.key()))
        if k not in self.st.ghost:
            a = self.fresh('addr', IntSort())
            self.assume(a > 0)
            self.st.ghost[k] = a
        return self.st.ghost[k]

    def assign(self, lv, x):
        if isinstance(lv, LV) and lv.path and isinstance(x, PtrLV): x = self.addr(x.lv)
        if isinstance(lv, LV) and lv.root[0] == 'h' and isinstance(x, PtrLV) and not lv.path: x = self.encode_metaref(x.lv)
        if isinstance(lv, LV) and isinstance(x, z3.ExprRef) and not lv.path and lv.root[0] == 'h' and self.fsorts.get(lv.root[1]) == MetaRefS and x.sort() != MetaRefS:
            x = MetaRef.mk(I0, I0)
        self.write(lv, x)

    def e_CompoundAssignOperator(self, e):
        l, r = e['c']
        b = self.rv(r)
        lv = self.ev(l)
        a = self.read(lv)
        ct = self.prog.ty(e['ct'])
        v = self.arith(e['op'][:-1], a, b, ct)
        kl = self.T.kind(self.ty(l))
        kc = self.T.kind(ct)
        if kl[0] == 'int' and kc[0] == 'real':
            i = z3.ToInt(v)
            self.check('float to integer conversion in range', z3.And(v >= 0, i < kl[2]), 'safety')
            v = i
        elif kl[0] == 'int' and kl != kc and not self.quick(z3.And(v >= kl[1], v < kl[2])): v = self.wrap(v, kl)
        self.write(lv, v)
        return lv

    def e_UnaryOperator(self, e):
        op = e['op']
        s = e['c'][0]
        if op == '!': return z3.Not(self.rv(s))
        if op == '*':
            v = self.ev(s)
            if isinstance(v, LV): v = self.read(v)
            t = self.ty(s).noref()
            return self.deref(v, t.to if t.k == 'ptr' else None)
        if op == '&':
            v = self.ev(s)
            if isinstance(v, Obj): return v.ref
            if isinstance(v, LV): return PtrLV(v)
            if isinstance(v, ElemLV) and v.kind == 'olist': return self.elem_key(v)
            raise Unsupported('address of ' + type(v).__name__)
        if op in ('++', '--'):
            lv = self.ev(s)
            a = self.read(lv)
            if isinstance(a, Iter): return self.iter_step(lv, 1 if op == '++' else -1, e['post'])
            if z3.is_real(a): v = a + 1 if op == '++' else a - 1
            else: v = self.arith('+' if op == '++' else '-', a, z3.IntVal(1), self.ty(s))
            self.write(lv, v)
            return a if e['post'] else lv
        if op == '-':
            v = self.rv(s)
            if z3.is_real(v): return -v
            return self.arith('-', I0, v, self.ty(e))
        if op == '+': return self.rv(s)
        raise Unsupported('unary ' + op)

    def e_ConditionalOperator(self, e):
        c, a, b = e['c']
        if self.branch(self.rv(c)): return self.ev(a)
        return self.ev(b)

    def e_MaterializeTemporaryExpr(self, e):
        v = self.ev(e['c'][0])
        if isinstance(v, (LV, Obj, ElemLV)): return v
        return self.newcell(v, self.ty(e))

    def e_InitListExpr(self, e):
        t = self.ty(e)
        k = self.T.kind(t)
        vals = [self.initval(c) for c in e.get('c', [])]
        if t.k == 'rec' and t.rid in self.prog.rec:
            rec = self.prog.rec[t.rid]
            fs = self.T.fields(t.rid)
            if k[0] == 'ref': raise Unsupported('aggregate init of object')
            d = {}
            for (fk, ft, fj), v in zip(fs, vals):
                d[fk] = v if ft.k == 'ref' else (self.read(v) if isinstance(v, (LV,)) else v)
            if k[0] == 'struct': return k[1].new(*[self.refof(d[n]) for n in k[1].names])
            return MetaStruct(t, d)
        if len(vals) == 1 and t.k in ('b', 'ptr', 'enum'): return self.read(vals[0]) if isinstance(vals[0], LV) else vals[0]
        if not vals and self.T.sort(t) is not None: return self.T.default(t)
        return InitList([self.read(v) if isinstance(v, LV) else v for v in vals], t)

    def initval(self, n):
        return self.ev(n)

    def e_CXXStdInitializerListExpr(self, e): return self.ev(e['c'][0])

    def e_LambdaExpr(self, e):
        env = {}
        this = None
        for c in e['caps']:
            if c['this']:
                this = self.thisv()
                continue
            if c['kind'] == 'ref':
                env[c['d']] = self.ev(c['init'])
                if isinstance(env[c['d']], (z3.ExprRef,)): env[c['d']] = self.newcell(env[c['d']])
            else:
                v = self.ev(c['init'])
                if isinstance(v, LV): v = self.read(v)
                if isinstance(v, Obj): env[c['d']] = v
                else: env[c['d']] = self.newcell(v, self.prog.ty(c['t']) if 't' in c else None)
        # a lambda may refer to enclosing constants without capturing
        outer = dict(self.frames[-1].env)
        outer.update(env)
        return Closure(e, outer, this if this is not None else self.frames[-1].this)

    def e_CXXThrowExpr(self, e):
        t = self.ty(e['c'][0]) if e.get('c') and e['c'][0] else None
        raise CxxThrow(t.s if t else '?')

    # ------------------------------------------------------------------ calls
    def e_CXXConstructExpr(self, e):
        return self.construct(e, self.ty(e), e['args'])
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CallExpr(self, e):
        if 'cv' in e:
            k = self.T.kind(self.ty(e))
            if k[0] == 'real': return z3.RealVal(e['cv'])
            if k[0] in ('int', 'bool'): return self.const_int(e)
        if 'fn' not in e:
            f = self.ev(e['callee'])
            if isinstance(f, LV): f = self.read(f)
            if isinstance(f, Closure): return self.call_closure(f, [self.ev(a) for a in e['args']], None)
            if isinstance(f, FnVal): return self.call_fn(f.fid, None, e['args'], e)
            raise Unsupported('indirect call')
        f = self.prog.fn.get(e['fn'])
        if f is not None and f['repo'] and ('body' in f or f.get('pure')):
            this = None
            return self.call_fn(e['fn'], this, e['args'], e)
        return self.std_call(e, f)

    def e_CXXMemberCallExpr(self, e):
        cal = e['callee']
        while cal['k'] == 'ParenExpr': cal = cal['c'][0]
        f = self.prog.fn.get(e.get('fn'))
        if cal['k'] != 'MemberExpr': raise Unsupported('member call')
        b = self.ev(cal['b'])
        bt = self.ty(cal['b']).noref()
        if f is not None and f['repo'] and ('body' in f or f.get('pure') or f.get('defaulted')):
            if cal['arrow']: b = self.deref(b, bt.to if bt.k == 'ptr' else None)
            elif isinstance(b, (z3.ExprRef, MetaStruct, Closure)):
                t = bt
                b = Obj(b, t) if (t.rid in self.prog.rec and self.prog.is_refcls(t.rid)) else self.newcell(b, t)
            return self.call_fn(e['fn'], b, e['args'], e, virt=e.get('virt') and not e.get('qual'))
        if cal['arrow']:
            b = self.deref(b, bt.to if bt.k == 'ptr' else None)
        return self.objlv(self.std_method(e, f, b, e['args']), self.ty(e))

    def e_CXXOperatorCallExpr(self, e):
        f = self.prog.fn.get(e.get('fn'))
        if f is None: raise Unsupported('operator call')
        if f['repo'] and ('body' in f):
            if 'rec' in f and not f.get('static'):
                b = self.ev(e['args'][0])
                if f.get('lam'):
                    if isinstance(b, LV): b = self.read(b)
                    if not isinstance(b, Closure): raise Unsupported('call of unknown lambda')
                    return self.call_closure(b, [self.ev(a) for a in e['args'][1:]], f)
                if isinstance(b, (z3.ExprRef, MetaStruct)): b = self.newcell(b, self.ty(e['args'][0]))
                return self.call_fn(e['fn'], b, e['args'][1:], e, virt=e.get('virt'))
            return self.call_fn(e['fn'], None, e['args'], e)
        if f['repo'] and f.get('defaulted') and f['n'] == 'operator=':
            lv = self.ev(e['args'][0])
            x = self.move_or_copy(e['args'][1])
            self.write(lv, x)
            return lv
        if 'rn' in f: return self.objlv(self.std_method(e, f, self.ev(e['args'][0]), e['args'][1:]), self.ty(e))
        return self.std_call(e, f)

    def call_closure(self, c, args, f):
        if not isinstance(c, Closure): raise Unsupported('call of non closure')
        if getattr(c, 'trace', None): return c.trace(args)
        if f is None or f.get('rec') != c.node['rec']:
            f = self.prog.fn.get(c.node['fn'])
            if c.node.get('generic'):
                l = [g for g in self.prog.d['functions'] if g.get('lamprim') == c.node['fn'] and 'body' in g]
                if len(l) != 1: raise Unsupported('generic lambda with %d instantiations' % len(l))
                f = l[0]
        if f is None or 'body' not in f: raise Unsupported('lambda without body')
        env = dict(c.env)
        for p, a in zip(f['ps'], args): env[p['id']] = self.bind(self.prog.ty(p['t']), a)
        return self.run_body(f, env, c.this)

    def bind(self, ty, a):
        """bind an evaluated argument to a parameter of type ty"""
        if ty.k == 'ref':
            if isinstance(a, (LV, Obj, ElemLV)): return a
            return self.newcell(a, ty.to)
        if isinstance(a, Obj): 
            return a
        if isinstance(a, (LV, ElemLV)): a = self.read(a)
        t = ty
        if isinstance(a, z3.ExprRef):
            if z3.is_int(a) and self.T.kind(ty)[0] == 'real': a = z3.ToReal(a)
        return self.newcell(a, ty)

    def call_fn(self, fid, this, argnodes, e, virt=False, args=None):
        f = self.prog.fn[fid]
        if args is None:
            args = []
            ps = f['ps']
            for i, a in enumerate(argnodes):
                p = self.prog.ty(ps[i]['t']) if i < len(ps) else None
                args.append(self.evarg(a, p))
        if virt:
            return self.virtual_call(f, this, args)
        return self.call_fn_vals(f, this, args)

    def evarg(self, a, pty):
        v = self.ev(a)
        if pty is not None and pty.k != 'ref' and isinstance(v, LV): v = self.read(v)
        return v

    def virtual_call(self, f, this, args):
        if isinstance(this, Obj):
            con = self.contract_of(f)
            if con is not None and con.virtual: return self.apply_contract(con, f, this, args)
            # closed world dispatch on the dynamic type
            impls = {}
            base = f['rec']
            for rid in self.prog.all_derived(base):
                g = self.resolve_virtual(f, rid)
                if g is not None: impls.setdefault(g['id'], []).append(rid)
            t = self.tagof(this.ref)
            items = list(impls.items())
            for n, (gid, rids) in enumerate(items):
                cond = z3.Or(*[t == self.tag(r) for r in rids])
                last = n == len(items) - 1
                if last:
                    self.assume(cond)
                    ok = True
                else: ok = self.branch(cond)
                if ok:
                    g = self.prog.fn[gid]
                    if 'body' not in g and not self.contract_of(g): raise Unsupported('pure virtual call ' + g['qn'])
                    return self.call_fn_vals(g, Obj(this.ref, self.prog.ty(self.prog.rec[g['rec']]['t'])), args)
        return self.call_fn_vals(f, this, args)

    def resolve_virtual(self, f, rid):
        """the implementation of virtual f in class rid"""
        todo = [rid]
        for x in self.prog.all_bases(rid):
            r = self.prog.rec.get(x)
            if not r: continue
            for mid in r['methods']:
                m = self.prog.fn.get(mid)
                if m is None: continue
                if m['id'] == f['id'] or self.overrides(m, f['id']):
                    if m.get('pure') and 'body' not in m: continue
                    return m
        return None

    def overrides(self, m, fid):
        for o in m.get('ov', []):
            if o == fid: return True
            if o in self.prog.fn and self.overrides(self.prog.fn[o], fid): return True
        return False

    def contract_of(self, f):
        return self.contracts.get(f, self)

    def call_fn_vals(self, f, this, args):
        con = self.contract_of(f)
        if con is not None: return self.apply_contract(con, f, this, args)
        if 'body' not in f:
            raise Unsupported('call of function without body ' + f['qn'])
        if len(self.frames) > 40: raise Unsupported('recursion')
        env = {}
        for p, a in zip(f['ps'], args): env[p['id']] = self.bind(self.prog.ty(p['t']), a)
        self.inlined.add(f.get('key', f['qn']))
        if f.get('ctor'):
            return self.run_ctor_body(f, env, this)
        return self.run_body(f, env, this)

    def run_body(self, f, env, this):
        line = self.line
        self.frames.append(Frame(f, env, this))
        try:
            try:
                self.ex(f['body'])
                r = None
            except ReturnX as x: r = x.v
        finally:
            self.frames.pop()
        self.line = line
        return r

    # ---- constructors
    def run_ctor(self, f, this, args):
        con = self.contract_of(f)
        if con is not None: return self.apply_contract(con, f, this, args)
        if 'body' not in f: raise Unsupported('constructor without body ' + f['qn'])
        env = {}
        for p, a in zip(f['ps'], args): env[p['id']] = self.bind(self.prog.ty(p['t']), a)
        self.inlined.add(f.get('key', f['qn']))
        self.run_ctor_body(f, env, this)

    def this_field(self, this, fkey, ty):
        if isinstance(this, Obj): return LV(('h', fkey, this.ref))
        v = self.read(this)
        if isinstance(v, MetaStruct): return this.ext(('f', None, fkey))
        for dt in self.T.structs.values():
            if isinstance(v, z3.ExprRef) and dt.sort == v.sort() and fkey in dt.idx: return this.ext(('f', dt, fkey))
        raise Unsupported('field ' + fkey)

    def run_ctor_body(self, f, env, this):
        line = self.line
        self.frames.append(Frame(f, env, this))
        try:
            for i in f.get('inits', []):
                if i.get('deleg'):
                    self.init_on(i['init'], this)
                elif 'base' in i:
                    bt = self.prog.ty(i['base'])
                    if bt.rid in self.prog.rec:
                        if i.get('virtual'):
                            k = ('vbase', bt.rid, this.ref.get_id() if isinstance(this, Obj) else id(this))
                            if k in self.st.ghost: continue
                            self.st.ghost[k] = True
                        self.init_on(i['init'], this)
                    else:
                        v = self.rv(i['init'])
                        for n, b in enumerate(self.prog.bases(f['rec'])):
                            if b.rid == bt.rid and any(x[0] == '$b%d' % n for x in self.T.fields(f['rec'])):
                                if isinstance(this, Obj): break
                                self.write(self.this_field(this, '$b%d' % n, b), v)
                elif 'field' in i:
                    ft = self.prog.ty(self.prog.field[i['field']][1]['t'])
                    fk = self.T.fkey(i['field'])
                    if ft.k == 'ref':
                        v = self.ev(i['init'])
                        if isinstance(this, Obj):
                            if not isinstance(v, Obj) or self.fsorts.get(fk) is None: raise Unsupported('reference member')
                            self.write(LV(('h', fk, this.ref)), v.ref)
                            continue
                        val = self.read(this)
                        if not isinstance(val, MetaStruct): raise Unsupported('reference member')
                        self.write(this.ext(('f', None, fk)), v) if False else val.f.__setitem__(fk, v)
                        continue
                    if self.T.sort(ft) is None and isinstance(this, Obj) and self.fsorts.get(fk) is None:
                        if i['written']: raise Unsupported('field of unsupported type ' + fk)
                        self.skip_init(fk)
                        continue
                    v = self.move_or_copy(i['init'])
                    if isinstance(v, Obj): v = v.ref
                    if isinstance(v, InitList): v = self.coerce(v, ft)
                    self.assign(self.this_field(this, fk, ft), v)
            try: self.ex(f['body'])
            except ReturnX: pass
        finally:
            self.frames.pop()
        self.line = line

    def skip_init(self, fk): pass

    def init_on(self, n, this):
        """run the constructor call n on an existing (sub)object"""
        while n['k'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXDefaultInitExpr', 'ImplicitCastExpr'): n = n['c'][0]
        if n['k'] == 'InitListExpr' and len(n.get('c', [])) == 1: return self.init_on(n['c'][0], this)
        if n['k'] == 'InitListExpr' and not n.get('c'): return
        if n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): raise Unsupported('base initialiser ' + n['k'])
        f = self.prog.fn[n['fn']]
        if 'body' not in f and not self.contract_of(f):
            if f.get('dflt') or n.get('def'):
                self.default_fields(this, f['rec'])
                return
            if (f.get('copy') or f.get('move')) and isinstance(this, LV):
                self.write(this, self.rv(n['args'][0]))
                return
            raise Unsupported('constructor without body ' + f['qn'])
        args = [self.evarg(a, self.prog.ty(f['ps'][i]['t'])) for i, a in enumerate(n['args'])]
        self.run_ctor(f, this, args)

    def default_fields(self, this, rid, zero=False):
        """default initialisation; zero: value initialisation without a user provided constructor"""
        for fk, ft, fj in self.T.fields(rid):
            if self.T.sort(ft) is None and zero and ft.k == 'ptr' and isinstance(this, LV) and not (fj is not None and 'init' in fj):
                self.write(self.this_field(this, fk, ft), I0)
                continue
            if self.T.sort(ft) is None:
                if isinstance(this, Obj) : continue
                raise Unsupported('default init of ' + fk)
            if fj is not None and 'init' in fj:
                self.frames.append(Frame(None, {}, this))
                try: v = self.rv(fj['init'])
                finally: self.frames.pop()
                v = self.refof(v)
                if z3.is_int(v) and self.T.kind(ft)[0] == 'real': v = z3.ToReal(v)
            elif not zero and (self.T.kind(ft)[0] in ('int', 'bool', 'real') or ft.k == 'ptr'): v = self.fresh_of('uninit', ft)
            else: v = self.T.default(ft)
            if isinstance(v, InitList): v = self.coerce(v, ft)
            self.write(self.this_field(this, fk, ft), v)

    def construct(self, e, ty, argnodes):
        """prvalue of class type ty"""
        f = self.prog.fn.get(e['fn'])
        k = self.T.kind(ty)
        if ty.isrec() and ty.rid in self.prog.rec:
            if k[0] == 'abs' or k[0] == 'struct' or (k[0] == 'meta'):
                if (e['copy'] or e['move']) and (f is None or 'body' not in f or f.get('implicit') or f.get('defaulted')) and not self.contract_of(f):
                    return self.rv(argnodes[0])
                if ty.j.get('lam'):
                    return self.rv(argnodes[0])
                if k[0] == 'abs':
                    c = self.newcell(Uninit(ty), ty)
                elif k[0] == 'struct':
                    c = self.newcell(self.fresh('obj', k[1].sort), ty)
                else: c = self.newcell(MetaStruct(ty, {fk: None for fk, _, _ in self.T.fields(ty.rid)}), ty)
                if f is None or ('body' not in f and not self.contract_of(f)):
                    if e['def']:
                        self.default_fields(c, ty.rid)
                        return self.read(c)
                    raise Unsupported('constructor of ' + ty.s)
                args = [self.evarg(a, self.prog.ty(f['ps'][i]['t'])) for i, a in enumerate(argnodes)]
                self.run_ctor(f, c, args)
                return self.read(c)
            # object with identity
            if ty.name == 'EFG::Error': return MetaStruct(ty, {})
            if e.get('elid') and len(argnodes) == 1: return self.ev(argnodes[0])
            args = [self.evarg(a, self.prog.ty(f['ps'][i]['t'])) for i, a in enumerate(argnodes)]
            return self.new_object(ty, f, args)
        return self.std_construct(e, ty, argnodes, f)

    def new_object(self, ty, f, args):
        o = Obj(self.alloc(ty.rid), ty)
        if f is None or ('body' not in f and not self.contract_of(f)):
            if args: raise Unsupported('constructor of ' + ty.s)
            self.default_fields(o, ty.rid)
            return o
        self.run_ctor(f, o, args)
        return o

    def move_or_copy(self, n):
        """value of an initialiser/assigned expression; handles moves out of smart pointers and containers"""
        v = self.ev(n)
        if isinstance(v, (LV,)):
            x = self.read(v)
            if n.get('vk') == 'x': self.moved_from(v, self.ty(n))
            return x
        if isinstance(v, ElemLV): return self.read(v)
        return v

    def moved_from(self, lv, ty):
        k = self.T.kind(ty)
        t = ty.noref()
        if t.isrec('std::unique_ptr', 'std::shared_ptr'): self.write(lv, I0)
        elif k[0] in ('vec', 'map', 'struct') and not lv.root[0] == 'tmp':
            self.write(lv, self.fresh_of('moved', t))

    # overload resolution for make_shared / emplace
    def pick_ctor(self, ty, argtys):
        rec = self.prog.rec.get(ty.rid)
        best = None
        for mid in (rec['methods'] if rec else []):
            m = self.prog.fn.get(mid)
            if not m or not m.get('ctor') or m.get('deleted') or len(m['ps']) != len(argtys): continue
            sc = 0
            for p, a in zip(m['ps'], argtys):
                s = self.conv_score(a, self.prog.ty(p['t']))
                if s is None: sc = None; break
                sc += s
            if sc is None: continue
            if best is None or sc < best[0]: best = (sc, m)
        # template constructors are not methods of the record: search instantiations
        if best is None:
            for m in self.prog.d['functions']:
                if m.get('ctor') and m.get('rec') == ty.rid and 'body' in m and len(m['ps']) == len(argtys) and \
                        all(self.conv_score(a, self.prog.ty(p['t'])) is not None for p, a in zip(m['ps'], argtys)):
                    return m
        return best[1] if best else None

    def conv_score(self, a, p):
        a, p = a.noref(), p.noref()
        if a.s.replace('const ', '') == p.s.replace('const ', ''): return 0
        if a.k == 'b' and p.k == 'b': return 1
        if a.isrec() and p.isrec():
            if a.rid in self.prog.rec and p.rid in self.prog.all_bases(a.rid): return 1
            if a.name in PTRS and p.name in PTRS: 
                x, y = a.args()[0], p.args()[0]
                if x.rid == y.rid or (x.rid in self.prog.rec and y.rid in self.prog.all_bases(x.rid)): return 1
                return None
        if a.name == 'std::nullptr_t' and (p.k == 'ptr' or p.name in PTRS): return 1
        if p.isrec() and p.rid in self.prog.rec:
            for mid in self.prog.rec[p.rid]['methods']:
                m = self.prog.fn.get(mid)
                if m and m.get('ctor') and len(m['ps']) == 1 and not m.get('copy') and not m.get('move'):
                    t = self.prog.ty(m['ps'][0]['t']).noref()
                    if t.s.replace('const ', '') == a.s.replace('const ', ''): return 5
        if a.k == 'ptr' and p.k == 'ptr': return 1
        return None

    def build(self, ty, vals, tys):
        """construct a value of type ty from evaluated args (emplace, make_shared...)"""
        k = self.T.kind(ty)
        if len(vals) == 1 and tys[0] is not None and tys[0].noref().s.replace('const ', '') == ty.s.replace('const ', ''):
            v = vals[0]
            if k[0] == 'ref' and ty.isrec() and ty.rid in self.prog.rec: pass
            else: return self.read(v) if isinstance(v, LV) else v
        if ty.isrec() and ty.rid in self.prog.rec:
            f = self.pick_ctor(ty, tys) if vals else self.pick_ctor(ty, [])
            if k[0] == 'ref':
                if f is None and vals: raise Unsupported('constructor of ' + ty.s)
                vals = self.conv_args(f, vals, tys) if f else vals
                return self.new_object(ty, f, vals)
            c = self.newcell(Uninit(ty) if k[0] == 'abs' else (self.fresh('obj', k[1].sort) if k[0] == 'struct' else MetaStruct(ty, {fk: None for fk, _, _ in self.T.fields(ty.rid)})), ty)
            if f is None or 'body' not in f:
                if not vals:
                    self.default_fields(c, ty.rid, True); return self.read(c)
                if f is not None and (f.get('copy') or f.get('move')): return self.read(vals[0]) if isinstance(vals[0], LV) else vals[0]
                raise Unsupported('constructor of ' + ty.s)
            vals = self.conv_args(f, vals, tys)
            self.run_ctor(f, c, vals)
            return self.read(c)
        if not vals: return self.T.default(ty)
        if len(vals) == 1:
            v = self.read(vals[0]) if isinstance(vals[0], LV) else vals[0]
            return self.coerce(v, ty)
        raise Unsupported('construct ' + ty.s)

    def conv_args(self, f, vals, tys):
        res = []
        for p, v, t in zip(f['ps'], vals, tys):
            pt = self.prog.ty(p['t'])
            if t is not None and self.conv_score(t, pt) == 5:
                x = self.build(pt.noref(), [v], [t])
                v = x if isinstance(x, Obj) else self.newcell(x, pt.noref())
            res.append(v)
        return res

    def coerce(self, v, ty):
        if isinstance(v, Obj): return v.ref
        k = self.T.kind(ty)
        if isinstance(v, InitList):
            if k[0] == 'vec':
                a = z3.K(IntSort(), default(k[1].es))
                for i, x in enumerate(v.vals): a = z3.Store(a, i, self.num(self.refof(x), k[1].es))
                return k[1].new(z3.IntVal(len(v.vals)), a)
            if len(v.vals) == 0: return self.T.default(ty)
            if len(v.vals) == 1: return self.coerce(v.vals[0], ty)
            raise Unsupported('initialiser list for ' + ty.s)
        if isinstance(v, z3.ExprRef):
            s = self.T.sort(ty)
            if s is not None and v.sort() != s:
                if k[0] == 'real' and z3.is_int(v): return z3.ToReal(v)
                if k[0] == 'var':
                    for i, t in enumerate(k[2]):
                        if self.T.sort(t) == v.sort(): return k[1].mk(i, v)
                if k[0] == 'opt': return k[1].some(self.coerce(v, k[2]))
        return v

    def num(self, v, s):
        if s.kind() == z3.Z3_REAL_SORT and z3.is_int(v): return z3.ToReal(v)
        return v

    # ------------------------------------------------------------------ statements
    def ex(self, s):
        if s is None: return
        if 'l' in s: self.line = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is not None: return m(s)
        self.ev(s)

    def s_CompoundStmt(self, s):
        locs = []
        self.scopes = getattr(self, 'scopes', [])
        self.scopes.append(locs)
        try:
            for c in s['c']: self.ex(c)
        except PathEnd: raise
        except (CxxThrow, ReturnX, BreakX, ContinueX):
            self.scopes.pop()
            popped = True
            self.destroy(locs)
            raise
        else:
            self.scopes.pop()
            self.destroy(locs)
            return
        finally:
            if self.scopes and self.scopes[-1] is locs: self.scopes.pop()

    def destroy(self, locs):
        for lv, ty, f in reversed(locs):
            env = {}
            self.run_body(f, env, lv)

    def s_NullStmt(self, s): pass

    def s_DeclStmt(self, s):
        for d in s['decls']:
            if 'unsupported' in d: raise Unsupported('declaration ' + d['unsupported'])
            self.declare(d)

    def dtor_of(self, ty):
        rec = self.prog.rec.get(ty.rid) if ty.isrec() else None
        if not rec: return None
        for mid in rec['methods']:
            m = self.prog.fn.get(mid)
            if m and m.get('dtor') and 'body' in m and not m.get('defaulted') and not m.get('implicit'): return m
        return None

    def declare(self, d):
        ty = self.prog.ty(d['t'])
        env = self.frames[-1].env
        if d.get('static') and d['id'] in self.prog.var:
            env[d['id']] = self.global_lv(d['id'], self.prog.var[d['id']])
            return
        if ty.k == 'ref':
            v = self.ev(d['init'])
            if not isinstance(v, (LV, Obj, ElemLV)): v = self.newcell(v, ty.to)
            env[d['id']] = self.objlv(v, ty.to)
        elif 'init' not in d or d['init'] is None:
            env[d['id']] = self.newcell(Uninit(ty), ty)
        else:
            v = self.move_or_copy(d['init'])
            if isinstance(v, Obj): env[d['id']] = v
            else:
                if isinstance(v, InitList): v = self.coerce(v, ty)
                if isinstance(v, z3.ExprRef) and z3.is_int(v) and self.T.kind(ty)[0] == 'real': v = z3.ToReal(v)
                env[d['id']] = self.newcell(v, ty)
            f = self.dtor_of(ty)
            if f is not None and getattr(self, 'scopes', None): self.scopes[-1].append((env[d['id']], ty, f))
        for b in d.get('bindings', []):
            if 'hold' in b:
                self.declare(b['hold'])
                env[b['id']] = env[b['hold']['id']]
            elif 'e' in b: env[b['id']] = self.objlv(self.ev(b['e']), self.ty(b['e']))
            else: raise Unsupported('structured binding')

    def embedded(self, ty):
        t = ty.noref()
        return t.k == 'rec' and t.rid in self.prog.rec and self.prog.is_refcls(t.rid)

    def objlv(self, v, ty):
        """lvalue of a container slot holding an object -> the object"""
        if isinstance(v, LV) and self.embedded(ty):
            x = self.read(v)
            if isinstance(x, z3.ExprRef) and z3.is_int(x): return self.objwrap(v, ty)
        return v

    def new_embedded(self, ty, slot=None):
        """object living in a container slot (default constructed)"""
        t = ty.noref()
        o = Obj(self.alloc(t.rid), t)
        self.default_fields(o, t.rid)
        if slot is not None: self.own(o.ref, *slot)
        return o

    def own(self, ref, fkey, holder, key):
        self.assume(z3.And(OWNF(ref) == fcode(fkey), OWNR(ref) == holder, OWNK(ref) == key))

    def cond_of(self, s):
        if s.get('condvar'): self.declare(s['condvar'])
        if s['cond'] is None: return TRUE
        return self.rv(s['cond'])

    def s_IfStmt(self, s):
        if s.get('init'): self.ex(s['init'])
        if s.get('constexpr') and 'cexpr' in s:
            return self.ex(s['then'] if s['cexpr'] else s['else'])
        if self.branch(self.cond_of(s)): self.ex(s['then'])
        else: self.ex(s['else'])

    def s_ReturnStmt(self, s):
        c = s.get('c') or []
        if not c or c[0] is None: raise ReturnX(None)
        f = self.frames[-1].fn
        rt = self.prog.ty(f['ret'])
        if rt.k == 'ref': v = self.ev(c[0])
        else:
            v = self.move_or_copy(c[0])
            if isinstance(v, (InitList,)): v = self.coerce(v, rt)
            if isinstance(v, z3.ExprRef): v = self.coerce(v, rt)
        raise ReturnX(v)

    def s_BreakStmt(self, s): raise BreakX()

    def s_ContinueStmt(self, s): raise ContinueX()

    def s_SwitchStmt(self, s):
        if s.get('init'): self.ex(s['init'])
        v = self.cond_of(s)
        items = []           # flattened list of statements with their labels
        for c in s['body']['c']:
            labels = []
            while c is not None and c['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append(None if c['k'] == 'DefaultStmt' else c['lhs'])
                c = c['sub']
            items.append((labels, c))
        start = None
        dflt = None
        for i, (ls, c) in enumerate(items):
            for l in ls:
                if l is None: dflt = i; continue
                if start is None and self.branch(v == self.rv(l)): start = i
            if start is not None: break
        if start is None: start = dflt
        if start is None: return
        try:
            for ls, c in items[start:]: self.ex(c)
        except BreakX: pass

    def s_CXXTryStmt(self, s):
        try: self.ex(s['try'])
        except CxxThrow as x:
            for h in s['handlers']:
                if 'var' not in h or True:
                    if 'var' in h:
                        t = self.prog.ty(h['var']['t']).noref()
                        self.frames[-1].env[h['var']['id']] = self.newcell(MetaStruct(t, {}))
                    return self.ex(h['body'])
            raise

    def s_ForStmt(self, s):
        if s['init']: self.ex(s['init'])
        self.loop(s, lambda: self.cond_of(s), lambda: self.ex(s['body']), (lambda: self.ev(s['inc'])) if s['inc'] else None)

    def s_WhileStmt(self, s):
        self.loop(s, lambda: self.cond_of(s), lambda: self.ex(s['body']), None)

    def s_DoStmt(self, s):
        # the first iteration is executed as it is, then a while loop
        try: self.ex(s['body'])
        except ContinueX: pass
        except BreakX: return
        self.loop(s, lambda: self.cond_of(s), lambda: self.ex(s['body']), None)

    def s_CXXForRangeStmt(self, s):
        if s.get('init'): self.ex(s['init'])
        self.ex(s['range']); self.ex(s['begin']); self.ex(s['end'])

        def body():
            self.ex(s['var'])
            self.ex(s['body'])
        self.loop(s, lambda: self.rv(s['cond']), body, lambda: self.ev(s['inc']))


def sel(a, i, it=None):
    """select with syntactic read-over-write"""
    while z3.is_app_of(a, z3.Z3_OP_STORE):
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        d = z3.simplify(j - i) if z3.is_int(j) and z3.is_int(i) else None
        if d is not None and z3.is_int_value(d):
            if d.as_long() == 0: return a.arg(2)
            a = a.arg(0)
            continue
        if it is not None and d is not None and it.known_ne(j, i):
            a = a.arg(0)
            continue
        break
    if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY): return a.arg(0)
    return z3.Select(a, i)


class NullMeta: pass


MetaRef = DT('MetaRef', [('code', IntSort()), ('ref', IntSort())])
MetaRefS = MetaRef.sort
METACODES = {}
