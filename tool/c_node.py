"""Contracts of the nodes, connections and clusters of a graph (C09, C10, C11)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from c_group import vk, heaps

ST = 'EFG::strct'
ANON = ST + '::(anonymous namespace)'
NO = ST + '::Node'
CN = NO + '::Connection'
ACT, DIS, UNA, VAR, MER = [NO + '::' + x for x in ('active_connections', 'disabled_connections', 'unary_factors', 'variable', 'merged_unaries')]
MSG, FAC = CN + '::message', CN + '::factor'


def H(it, k, ref): return it.read(LV(('h', k, ref)))


def old_arr(it, old, k):
    a = old.heap.get(k)
    if a is None: a = it.harr(k, it.fsorts[k]) if k not in it.entry_arrays else it.entry_arrays[k]
    return a


def mdt(it, k):
    kk = it.T.kind(it.ftypes[k])
    if kk[0] != 'map': raise Unsupported('representation of ' + k)
    return kk[1]


class Link(Contract):
    """the two nodes become linked, symmetrically and only through one map, by two fresh or reset connections holding the factor"""
    M, O = ACT, DIS

    def parts(self, it, args): return args[0].ref, args[1].ref, it.read(args[2])

    def pre(self, it, this, args):
        a, b, f = self.parts(it, args)
        return [('different nodes', a != b)]

    def refuse(self, it, a, b, f): return FALSE, f

    def model(self, it, this, args):
        a, b, f = self.parts(it, args)
        bad, f = self.refuse(it, a, b, f)
        if it.branch(bad): raise CxxThrow('EFG::Error')
        dt = mdt(it, self.M)
        res = []
        for x, y in ((a, b), (b, a)):
            lv = LV(('h', self.O, x))
            if it.branch(dt.has(it.read(lv), y)): it.write(lv, it.map_del(it.read(lv), dt, y))
        for x, y in ((a, b), (b, a)):
            lv = LV(('h', self.M, x))
            m = it.read(lv)
            ty = it.T.kind(it.ftypes[self.M])[4]
            if it.branch(dt.has(m, y)): o = Obj(dt.val(m, y), ty)
            else:
                o = it.new_embedded(ty, (self.M, x, y))
                it.write(lv, it.map_put(it.read(lv), dt, y, y, o.ref, False)[0])
            it.write(LV(('h', MSG, o.ref)), I0)
            it.write(LV(('h', FAC, o.ref)), f)
            res.append(o.ref)
        return MetaStruct(None, {'first': res[0], 'second': res[1]})

    def outcome(self, it, f, this, args, kind, v, old):
        a, b, fa = self.parts(it, args)
        now = it.st
        it.st = old.copy(); it.st.pc = now.pc
        try: bad, fa = self.refuse(it, a, b, fa)
        finally: it.st = now
        if kind == 'throw':
            it.check('refused only when no connection exists', bad)
            for k in (ACT, DIS, MSG, FAC):
                r = it.fresh('r', IntSort())
                it.check('unchanged after refusal', it.val_eq(sel(old_arr(it, old, k), r), sel(it.harr(k, it.fsorts[k]), r)))
            return
        it.check('refused when no connection exists', z3.Not(bad))
        dt = mdt(it, self.M)
        if isinstance(v, LV): v = it.read(v)
        from c_graph import pair_of
        res = pair_of(it, v, it.prog.ty(f['ret']))
        k = it.fresh('k', IntSort())
        q = it.fresh('q', IntSort())
        conns = []
        for n, (x, y) in enumerate(((a, b), (b, a))):
            m1, m0 = H(it, self.M, x), sel(old_arr(it, old, self.M), x)
            o1, o0 = H(it, self.O, x), sel(old_arr(it, old, self.O), x)
            c = dt.val(m1, y)
            conns.append(c)
            it.check('linked', z3.And(dt.has(m1, y), c > 0))
            it.check('holding the factor and no message', z3.And(H(it, FAC, c) == fa, H(it, MSG, c) == 0))
            it.check('not linked the other way', z3.Not(dt.has(o1, y)))
            it.check('other links of the node unchanged', z3.Implies(k != y, z3.And(dt.has(m1, k) == dt.has(m0, k), dt.has(o1, k) == dt.has(o0, k),
                     z3.Implies(dt.has(m1, k), dt.val(m1, k) == dt.val(m0, k)), z3.Implies(dt.has(o1, k), dt.val(o1, k) == dt.val(o0, k)))))
            r = res[n]
            it.check('the connection is returned', (r.ref if isinstance(r, Obj) else r) == c)
        for fk in (ACT, DIS):
            r = it.fresh('r', IntSort())
            x0, x1 = sel(old_arr(it, old, fk), r), sel(it.harr(fk, it.fsorts[fk]), r)
            it.check('links of other nodes unchanged', z3.Implies(z3.And(r != a, r != b), it.val_eq(x0, x1)))
        for fk in (MSG, FAC):
            x0, x1 = sel(old_arr(it, old, fk), q), sel(it.harr(fk, it.fsorts[fk]), q)
            it.check('other connections unchanged', z3.Implies(z3.And(0 < q, q < old.nextref, q != conns[0], q != conns[1]), x0 == x1))
        for fk in it.st.heap:
            if fk in (ACT, DIS, MSG, FAC, '$tag'): continue
            r = it.fresh('r', IntSort())
            it.check('unchanged: ' + fk, it.val_eq(sel(old_arr(it, old, fk), r), sel(it.st.heap[fk], r)))


class Activate(Link):
    keys = (NO + '::activate',)


class Disable(Link):
    """as above, the factor of the active connection being kept when none is given"""
    keys = (NO + '::disable',)
    M, O = DIS, ACT

    def refuse(self, it, a, b, f):
        dt = mdt(it, ACT)
        m = H(it, ACT, a)
        return z3.And(f == 0, z3.Not(dt.has(m, b))), z3.If(f == 0, H(it, FAC, dt.val(m, b)), f)


ALL = [Activate(), Disable()]


# ------------------------------------------------------------------ unary information of a node
VR_ = None
CL = ST + '::HiddenCluster'
CNODES, CCONN = CL + '::nodes', CL + '::connectivity'


def node_ok(it, n):
    """the connections of a node hold factors"""
    return TRUE


def message_at(it, d, i):
    """message of the i-th connection of a map of connections"""
    dt = mdt(it, DIS)
    return it.harr(MSG, IntSort())[dt.val(d, z3.Select(dt.get(d, 'seq'), i))]


class GatherUnaries(Contract):
    """the unary factors of the node followed by the messages of its disabled connections"""
    keys = (ANON + '::gather_unaries',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec(NO)

    def facts(self, it, n, r, j):
        u, d = H(it, UNA, n), H(it, DIS, n)
        dt = mdt(it, DIS)
        return (VI.len(r) == VI.len(u) + dt.size(d),
                z3.Implies(z3.And(0 <= j, j < VI.len(r)), VI.at(r, j) == z3.If(j < VI.len(u), VI.at(u, j), message_at(it, d, j - VI.len(u)))))

    def model(self, it, this, args):
        r = it.fresh('unaries', VI.sort)
        j = z3.Int('j?u')
        it.assume(VI.wf(r))
        a, b = self.facts(it, args[0].ref, r, j)
        it.assume(a)
        it.assume(z3.ForAll([j], b, patterns=[VI.at(r, j)]))
        return r

    def setup(self, it, f, this, args):
        n = args[0].ref
        u, d = H(it, UNA, n), H(it, DIS, n)
        dt = mdt(it, DIS)
        j = self.j = it.fresh('any', IntSort())

        def hint(it, info, entry, trans):
            out = []
            n = info.n
            for l in info.leaves:
                if l.sort == IntSort():
                    out.append(('length so far', l.sym == VI.len(u) + n))
                if l.sort == z3.ArraySort(IntSort(), IntSort()):
                    out.append(('unary factors', z3.Implies(z3.And(0 <= j, j < n, j < VI.len(u)), l.sym[j] == VI.at(u, j))))
                    out.append(('unary factors', z3.Implies(z3.And(0 <= j, j < VI.len(u)), l.sym[j] == VI.at(u, j))))
                    out.append(('messages', z3.Implies(z3.And(VI.len(u) <= j, j < VI.len(u) + n), l.sym[j] == message_at(it, d, j - VI.len(u)))))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        v = it.read(v) if isinstance(v, LV) else v
        a, b = self.facts(it, args[0].ref, v, self.j)
        it.check('as many as unary factors and disabled connections', a)
        it.check('the unary factors and the messages', b)


def objs(it):
    """objects held by the variables of the function under verification"""
    res = {}
    for fr in it.frames:
        for v in fr.env.values():
            if isinstance(v, LV) and v.root[0] == 'c' and not v.path:
                x = it.st.cells.get(v.root[1])
                t = it.st.ctype.get(v.root[1])
                if isinstance(x, z3.ExprRef) and z3.is_int(x) and t is not None and it.T.kind(t)[0] == 'ref': v = Obj(x, None)
            if isinstance(v, Obj): res[v.ref.get_id()] = v.ref
    return list(res.values())


class ResetMessages(Contract):
    """no active connection of any node of the clusters holds a message any more; nothing else changes"""
    keys = (ANON + '::reset_messages',)

    def sig(self, prog, f): return len(f['ps']) == 1

    def at(self, it, cs, c, n, k):
        kk = it.T.kind(it.prog.ty(it.prog.recbyname[ST + '::StateAware::GraphState'][0]['t']))
        ldt = it.dt_of(cs.sort())
        ns = H(it, CNODES, c)
        ndt = mdt(it, CNODES)
        m = H(it, ACT, n)
        dt = mdt(it, ACT)
        return (z3.And(ldt.has(cs, c), ndt.has(ns, n), dt.has(m, k)), dt.val(m, k), z3.Select(ldt.get(cs, 'pos'), c), z3.Select(ndt.get(ns, 'pos'), n), z3.Select(dt.get(m, 'pos'), k))

    def pre(self, it, this, args):
        cs = it.read(args[0])
        ldt = it.dt_of(cs.sort())
        ndt = mdt(it, CNODES)
        c, n = z3.Ints('c?r n?r')
        ns = z3.Select(it.harr(CNODES, ndt.sort), c)
        return [('valid nodes', z3.ForAll([c, n], z3.Implies(z3.And(ldt.has(cs, c), ndt.has(ns, n)), z3.And(n > 0, n < it.st.nextref)), patterns=[ndt.has(ns, n)]))]

    def model(self, it, this, args):
        cs = it.read(args[0])
        a0 = it.harr(MSG, IntSort())
        a = it.fresh('messages', a0.sort())
        c, n, k, q = z3.Ints('c?r n?r k?r q?r')
        g, x, _, _, _ = self.at(it, cs, c, n, k)
        dt, ndt = mdt(it, ACT), mdt(it, CNODES)
        it.assume(z3.ForAll([c, n, k], z3.Implies(g, a[x] == 0), patterns=[z3.MultiPattern(ndt.has(z3.Select(it.harr(CNODES, ndt.sort), c), n), x)]))
        it.assume(z3.ForAll([q], z3.Or(a[q] == 0, a[q] == a0[q]), patterns=[a[q]]))
        act = fcode(ACT)
        it.assume(z3.ForAll([q], z3.Implies(OWNF(q) != act, a[q] == a0[q]), patterns=[a[q]]))
        it.st.heap[MSG] = a

    def setup(self, it, f, this, args):
        cs = it.read(args[0])
        c, n, k = [it.fresh(x, IntSort()) for x in ('cluster', 'node', 'neighbour')]
        it.assume(z3.And(c > 0, n > 0, c < it.st.nextref, n < it.st.nextref))
        r = it.fresh('r', IntSort())
        self.c = (c, n, k, r)
        g, x, pc, pn, pk = self.at(it, cs, c, n, k)
        q0 = it.harr(MSG, IntSort())[r]
        x0 = it.harr(MSG, IntSort())[x]
        self.x = (g, x, q0, x0)

        def hint(it, info, entry, trans):
            out = []
            N = info.n
            for l in info.leaves:
                if l.sort == z3.ArraySort(IntSort(), IntSort()):
                    a = l.sym
                    e = l.init
                    out.append(('messages are only dropped', z3.Or(a[r] == q0, a[r] == 0)))
                    out.append(('messages are only dropped', z3.Or(a[x] == x0, a[x] == 0)))
                    out.append(('others unchanged', z3.Implies(OWNF(r) != fcode(ACT), a[r] == q0)))
                    out.append(('clusters so far', z3.Implies(z3.And(g, pc < N), a[x] == 0)))
                    for o in objs(it):
                        out.append(('nodes so far', z3.Implies(z3.And(g, o == c, pn < N), a[x] == 0)))
                        out.append(('connections so far', z3.Implies(z3.And(g, o == n, pk < N), a[x] == 0)))
                    out.append(('dropped messages stay so', z3.Implies(e[x] == 0, a[x] == 0)))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        g, x, q0, x0 = self.x
        a = it.harr(MSG, IntSort())
        r = self.c[3]
        it.check('no message is left', z3.Implies(g, a[x] == 0))
        it.check('other messages are kept', z3.Implies(OWNF(r) != fcode(ACT), a[r] == q0))
        for fk in it.st.heap:
            if fk == MSG: continue
            it.check('unchanged: ' + fk, TRUE if it.st.heap[fk].eq(old_arr(it, old, fk)) else FALSE)


ALL += [GatherUnaries(), ResetMessages()]


# ------------------------------------------------------------------ caches
class CacheReset(Contract):
    keys = ('EFG::Cache::reset',)

    def sig(self, prog, f): return len(f['ps']) == 0

    def model(self, it, this, args): it.write(cached(it, this), I0)


class CacheSet(Contract):
    keys = ('EFG::Cache::reset',)

    def sig(self, prog, f): return len(f['ps']) == 1

    def pre(self, it, this, args): return [('not null', it.read(args[0]) > 0)]

    def model_f(self, it, f, this, args):
        x = it.read(args[0])
        it.write(cached(it, this), x)
        return it.ptr_target(x, it.prog.ty(f['ret']).noref(), 'operator*')

    def model(self, it, this, args): return self.model_f(it, it.prog.fn[it.verifying_fn], this, args)


class CacheEmpty(Contract):
    keys = ('EFG::Cache::empty',)

    def model(self, it, this, args): return it.read(cached(it, this)) == 0


class CacheGet(Contract):
    """refused while empty"""
    keys = ('EFG::Cache::get',)

    def model_f(self, it, f, this, args):
        x = it.read(cached(it, this))
        if it.branch(x == 0): raise CxxThrow('EFG::Error')
        t = it.prog.ty(f['ret']).noref().to
        r = it.ptr_target(x, t, 'operator->')
        return r.ref if isinstance(r, Obj) else r

    def model(self, it, this, args): return self.model_f(it, it.prog.fn[it.verifying_fn], this, args)


def cached(it, lv):
    v = it.read(lv)
    if isinstance(v, z3.ExprRef):
        for dt in it.T.structs.values():
            if dt.sort == v.sort() and dt.names == ['$b0']: return lv.ext(('f', dt, '$b0'))
    raise Unsupported('representation of a cache')


def merged(it, n): return it.read(cached(it, LV(('h', MER, n))))


ALL += [CacheReset(), CacheSet(), CacheEmpty(), CacheGet()]


class UpdateMerged(Contract):
    """the merged unaries are rebuilt from exactly the unary factors and the messages of the disabled connections"""
    keys = (NO + '::updateMergedUnaries',)
    light = True

    def pre(self, it, this, args): return hidden_ok(it, this.ref)

    def model(self, it, this, args):
        from c_message import made, UVAR
        from c_factor import IM, MU
        n = this.ref
        m = it.alloc(it.prog.recbyname['EFG::factor::MergedUnaries'][0]['id'])
        it.write(LV(('h', UVAR, m)), H(it, VAR, n))
        u, d = H(it, UNA, n), H(it, DIS, n)
        dt = mdt(it, DIS)
        l = it.fresh('merged', VI.sort)
        it.assume(VI.wf(l))
        j = z3.Int('j?u')
        a, b = GatherUnaries().facts(it, n, l, j)
        it.assume(a)
        it.assume(z3.ForAll([j], b, patterns=[VI.at(l, j)]))
        made(it, m, z3.If(VI.len(l) == 0, z3.IntVal(5), z3.IntVal(1)), z3.If(VI.len(l) == 0, H(it, VAR, n), I0), l=l)
        it.write(cached(it, LV(('h', MER, n))), m)

    def outcome(self, it, f, this, args, kind, v, old):
        from c_message import MADE, MLIST, UVAR
        if kind == 'throw': it.check('does not throw', FALSE); return
        n = this.ref
        m = merged(it, n)
        it.check('a new factor', m >= old.nextref)
        it.check('over the variable of the node', H(it, UVAR, m) == H(it, VAR, n))
        u, d = H(it, UNA, n), H(it, DIS, n)
        dt = mdt(it, DIS)
        z = VI.len(u) + dt.size(d)
        K, A, L = [z3.Select(it.harr(k, it.fsorts[k]), m) for k in (MADE[0], MADE[1], MLIST)]
        it.check('neutral when there is nothing to merge', z3.Implies(z == 0, z3.And(K == 5, A == H(it, VAR, n))))
        j = it.fresh('j', IntSort())
        a, b = GatherUnaries().facts(it, n, L, j)
        it.check('merged from the unary factors and the messages', z3.Implies(z > 0, z3.And(K == 1, a, b)))
        unchanged(it, old, (), {MER: [n]})


def unchanged(it, old, skip=(), refs={}):
    """nothing that existed before changes, but for the fields in skip and the listed objects"""
    for fk in sorted(it.st.heap):
        if fk in skip or fk == '$tag': continue
        a, b = old_arr(it, old, fk), it.st.heap[fk]
        if a.eq(b): continue
        r = it.fresh('r', IntSort())
        g = [0 < r, r < old.nextref] + [r != x for x in refs.get(fk, [])]
        it.check('unchanged: ' + fk, z3.Implies(z3.And(*g), it.val_eq(sel(a, r), sel(b, r))))


def hidden_ok(it, n):
    """what is merged into a node is over its variable only"""
    from c_factor import vars_of, IMCLS
    u, d = H(it, UNA, n), H(it, DIS, n)
    dt = mdt(it, DIS)
    j, k = z3.Ints('j?n k?n')
    v = H(it, VAR, n)

    def ok(r): return z3.And(r > 0, r < it.st.nextref, it.isinstance_(r, IMCLS(it)), VI.len(vars_of(it, r)) == 1, VI.at(vars_of(it, r), 0) == v)
    x = it.harr(MSG, IntSort())[dt.val(d, k)]
    from c_message import isvar
    return [('a variable', isvar(it, v)), ('unary factors over the variable', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(u)), ok(VI.at(u, j))), patterns=[VI.at(u, j)])),
            ('messages over the variable', z3.ForAll([k], z3.Implies(dt.has(d, k), ok(x)), patterns=[dt.val(d, k)]))]


ALL += [UpdateMerged()]


# ------------------------------------------------------------------ messages
TI = CL + '::TopologyInfo'
SND, TCON, DEPS = TI + '::sender', TI + '::connection', TI + '::dependencies'


class UpdateMessage(Contract):
    """the message becomes the one made from the merge of the sender's unaries and the messages it depends on, through the
    factor of the connection, when all of them are available; otherwise nothing changes"""
    keys = (TI + '::updateMessage',)
    light = True

    def parts(self, it, t):
        s, c, d = H(it, SND, t), H(it, TCON, t), H(it, DEPS, t)
        return s, c, d

    def pre(self, it, this, args):
        from c_factor import vars_of, IMCLS
        from c_message import UVAR
        s, c, d = self.parts(it, this.ref)
        v = H(it, VAR, s)
        msg = it.harr(MSG, IntSort())
        j = z3.Int('j?p')

        def ok(r): return z3.And(r < it.st.nextref, z3.Implies(r > 0, z3.And(it.isinstance_(r, IMCLS(it)), VI.len(vars_of(it, r)) == 1, VI.at(vars_of(it, r), 0) == v)))
        f = H(it, FAC, c)
        fv = vars_of(it, f)
        m, p = merged(it, s), H(it, MSG, c)
        return [('sender and connection', z3.And(s > 0, s < it.st.nextref, c > 0, c < it.st.nextref)),
                ('unaries of the sender', ok(m)),
                ('messages to the sender', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(d)), z3.And(VI.at(d, j) > 0, VI.at(d, j) < it.st.nextref, ok(msg[VI.at(d, j)]))), patterns=[VI.at(d, j)])),
                ('binary factor of the sender', z3.And(f > 0, f < it.st.nextref, VI.len(fv) == 2, z3.Or(VI.at(fv, 0) == v, VI.at(fv, 1) == v))),
                ('previous message', z3.Implies(p > 0, H(it, UVAR, p) == z3.If(VI.at(fv, 0) == v, VI.at(fv, 1), VI.at(fv, 0)))),
                ('a kind of propagation', z3.Or(it.read(args[0]) == 0, it.read(args[0]) == 1))]

    def setup(self, it, f, this, args):
        s, c, d = self.parts(it, this.ref)
        j = self.j = it.fresh('any', IntSort())
        msg = it.harr(MSG, IntSort())
        m = merged(it, s)

        def hint(it, info, entry, trans):
            out, n = [], info.n
            q = z3.Int('q?h')
            for l in info.leaves:
                if l.sort == z3.ArraySort(IntSort(), IntSort()):
                    out.append(('messages so far', z3.Implies(z3.And(0 <= j, j < n), l.sym[j + 1] == msg[VI.at(d, j)])))
                    out.append(('messages so far', z3.ForAll([q], z3.Implies(z3.And(1 <= q, q <= n), l.sym[q] == msg[VI.at(d, q - 1)]), patterns=[l.sym[q]])))
                    out.append(('unaries first', l.sym[0] == m))
            out.append(('available', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), msg[VI.at(d, q)] != 0), patterns=[VI.at(d, q)])))
            return out
        it.hints = [hint] + it.hints

    def avail(self, it, d, msg):
        q = z3.Int('q?h')
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < VI.len(d)), msg[VI.at(d, q)] != 0), patterns=[VI.at(d, q)])

    def outcome(self, it, f, this, args, kind, v, old):
        from c_message import MADE, MLIST, DIST
        s, c, d = self.parts(it, this.ref)
        msg = old_arr(it, old, MSG)
        m = sel(cached_of(it, old_arr(it, old, MER)), s) if False else merged(it, s)
        if kind == 'throw':
            it.check('refused only without the unaries of the sender', m == 0)
            unchanged(it, old)
            return
        it.check('refused without the unaries of the sender', m != 0)
        ok = it.T.kind(it.prog.ty(f['ret']))
        if ok[0] != 'opt': raise Unsupported('result')
        if isinstance(v, LV): v = it.read(v)
        has, val = ok[1].has(v), ok[1].get(v)
        j = self.j
        it.check('computed only when all the messages are available', z3.Implies(z3.And(has, 0 <= j, j < VI.len(d)), msg[VI.at(d, j)] != 0))
        w = H(it, MSG, c)
        K, A, B = [z3.Select(it.harr(k, it.fsorts[k]), w) for k in MADE[:3]]
        it.check('a message of the requested kind, through the factor of the connection', z3.Implies(has, z3.And(w >= old.nextref, K == z3.If(it.read(args[0]) == 0, z3.IntVal(2), z3.IntVal(3)), B == H(it, FAC, c))))
        KA, L = [z3.Select(it.harr(k, it.fsorts[k]), A) for k in (MADE[0], MLIST)]
        it.check('from the unaries of the sender', z3.Implies(has, z3.And(KA == 1, VI.len(L) == 1 + VI.len(d), VI.at(L, 0) == m)))
        it.check('and the messages it depends on', z3.Implies(z3.And(has, 0 <= j, j < VI.len(d)), VI.at(L, j + 1) == msg[VI.at(d, j)]))
        p = msg[c]
        it.check('variation with respect to the previous message', z3.Implies(z3.And(has, p != 0), val == DIST(p, w)))
        it.check('largest variation for a first message', z3.Implies(z3.And(has, p == 0), val > 10 ** 38))
        x = it.fresh('missing', IntSort())
        now = it.st.pc
        unchanged(it, old, (), {MSG: [c]})
        it.check('nothing changes otherwise', z3.Implies(z3.Not(has), w == p))
        it.assume(self.avail(it, d, msg))
        it.check('computed when all the messages are available', has)


ALL += [UpdateMessage()]
