"""Contracts on the state of a model: variables, evidences, clusters (C09, C17)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from c_group import vk, heaps, SET, VKey
from c_node import unchanged, CNODES, VAR, mdt, objs

ST = 'EFG::strct'
SA = ST + '::StateAware'
STATE = SA + '::state_'


def H(it, k, ref): return it.read(LV(('h', k, ref)))


def state(it, ref):
    """fields of the state by name"""
    v = H(it, STATE, ref)
    k = it.T.kind(it.ftypes[STATE])
    if k[0] != 'struct': raise Unsupported('representation of the state')
    return {n.split('::')[-1]: k[1].get(v, n) for n in k[1].names}


def vars_ok(it, v):
    i = z3.Int('i?v')
    x = VI.at(v, i)
    return [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < VI.len(v)), z3.And(x > 0, x < it.st.nextref, it.isinstance_(x, it.prog.recbyname['EFG::categoric::Variable'][0]['id']))), patterns=[x])]


class FindVariable(Contract):
    """the first variable having that name; refused when there is none"""
    keys = (SA + '::findVariable',)

    def pre(self, it, this, args): return [('valid variables', and_(vars_ok(it, state(it, this.ref)['variables'])))]

    def outcome(self, it, f, this, args, kind, v, old):
        vs, nm = state(it, this.ref)['variables'], it.read(args[0])
        hn = heaps(it)[0]
        j = it.fresh('j', IntSort())
        if kind == 'throw':
            it.check('refused only when no variable has that name', z3.Implies(z3.And(0 <= j, j < VI.len(vs)), hn[VI.at(vs, j)] != nm))
            return
        if isinstance(v, LV): v = it.read(v)
        q = z3.Int('q?f')
        it.check('a variable with that name', hn[v] == nm)
        it.check('a variable of the model', z3.Exists([q], z3.And(0 <= q, q < VI.len(vs), VI.at(vs, q) == v)))
        unchanged(it, old)


def keys_ok(it, dt, m):
    """keys of a map or set of variables: each stored object has the key it is stored under"""
    k = z3.Const('k?o', VKey.sort)
    x = z3.Select(dt.get(m, 'key'), k)
    return z3.ForAll([k], z3.Implies(dt.has(m, k), z3.And(x > 0, x < it.st.nextref, vk(*heaps(it), x) == k, it.isinstance_(x, it.prog.recbyname['EFG::categoric::Variable'][0]['id']))), patterns=[x, dt.has(m, k)])


def set_leaves(info):
    g = {}
    for l in info.leaves:
        if l.path and l.path[-1][0] == 'dt' and l.path[-1][1] is SET: g.setdefault((l.base[:2], l.path[:-1]), {})[l.path[-1][2]] = l
    return [d for d in g.values() if 'dom' in d]


def copied_hint(it, dt, m):
    k = z3.Const('k?h', VKey.sort)
    pos, sd = dt.get(m, 'pos'), dt.get(m, 'dom')

    def hint(it, info, entry, trans):
        out = []
        for d in set_leaves(info):
            dom, key = d['dom'], d['key']
            out.append(('visited so far', z3.ForAll([k], dom.sym[k] == z3.And(sd[k], pos[k] < info.n), patterns=[dom.sym[k]])))
            out.append(('keys of the source', z3.ForAll([k], z3.Implies(dom.sym[k], key.sym[k] == z3.Select(dt.get(m, 'key'), k)), patterns=[key.sym[k]])))
        for l in info.leaves:
            if l.sort == IntSort(): out.append(('as many as visited', l.sym == info.n))
        return out
    it.hints = [hint] + it.hints


class ObservedVars(Contract):
    """exactly the variables that have an evidence"""
    keys = (SA + '::getObservedVariables',)

    def ev(self, it, this):
        e = state(it, this.ref)['evidences']
        return e, it.dt_of(e.sort())

    def pre(self, it, this, args):
        e, dt = self.ev(it, this)
        return [('keys of the evidences', keys_ok(it, dt, e))]

    def setup(self, it, f, this, args):
        e, dt = self.ev(it, this)
        copied_hint(it, dt, e)

    def model(self, it, this, args):
        e, dt = self.ev(it, this)
        m = it.fresh('observed', SET.sort)
        it.assume(SET.wf(m))
        it.assume(SET.get(m, 'dom') == dt.get(e, 'dom'))
        it.assume(SET.get(m, 'key') == dt.get(e, 'key'))
        it.assume(SET.size(m) == dt.size(e))
        return m

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        if isinstance(v, LV): v = it.read(v)
        e, dt = self.ev(it, this)
        k = it.fresh('k', VKey.sort)
        it.check('exactly the observed variables', SET.has(v, k) == dt.has(e, k))
        it.check('the variables themselves', z3.Implies(dt.has(e, k), z3.Select(SET.get(v, 'key'), k) == z3.Select(dt.get(e, 'key'), k)))
        it.check('as many as evidences', SET.size(v) == dt.size(e))
        unchanged(it, old)


HID = z3.Function('hidden', VKey.sort, BoolSort())


class HiddenVars(Contract):
    """exactly the variables of the nodes of the clusters"""
    keys = (SA + '::getHiddenVariables',)

    def pre(self, it, this, args):
        cs = state(it, this.ref)['clusters']
        ldt, ndt = it.dt_of(cs.sort()), mdt(it, CNODES)
        c, n = z3.Ints('c?r n?r')
        ns = z3.Select(it.harr(CNODES, ndt.sort), c)
        v = z3.Select(it.harr(VAR, IntSort()), n)
        return [('valid nodes', z3.ForAll([c, n], z3.Implies(z3.And(ldt.has(cs, c), ndt.has(ns, n)), z3.And(n > 0, n < it.st.nextref, v > 0, v < it.st.nextref)), patterns=[ndt.has(ns, n)]))]

    def setup(self, it, f, this, args):
        cs = state(it, this.ref)['clusters']
        ldt, ndt = it.dt_of(cs.sort()), mdt(it, CNODES)
        c, n = [it.fresh(x, IntSort()) for x in ('cluster', 'node')]
        k = it.fresh('k', VKey.sort)
        it.assume(z3.And(c > 0, n > 0, c < it.st.nextref, n < it.st.nextref))
        ns = H(it, CNODES, c)
        g = z3.And(ldt.has(cs, c), ndt.has(ns, n))
        key = vk(*heaps(it), H(it, VAR, n))
        pc, pn = z3.Select(ldt.get(cs, 'pos'), c), z3.Select(ndt.get(ns, 'pos'), n)
        # any property of keys that the variables of all the nodes have
        c2, n2 = z3.Ints('c?r n?r')
        ns2 = z3.Select(it.harr(CNODES, ndt.sort), c2)
        it.assume(z3.ForAll([c2, n2], z3.Implies(z3.And(ldt.has(cs, c2), ndt.has(ns2, n2)), HID(vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), n2)))), patterns=[ndt.has(ns2, n2)]))
        self.x = (g, key, k)

        def hint(it, info, entry, trans):
            out = []
            N = info.n
            for d in set_leaves(info):
                dom = d['dom']
                out.append(('only variables of the nodes', z3.Implies(dom.sym[k], HID(k))))
                out.append(('clusters so far', z3.Implies(z3.And(g, pc < N), dom.sym[key])))
                out.append(('kept', z3.Implies(dom.init[key], dom.sym[key])))
                for o in objs(it): out.append(('nodes so far', z3.Implies(z3.And(g, o == c, pn < N), dom.sym[key])))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        if isinstance(v, LV): v = it.read(v)
        g, key, k = self.x
        it.check('the variable of every node of every cluster', z3.Implies(g, SET.has(v, key)))
        it.check('nothing else', z3.Implies(SET.has(v, k), HID(k)))
        unchanged(it, old)


class FindPositions(Contract):
    """the position of each variable among all of them, in the order of the set"""
    keys = ('EFG::model::(anonymous namespace)::find_positions',)

    def pre(self, it, this, args):
        a, s = it.read(args[0]), it.read(args[1])
        return [('keys of the set', keys_ok(it, SET, s))]

    def cond(self, it, a, s, r, j, q):
        x = z3.Select(SET.get(s, 'key'), z3.Select(SET.get(s, 'seq'), j))
        p = VI.at(r, j)
        return z3.Implies(z3.And(0 <= j, j < SET.size(s)), z3.And(0 <= p, p <= VI.len(a), z3.Implies(p < VI.len(a), VI.at(a, p) == x), z3.Implies(z3.And(0 <= q, q < p), VI.at(a, q) != x)))

    def setup(self, it, f, this, args):
        a, s = it.read(args[0]), it.read(args[1])
        j, q = self.j = it.fresh('j', IntSort()), it.fresh('q', IntSort())

        def hint(it, info, entry, trans):
            out, N = [], info.n
            for l in info.leaves:
                if l.sort == IntSort(): out.append(('length so far', l.sym == N))
                if l.sort == z3.ArraySort(IntSort(), IntSort()):
                    r = VI.new(N, l.sym)
                    out.append(('positions so far', z3.Implies(j < N, self.cond(it, a, s, r, j, q))))
            return out
        it.hints = [hint] + it.hints

    def model(self, it, this, args):
        a, s = it.read(args[0]), it.read(args[1])
        r = it.fresh('positions', VI.sort)
        it.assume(z3.And(VI.wf(r), VI.len(r) == SET.size(s)))
        j, q = z3.Ints('j?p q?p')
        it.assume(z3.ForAll([j, q], self.cond(it, a, s, r, j, q), patterns=[z3.MultiPattern(VI.at(r, j), VI.at(a, q))]))
        return r

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        if isinstance(v, LV): v = it.read(v)
        a, s = it.read(args[0]), it.read(args[1])
        it.check('one position per variable', VI.len(v) == SET.size(s))
        it.check('the position of the variable', self.cond(it, a, s, v, *self.j))
        unchanged(it, old)


ALL = [FindVariable(), ObservedVars(), HiddenVars(), FindPositions()]
