"""Contracts of the functions that edit a graph: insertion of factors, evidences (C09, C10)."""
import z3
from z3 import *
from sorts import *
from interp import *
from verify import Contract
from spec import VI
from c_group import vk, heaps, SET, VKey
from c_node import unchanged, CNODES, CCONN, VAR, ACT, DIS, UNA, MER, MSG, FAC, mdt, objs, cached, old_arr, NO, CL
from c_state import H, state, STATE, SA, ST, keys_ok

FA = ST + '::FactorsAware'
BA = ST + '::BeliefAware'
LAST = BA + '::lastPropagation'
CLU = z3.Function('cluster_of', IntSort(), IntSort())      # the cluster that holds a hidden node


def slv(it, ref, name):
    k = it.T.kind(it.ftypes[STATE])
    if k[0] != 'struct': raise Unsupported('representation of the state')
    fn = next((n for n in k[1].names if n.split('::')[-1] == name), None)
    if fn is None: raise Unsupported('field ' + name + ' of the state')
    return LV(('h', STATE, ref), (('f', k[1], fn),))


def kinds(it):
    """map sorts of nodes, clusters, evidences"""
    k = it.T.kind(it.ftypes[STATE])
    d = {n.split('::')[-1]: it.T.kind(t) for n, t in k[2].items()}
    for x in ('nodes', 'clusters', 'evidences'):
        if d[x][0] != 'map': raise Unsupported('representation of ' + x)
    return d


def is_var(it, x): return it.isinstance_(x, it.prog.recbyname['EFG::categoric::Variable'][0]['id'])


def read_cache(it, v):
    """what a cache holds"""
    for dt in it.T.structs.values():
        if dt.sort == v.sort() and dt.names == ['$b0']: return dt.get(v, '$b0')
    raise Unsupported('representation of a cache')


def state_ok(it, ref, CLU=CLU):
    """nodes are stored under their variable; evidences are variables of the model; every hidden node is in one cluster,
    clusters hold hidden nodes of the model only"""
    S, K = state(it, ref), kinds(it)
    N, C, E = [K[x][1] for x in ('nodes', 'clusters', 'evidences')]
    nodes, cs, ev = S['nodes'], S['clusters'], S['evidences']
    k = z3.Const('k?s', VKey.sort)
    c, m = z3.Ints('c?s m?s')
    n = N.val(nodes, k)
    var = it.harr(VAR, IntSort())
    ndt = mdt(it, CNODES)
    cn = z3.Select(it.harr(CNODES, ndt.sort), c)
    own = z3.Select(it.harr(CNODES, ndt.sort), CLU(n))
    vm = vk(*heaps(it), var[m])
    return [('nodes stored under their variable', z3.ForAll([k], z3.Implies(N.has(nodes, k), z3.And(n > 0, n < it.st.nextref, it.isinstance_(n, it.prog.recbyname[NO][0]['id']), var[n] > 0, var[n] < it.st.nextref, is_var(it, var[n]), vk(*heaps(it), var[n]) == k, z3.Select(N.get(nodes, 'key'), k) == var[n])), patterns=[n, N.has(nodes, k)])),
            ('evidences of the model', z3.ForAll([k], z3.Implies(E.has(ev, k), z3.And(N.has(nodes, k), z3.Select(E.get(ev, 'key'), k) == var[n])), patterns=[E.has(ev, k)])),
            ('keys of the evidences', keys_ok(it, E, ev)),
            ('hidden nodes in a cluster', z3.ForAll([k], z3.Implies(z3.And(N.has(nodes, k), z3.Not(E.has(ev, k))), z3.And(C.has(cs, CLU(n)), ndt.has(own, n))), patterns=[n])),
            ('clusters', z3.ForAll([c], z3.Implies(C.has(cs, c), z3.And(c > 0, c < it.st.nextref)), patterns=[C.has(cs, c)])),
            ('nodes of the clusters', z3.ForAll([c, m], z3.Implies(z3.And(C.has(cs, c), ndt.has(cn, m)), z3.And(m > 0, m < it.st.nextref, c == CLU(m), N.has(nodes, vm), N.val(nodes, vm) == m, z3.Not(E.has(ev, vm)))), patterns=[ndt.has(cn, m)]))]


def nodeof(it, S, N, m):
    """m is a node of the model"""
    vm = vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), m))
    return z3.And(m > 0, m < it.st.nextref, N.has(S['nodes'], vm), N.val(S['nodes'], vm) == m)


def observed(it, S, E, m): return E.has(S['evidences'], vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), m)))


def links_at(it, ref, n, m, CLU, M0=None):
    S, K = state(it, ref), kinds(it)
    N, C, E = [K[x][1] for x in ('nodes', 'clusters', 'evidences')]
    dt = mdt(it, ACT)
    A, D = M0 or [it.harr(x, dt.sort) for x in (ACT, DIS)]
    fac = it.harr(FAC, IntSort())
    res = []
    for nm, M, O in (('active', A, D), ('disabled', D, A)):
        a, b = M[n], M[m]
        what = z3.And(z3.Not(observed(it, S, E, n)), z3.Not(observed(it, S, E, m)), CLU(n) == CLU(m) if CLU is not None else TRUE) if nm == 'active' else z3.Or(observed(it, S, E, n), observed(it, S, E, m))
        g = z3.And(nodeof(it, S, N, n), dt.has(a, m))
        res += [('%s connections are symmetric' % nm, g, z3.And(nodeof(it, S, N, m), n != m, dt.has(b, n), z3.Not(dt.has(O[n], m))), dt.has(a, m)),
                ('%s connections hold one factor' % nm, g, z3.And(dt.val(a, m) > 0, dt.val(a, m) < it.st.nextref, fac[dt.val(a, m)] == fac[dt.val(b, n)], fac[dt.val(a, m)] > 0), dt.has(a, m)),
                ('%s: the factor is over the two variables' % nm, g, over(it, fac[dt.val(a, m)], z3.Select(it.harr(VAR, IntSort()), n), z3.Select(it.harr(VAR, IntSort()), m)), dt.has(a, m)),
                ('%s exactly for %s nodes' % (nm, 'hidden' if nm == 'active' else 'observed'), g, what, dt.has(a, m))]
    return res


def over(it, f, x, y):
    """a factor over the two variables"""
    from c_factor import vars_of, IMCLS
    v = vars_of(it, f)
    a, b = VI.at(v, 0), VI.at(v, 1)
    return z3.And(f > 0, f < it.st.nextref, it.isinstance_(f, IMCLS(it)), VI.len(v) == 2, z3.Or(z3.And(a == x, b == y), z3.And(a == y, b == x)))


def links_ok(it, ref, CLU=CLU):
    """connections are symmetric, hold one factor, are active between hidden nodes of one cluster, disabled when one is observed"""
    n, m = z3.Ints('n?l m?l')
    return [(nm, z3.ForAll([n, m], z3.Implies(g, x), patterns=[p])) for nm, g, x, p in links_at(it, ref, n, m, CLU)]


def check_links(it, old, ref, CLU, pairs=()):
    """the same after the function, for any two nodes; pairs: nodes whose connections were changed"""
    n, m = it.fresh('n', IntSort()), it.fresh('m', IntSort())
    it.assume(z3.And(n > 0, n < it.st.nextref, m > 0, m < it.st.nextref))

    def load():
        for k in (ACT, DIS):
            for r in (n, m): H(it, k, r)
    load()
    at_old(it, old, load)
    ch = z3.Or(*[z3.Or(z3.And(n == a, m == b), z3.And(n == b, m == a)) for a, b in pairs])
    for nm, g, x, p in links_at(it, ref, n, m, CLU):
        it.check('kept: ' + nm, z3.Implies(z3.And(g, z3.Not(ch)), x))
        if pairs: it.check('kept for the changed ones: ' + nm, z3.Implies(z3.And(g, ch), x))


def var_arg(it, a):
    v = it.read(a)
    return v, vk(*heaps(it), v)


def valid_var(it, v): return ('a variable', z3.And(v > 0, v < it.st.nextref, is_var(it, v)))


def location(it, f_ret, node, alt, itr):
    t = f_ret
    fs = {fk.split('::')[-1]: fk for fk, _, _ in it.T.fields(t.rid)}
    return MetaStruct(t, {fs['node']: node, fs['location']: MetaVar(alt, itr)})


def loc_parts(it, v):
    if isinstance(v, LV): v = it.read(v)
    if not isinstance(v, MetaStruct): raise Unsupported('location')
    d = {fk.split('::')[-1]: x for fk, x in v.f.items()}
    l = d['location']
    if isinstance(l, LV): l = it.read(l)
    if not isinstance(l, MetaVar): raise Unsupported('location')
    n = d['node']
    if isinstance(n, LV): n = it.read(n)
    return (n.ref if isinstance(n, Obj) else n), l.i, l.v


def mk_iter(it, ref, name, key):
    k = kinds(it)[name]
    r = Iter('map', slv(it, ref, name), k[1], None, key=key, has=TRUE, info=k[2])
    r.oty = k[3]
    return r


def locid(it): return it.prog.recbyname[SA + '::NodeLocation'][0]


class Locate(Contract):
    """nothing for an unknown variable; otherwise its node with the evidence of the variable, or else the cluster of the node"""
    keys = (SA + '::locate',)

    def sig(self, prog, f): return len(f['ps']) == 1 and prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args): return [valid_var(it, it.read(args[0]))] + state_ok(it, this.ref)

    def model(self, it, this, args):
        v, k = var_arg(it, args[0])
        S, K = state(it, this.ref), kinds(it)
        N, C, E = [K[x][1] for x in ('nodes', 'clusters', 'evidences')]
        if not it.branch(N.has(S['nodes'], k)): return MetaOpt(False)
        n = N.val(S['nodes'], k)
        it.ld(n) if hasattr(it, 'ld') else None
        t = it.prog.ty(locid(it)['t'])
        if it.branch(E.has(S['evidences'], k)): return MetaOpt(True, location(it, t, n, 1, mk_iter(it, this.ref, 'evidences', k)))
        return MetaOpt(True, location(it, t, n, 0, mk_iter(it, this.ref, 'clusters', CLU(n))))

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        x, k = var_arg(it, args[0])
        S, K = state(it, this.ref), kinds(it)
        N, C, E = [K[x][1] for x in ('nodes', 'clusters', 'evidences')]
        if isinstance(v, LV): v = it.read(v)
        if not isinstance(v, MetaOpt): raise Unsupported('result')
        if not v.has: it.check('nothing only for an unknown variable', z3.Not(N.has(S['nodes'], k)))
        else: check_location(it, this, k, v.v)
        unchanged(it, old)


def check_location(it, this, k, v, hidden=None):
    S, K = state(it, this.ref), kinds(it)
    N, C, E = [K[x][1] for x in ('nodes', 'clusters', 'evidences')]
    n, alt, itr = loc_parts(it, v)
    it.check('the node of the variable', z3.And(N.has(S['nodes'], k), n == N.val(S['nodes'], k)))
    if not isinstance(itr, Iter): raise Unsupported('iterator')
    if alt == 1:
        it.check('observed only with an evidence', E.has(S['evidences'], k))
        it.check('the evidence of the variable', z3.And(it.iter_key(itr) == k, it.read(itr.lv) == S['evidences']))
    else:
        it.check('hidden only without evidence', z3.Not(E.has(S['evidences'], k)))
        c = it.iter_key(itr)
        it.check('the cluster of the node', z3.And(C.has(S['clusters'], c), mdt(it, CNODES).has(H(it, CNODES, c), n)))
        it.check('a valid iterator', z3.And(itr.has if itr.has is not None else TRUE, it.read(itr.lv) == S['clusters']))


class SameVariable(Contract):
    """refused exactly when the two are different objects"""
    keys = (ST + '::(anonymous namespace)::check_is_same_variable',)

    def pre(self, it, this, args): return [valid_var(it, it.read(a)) for a in args]

    def model(self, it, this, args):
        if it.branch(it.read(args[0]) != it.read(args[1])): raise CxxThrow('EFG::Error')


class FindOrMake(Contract):
    """the location of the variable, which is added as a hidden one on its own when unknown; refused for another variable
    with the same name and size, leaving everything as it was"""
    keys = (FA + '::findOrMakeNode',)

    def pre(self, it, this, args): return [valid_var(it, it.read(args[0]))] + state_ok(it, this.ref)

    def model(self, it, this, args):
        v, k = var_arg(it, args[0])
        S, K = state(it, this.ref), kinds(it)
        N, C, E = [K[x][1] for x in ('nodes', 'clusters', 'evidences')]
        t = it.prog.ty(locid(it)['t'])
        if it.branch(N.has(S['nodes'], k)):
            n = N.val(S['nodes'], k)
            if it.branch(H(it, VAR, n) != v): raise CxxThrow('EFG::Error')
            if it.branch(E.has(S['evidences'], k)): return location(it, t, n, 1, mk_iter(it, this.ref, 'evidences', k))
            return location(it, t, n, 0, mk_iter(it, this.ref, 'clusters', CLU(n)))
        n = it.new_object(it.prog.ty(it.prog.recbyname[NO][0]['t']), None, []) if False else it.new_embedded(it.prog.ty(it.prog.recbyname[NO][0]['t'])).ref
        it.write(LV(('h', VAR, n)), v)
        lv = slv(it, this.ref, 'variables')
        x = it.read(lv)
        it.assume(VI.len(x) + 1 <= 2 ** 60)
        it.write(lv, VI.new(VI.len(x) + 1, z3.Store(VI.arr(x), VI.len(x), v)))
        lv = slv(it, this.ref, 'nodes')
        it.write(lv, it.map_put(it.read(lv), N, k, v, n, False)[0])
        c = it.new_embedded(it.prog.ty(it.prog.recbyname[CL][0]['t'])).ref
        cl = LV(('h', CNODES, c))
        it.write(cl, it.map_put(it.read(cl), mdt(it, CNODES), n, n, None, False)[0])
        lv = slv(it, this.ref, 'clusters')
        it.assume(z3.Not(C.has(it.read(lv), c)))
        it.write(lv, it.map_put(it.read(lv), C, c, c, None, False)[0])
        it.assume(CLU(n) == c)
        return location(it, t, n, 0, mk_iter(it, this.ref, 'clusters', c))

    def outcome(self, it, f, this, args, kind, v, old):
        x, k = var_arg(it, args[0])
        S, K = state(it, this.ref), kinds(it)
        N, C, E = [K[q][1] for q in ('nodes', 'clusters', 'evidences')]
        S0 = old_state(it, old, this.ref)
        known = N.has(S0['nodes'], k)
        n0 = N.val(S0['nodes'], k)
        other = z3.And(known, sel(old_arr(it, old, VAR), n0) != x)
        if kind == 'throw':
            it.check('refused only for another variable with the same name', other)
            unchanged(it, old)
            return
        it.check('refused for another variable with the same name', z3.Not(other))
        check_location(it, this, k, v)
        n, alt, itr = loc_parts(it, v)
        it.check('known: variables unchanged', z3.Implies(known, it.val_eq(S['variables'], S0['variables'])))
        it.check('known: nodes, clusters and evidences unchanged', z3.Implies(known, z3.And(S['nodes'] == S0['nodes'], S['clusters'] == S0['clusters'])))
        it.check('evidences unchanged', S['evidences'] == S0['evidences'])
        a, b, j = S0['variables'], S['variables'], it.fresh('j', IntSort())
        new = z3.Not(known)
        it.check('new: the variable is added last', z3.Implies(new, z3.And(VI.len(b) == VI.len(a) + 1, VI.at(b, VI.len(a)) == x, z3.Implies(z3.And(0 <= j, j < VI.len(a)), VI.at(b, j) == VI.at(a, j)))))
        q = it.fresh('q', VKey.sort)
        it.check('new: one more node', z3.Implies(new, z3.And(N.has(S['nodes'], q) == z3.Or(q == k, N.has(S0['nodes'], q)), z3.Implies(q != k, N.val(S['nodes'], q) == N.val(S0['nodes'], q)))))
        it.check('new: stored under the variable', z3.Implies(new, z3.And(n >= old.nextref, H(it, VAR, n) == x, z3.Select(N.get(S['nodes'], 'key'), k) == x)))
        dt = mdt(it, ACT)
        it.check('new: without connections and factors', z3.Implies(new, z3.And(dt.size(H(it, ACT, n)) == 0, dt.size(H(it, DIS, n)) == 0, VI.len(H(it, UNA, n)) == 0, it.read(cached(it, LV(('h', MER, n)))) == 0)))
        c = it.iter_key(itr)
        r, w = it.fresh('r', IntSort()), it.fresh('w', IntSort())
        if alt == 0:
            it.check('new: one more cluster', z3.Implies(new, z3.And(c >= old.nextref, C.has(S['clusters'], w) == z3.Or(w == c, C.has(S0['clusters'], w)))))
            it.check('new: a cluster of that node alone', z3.Implies(new, z3.And(mdt(it, CNODES).has(H(it, CNODES, c), r) == (r == n), it.read(cached(it, LV(('h', CCONN, c)))) == 0)))
        unchanged(it, old, (STATE,))
        if alt == 0: it.assume(z3.Implies(new, CLU(n) == c))      # ghost: cluster of the new node
        for nm, g in state_ok(it, this.ref): it.check('kept: ' + nm, g)
        r = it.fresh('r', IntSort())
        it.check('state of other models unchanged', z3.Implies(z3.And(r != this.ref, r > 0, r < old.nextref), sel(old_arr(it, old, STATE), r) == sel(it.harr(STATE, it.fsorts[STATE]), r)))


def old_state(it, old, ref):
    now = it.st
    it.st = old.copy(); it.st.pc = now.pc
    try: return state(it, ref)
    finally: it.st = now


def factor_vars(it, f):
    from c_factor import vars_of
    return vars_of(it, f)


def factor_ok(it, f, n=None):
    from c_factor import IMCLS
    v = factor_vars(it, f)
    j = z3.Int('j?f')
    x = VI.at(v, j)
    return [('a factor', z3.And(f > 0, f < it.st.nextref, it.isinstance_(f, IMCLS(it)))),
            ('number of variables', VI.len(v) == n if n else VI.len(v) >= 1)] + \
        [('variables of the factor', z3.And(*[z3.And(VI.at(v, q) > 0, VI.at(v, q) < it.st.nextref, is_var(it, VI.at(v, q))) for q in range(n or 2)]) if n else
          z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < VI.len(v)), z3.And(x > 0, x < it.st.nextref, is_var(it, x))), patterns=[x]))]


def other_variable(it, ref, x):
    """another variable of the model has the same name and size"""
    S, N = state(it, ref), kinds(it)['nodes'][1]
    k = vk(*heaps(it), x)
    return z3.And(N.has(S['nodes'], k), z3.Select(it.harr(VAR, IntSort()), N.val(S['nodes'], k)) != x)


def at_old(it, old, fn):
    now = it.st
    it.st = old.copy(); it.st.pc = now.pc
    try: return fn()
    finally: it.st = now


def check_grown(it, old, this, xs):
    """variables and nodes of the model: those of before, and the given variables"""
    S, K = state(it, this.ref), kinds(it)
    N, E = K['nodes'][1], K['evidences'][1]
    S0 = old_state(it, old, this.ref)
    ks = [vk(*heaps(it), x) for x in xs]
    it.check('evidences unchanged', S['evidences'] == S0['evidences'])
    a, b, j = S0['variables'], S['variables'], it.fresh('j', IntSort())
    new = [z3.Not(N.has(S0['nodes'], k)) for k in ks]
    it.check('variables: the same ones first', z3.Implies(z3.And(0 <= j, j < VI.len(a)), VI.at(b, j) == VI.at(a, j)))
    n = I0
    for x, nw in zip(xs, new):
        it.check('variables: the new one is added', z3.Implies(nw, VI.at(b, VI.len(a) + n) == x))
        n = n + z3.If(nw, z3.IntVal(1), I0)
    it.check('variables: nothing else', VI.len(b) == VI.len(a) + n)
    q = it.fresh('q', VKey.sort)
    it.check('nodes: those of before and of the new variables', N.has(S['nodes'], q) == z3.Or(*[q == k for k in ks], N.has(S0['nodes'], q)))
    it.check('nodes of before unchanged', z3.Implies(N.has(S0['nodes'], q), N.val(S['nodes'], q) == N.val(S0['nodes'], q)))
    for x, k in zip(xs, ks): it.check('a node of the variable', H(it, VAR, N.val(S['nodes'], k)) == x)
    unchanged_state(it, old, this)
    return [N.val(S['nodes'], k) for k in ks], ks, new


def unchanged_state(it, old, this):
    r = it.fresh('r', IntSort())
    it.check('state of other models unchanged', z3.Implies(z3.And(r != this.ref, r > 0, r < old.nextref), sel(old_arr(it, old, STATE), r) == sel(it.harr(STATE, it.fsorts[STATE]), r)))


class AddUnary(Contract):
    """the factor is added to the ones of the node of its variable, whose merged unaries are dropped"""
    keys = (FA + '::addUnaryDistribution',)
    light = True

    def pre(self, it, this, args): return factor_ok(it, it.read(args[0]), 1) + state_ok(it, this.ref)

    def outcome(self, it, f, this, args, kind, v, old):
        fa = it.read(args[0])
        x = VI.at(factor_vars(it, fa), 0)
        bad = at_old(it, old, lambda: other_variable(it, this.ref, x))
        if kind == 'throw':
            it.check('refused only for another variable with the same name', bad)
            unchanged(it, old)
            return
        it.check('refused for another variable with the same name', z3.Not(bad))
        (n,), (k,), (new,) = check_grown(it, old, this, [x])
        u, u0 = H(it, UNA, n), sel(old_arr(it, old, UNA), n)
        l0 = z3.If(new, I0, VI.len(u0))
        j = it.fresh('j', IntSort())
        it.check('one more unary factor', z3.And(VI.len(u) == l0 + 1, VI.at(u, l0) == fa))
        it.check('the other unary factors are kept', z3.Implies(z3.And(0 <= j, j < l0), VI.at(u, j) == VI.at(u0, j)))
        it.check('merged unaries dropped', it.read(cached(it, LV(('h', MER, n)))) == 0)
        unchanged(it, old, (STATE,), {UNA: [n], MER: [n]})
        for nm, g in state_ok(it, this.ref): it.check('kept: ' + nm, g)

    def model(self, it, this, args):
        fa = it.read(args[0])
        x = VI.at(factor_vars(it, fa), 0)
        n, _, _ = loc_parts(it, FindOrMake().model(it, this, [it.newcell(x)]))
        lv = LV(('h', UNA, n))
        u = it.read(lv)
        it.assume(VI.len(u) + 1 <= 2 ** 60)
        it.write(lv, VI.new(VI.len(u) + 1, z3.Store(VI.arr(u), VI.len(u), fa)))
        it.write(cached(it, LV(('h', MER, n))), I0)


class Hybrid(Contract):
    """the nodes get linked, inactively; the hidden one receives the slice of the factor for the observed value"""
    keys = (ST + '::(anonymous namespace)::hybrid_insertion',)
    light = True

    def parts(self, it, args): return [a.ref if isinstance(a, Obj) else it.read(a) for a in args]

    def pre(self, it, this, args):
        h, e, val, f = self.parts(it, args)
        v = factor_vars(it, f)
        from c_message import varsz
        x = H(it, VAR, e)
        return [('nodes', z3.And(h > 0, h < it.st.nextref, e > 0, e < it.st.nextref, h != e)), ('observed variable', z3.And(x > 0, x < it.st.nextref))] + factor_ok(it, f, 2) + \
            [('of the factor', z3.Or(VI.at(v, 0) == x, VI.at(v, 1) == x)), ('observed value in range', z3.And(val >= 0, val < varsz(it, x)))]

    def model(self, it, this, args):
        from c_message import made, UVAR, EVN
        from c_node import Disable
        h, e, val, f = self.parts(it, args)
        r = Disable().model(it, None, [Obj(h, None), Obj(e, None), it.newcell(f)])
        v = factor_vars(it, f)
        x = H(it, VAR, e)
        m = it.alloc(it.prog.recbyname[EVN][0]['id'])
        it.write(LV(('h', UVAR, m)), z3.If(VI.at(v, 0) == x, VI.at(v, 1), VI.at(v, 0)))
        made(it, m, 4, f, x, val)
        it.write(LV(('h', MSG, r.f['first'])), m)
        it.write(cached(it, LV(('h', MER, h))), I0)

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        h, e, val, fa = self.parts(it, args)
        c1, c2 = check_linked(it, old, h, e, fa, DIS)
        check_slice(it, old, H(it, MSG, c1), fa, H(it, VAR, e), val)
        it.check('no message to the observed node', H(it, MSG, c2) == 0)
        it.check('merged unaries dropped', it.read(cached(it, LV(('h', MER, h)))) == 0)
        unchanged(it, old, (), {ACT: [h, e], DIS: [h, e], MER: [h], MSG: [c1, c2], FAC: [c1, c2]})


def check_slice(it, old, m, f, x, val):
    from c_message import MADE
    K, A, B, V = [z3.Select(it.harr(k, it.fsorts[k]), m) for k in MADE]
    it.check('slice of the factor for the observed value', z3.And(m >= old.nextref, K == 4, A == f, B == x, V == val))


def check_linked(it, old, a, b, f, M, fresh=()):
    """linked in M and only there, holding the factor; other links of the two unchanged"""
    O = DIS if M == ACT else ACT
    dt = mdt(it, M)
    k = it.fresh('k', IntSort())
    res = []
    for x, y in ((a, b), (b, a)):
        m1, m0, o1, o0 = H(it, M, x), sel(old_arr(it, old, M), x), H(it, O, x), sel(old_arr(it, old, O), x)
        c = dt.val(m1, y)
        it.check('linked', z3.And(dt.has(m1, y), c > 0, H(it, FAC, c) == f))
        it.check('not linked the other way', z3.Not(dt.has(o1, y)))
        ex = x < old.nextref
        it.check('other links of the node unchanged', z3.Implies(k != y, z3.And(dt.has(m1, k) == z3.And(ex, dt.has(m0, k)), dt.has(o1, k) == z3.And(ex, dt.has(o0, k)),
                 z3.Implies(dt.has(m1, k), dt.val(m1, k) == dt.val(m0, k)), z3.Implies(dt.has(o1, k), dt.val(o1, k) == dt.val(o0, k)))))
        res.append(c)
    return res


class AddBinary(Contract):
    """the nodes of the two variables become linked by the factor: actively, in one common cluster, when both are hidden,
    inactively otherwise, the hidden one receiving the slice for the observed value; refused, leaving everything as it was, for
    variables that are already connected and for another variable with the same name and size"""
    keys = (FA + '::addBinaryDistribution',)
    light = True

    def pre(self, it, this, args):
        f = it.read(args[0])
        v = factor_vars(it, f)
        E = kinds(it)['evidences'][1]
        ev = state(it, this.ref)['evidences']
        from c_message import varsz
        k = z3.Const('k?e', VKey.sort)
        return factor_ok(it, f, 2) + [('different variables', vk(*heaps(it), VI.at(v, 0)) != vk(*heaps(it), VI.at(v, 1)))] + state_ok(it, this.ref) + links_ok(it, this.ref) + \
            [('evidences in range', z3.ForAll([k], z3.Implies(E.has(ev, k), z3.And(E.val(ev, k) >= 0, E.val(ev, k) < varsz(it, z3.Select(E.get(ev, 'key'), k)))), patterns=[E.has(ev, k)]))]

    def model(self, it, this, args):
        if it.branch(self.bad(it, this, it.read(args[0]))): raise CxxThrow('EFG::Error')
        from c_message import MADE, MLIST, UVAR
        havoc(it, [k for k in (STATE, VAR, ACT, DIS, UNA, MER, MSG, FAC, CNODES, CCONN, UVAR, MLIST, '$tag') + tuple(MADE) if k in it.fsorts])

    def bad(self, it, this, f):
        v = factor_vars(it, f)
        x, y = VI.at(v, 0), VI.at(v, 1)
        S, N = state(it, this.ref), kinds(it)['nodes'][1]
        kx, ky = [vk(*heaps(it), q) for q in (x, y)]
        a, b = N.val(S['nodes'], kx), N.val(S['nodes'], ky)
        dt = mdt(it, ACT)
        con = z3.And(N.has(S['nodes'], kx), N.has(S['nodes'], ky), z3.Or(dt.has(H(it, ACT, a), b), dt.has(H(it, DIS, a), b)))
        return z3.Or(other_variable(it, this.ref, x), other_variable(it, this.ref, y), con)

    def outcome(self, it, f, this, args, kind, v, old):
        fa = it.read(args[0])
        vs = factor_vars(it, fa)
        x, y = VI.at(vs, 0), VI.at(vs, 1)
        bad = at_old(it, old, lambda: self.bad(it, this, fa))
        if kind == 'throw':
            it.check('refused only for variables already connected or with a name in use', bad)
            unchanged(it, old)
            return
        it.check('refused for variables already connected or with a name in use', z3.Not(bad))
        (a, b), (kx, ky), (nx, ny) = check_grown(it, old, this, [x, y])
        S, K = state(it, this.ref), kinds(it)
        S0 = old_state(it, old, this.ref)
        N, C, E = [K[q][1] for q in ('nodes', 'clusters', 'evidences')]
        ndt = mdt(it, CNODES)
        ox, oy = E.has(S['evidences'], kx), E.has(S['evidences'], ky)
        isx, isy = [it.quick(q) for q in (ox, oy)]
        nox, noy = [it.quick(z3.Not(q)) for q in (ox, oy)]
        if not ((isx or nox) and (isy or noy)): it.check('one of the cases', FALSE); return
        M = ACT if nox and noy else DIS
        c1, c2 = check_linked(it, old, a, b, fa, M)
        ch = {ACT: [a, b], DIS: [a, b], MSG: [c1, c2], FAC: [c1, c2], VAR: [], UNA: [], MER: []}
        c, w, r = it.fresh('c', IntSort()), it.fresh('w', IntSort()), it.fresh('r', IntSort())
        g0 = lambda q, m: z3.And(q < old.nextref, C.has(S0['clusters'], q), ndt.has(sel(old_arr(it, old, CNODES), q), m))
        g1 = lambda q, m: z3.And(C.has(S['clusters'], q), ndt.has(H(it, CNODES, q), m))
        skip = (STATE,)
        clu = CLU
        it.assume(z3.And(z3.Implies(nx, CLU(a) > 0), z3.Implies(ny, CLU(b) > 0)))
        ca, cb = CLU(a), CLU(b)
        if nox and noy:
            it.check('no message yet', z3.And(H(it, MSG, c1) == 0, H(it, MSG, c2) == 0))
            it.check('in one cluster', z3.And(g1(ca, a), g1(ca, b)))
            it.check('the cluster holds the nodes of the two', z3.Implies(g1(ca, r), z3.Or(r == a, r == b, g0(ca, r), g0(cb, r))))
            it.check('all of them', z3.Implies(z3.Or(g0(ca, r), g0(cb, r)), g1(ca, r)))
            it.check('order of messages dropped', it.read(cached(it, LV(('h', CCONN, ca)))) == 0)
            it.check('other clusters unchanged', z3.Implies(z3.And(w != ca, w != cb), g1(w, r) == g0(w, r)))
            clu = lambda m: z3.If(z3.And(CLU(m) == cb), ca, CLU(m))
            ch.update({CNODES: [ca], CCONN: [ca]})
        else:
            for o, oo, n, q in ((ox, isx, a, y), (oy, isy, b, x)):
                pass
            if isx and isy: pass
            else:
                h, ob, kk = (a, y, ky) if nox else (b, x, kx)
                ch_ = c1 if nox else c2
                check_slice(it, old, H(it, MSG, ch_), fa, ob, E.val(S['evidences'], kk))
                it.check('no message to the observed node', H(it, MSG, c2 if nox else c1) == 0)
                it.check('merged unaries dropped', it.read(cached(it, LV(('h', MER, h)))) == 0)
                ch[MER] = [h]
            new = z3.Or(*[z3.And(nw, w == CLU(n), r == n) for nw, n in ((nx, a), (ny, b))])
            it.check('clusters: those of before and of the new variables', g1(w, r) == z3.Or(new, g0(w, r)))
        unchanged(it, old, skip, ch)
        for nm, g in state_ok(it, this.ref, clu): it.check('kept: ' + nm, g)
        check_links(it, old, this.ref, clu, [(a, b)])


ALLF = FA + '::factorsAll'


class AddDistribution(Contract):
    """the factor is registered and inserted; refused when null, already there, over neither one nor two variables, or not
    insertable; a refusal leaves everything but the belief as it was"""
    keys = (FA + '::addDistribution',)
    light = True

    def pre(self, it, this, args):
        f = it.read(args[0])
        v = factor_vars(it, f)
        p = AddBinary().pre(it, this, args)
        return [(nm, z3.Implies(f != 0, g)) for nm, g in factor_ok(it, f)] + [('different variables', z3.Implies(z3.And(f != 0, VI.len(v) == 2), dict(p)['different variables']))] + \
            [x for x in p if x[0] not in ('a factor', 'number of variables', 'variables of the factor', 'different variables')]

    def outcome(self, it, f, this, args, kind, v, old):
        fa = it.read(args[0])
        vs = factor_vars(it, fa)
        k = it.T.kind(it.ftypes[ALLF])
        if k[0] != 'map': raise Unsupported('representation of the factors')
        dt = k[1]
        a0, a1 = sel(old_arr(it, old, ALLF), this.ref), H(it, ALLF, this.ref)
        n = VI.len(vs)
        bad = at_old(it, old, lambda: z3.Or(fa == 0, dt.has(a0, fa), z3.And(n != 1, n != 2), z3.And(n == 1, other_variable(it, this.ref, VI.at(vs, 0))), z3.And(n == 2, AddBinary().bad(it, this, fa))))
        if kind == 'throw':
            it.check('refused only for a reason', bad)
            unchanged(it, old, (), {LAST: [this.ref]})
            return
        it.check('refused for any of the reasons', z3.Not(bad))
        q = it.fresh('q', IntSort())
        it.check('registered, with all the others', dt.has(a1, q) == z3.Or(q == fa, dt.has(a0, q)))
        o = it.T.kind(it.ftypes[LAST])[1]
        it.check('belief dropped', z3.Not(o.has(H(it, LAST, this.ref))))
        r = it.fresh('r', IntSort())
        it.check('registers of other models unchanged', z3.Implies(z3.And(r != this.ref, r > 0, r < old.nextref), sel(old_arr(it, old, ALLF), r) == sel(it.harr(ALLF, it.fsorts[ALLF]), r)))


def havoc(it, keys):
    for k in keys:
        a = it.harr(k, it.fsorts[k])
        it.st.heap[k] = it.fresh('h', a.sort())
        for w in it.writes: w.heap.setdefault(k, []).append(None)
    n = it.fresh('next', IntSort())
    it.assume(n >= it.st.nextref)
    it.st.nextref = n
    for w in it.writes: w.alloc = True


# ------------------------------------------------------------------ evidences
ER = ST + '::EvidenceRemover'
ES = ST + '::EvidenceSetter'


def evidences_ok(it, ref):
    E = kinds(it)['evidences'][1]
    ev = state(it, ref)['evidences']
    from c_message import varsz
    k = z3.Const('k?e', VKey.sort)
    return [('evidences in range', z3.ForAll([k], z3.Implies(E.has(ev, k), z3.And(E.val(ev, k) >= 0, E.val(ev, k) < varsz(it, z3.Select(E.get(ev, 'key'), k)))), patterns=[E.has(ev, k)]))]


def slice_of(it, made, m, f, x, val):
    K, A, B, V = [z3.Select(a, m) for a in made]
    return z3.And(m > 0, K == 4, A == f, B == x, V == val)


class Links:
    """arrays of the links at some point: active, disabled, messages, factors, merged unaries, messages made"""

    def __init__(self, it, get):
        from c_message import MADE
        self.act, self.dis, self.msg, self.fac, self.mer = [get(k) for k in (ACT, DIS, MSG, FAC, MER)]
        self.made = [get(k) for k in MADE]

    def of(self, k): return self.act if k == ACT else self.dis


def links_now(it): return Links(it, lambda k: it.harr(k, it.fsorts[k]))


def links_old(it, old): return Links(it, lambda k: old_arr(it, old, k))


def links_loop(it, info, entry):
    """arrays at an arbitrary iteration"""
    def get(k):
        l = [l for l in info.leaves if l.base[0] in 'hH' and l.base[1] == k]
        if not l: return entry.heap.get(k, it.entry_arrays.get(k) if k in it.entry_arrays else it.harr(k, it.fsorts[k]))
        if len(l) == 1 and l[0].base[0] == 'H': return l[0].sym
        raise Unsupported('partial array')
    return Links(it, get)


def moved_facts(it, a, b, n0, F, T, nr, nx):
    """from a to b, links of n0 moved from F to T and nothing else; nr: next object of a -> [(name, variables, fact, triggers)]"""
    dt = mdt(it, F)
    k, m, q = z3.Ints('k?mv m?mv q?mv')
    f0, t0, f1, t1 = a.of(F)[n0], a.of(T)[n0], b.of(F)[n0], b.of(T)[n0]

    def moved(x): return z3.And(dt.has(f0, x), z3.Not(dt.has(f1, x)))
    c0, c1 = dt.val(f0, k), dt.val(t1, k)
    fm, tm, fm0, tm0 = b.of(F)[m], b.of(T)[m], a.of(F)[m], a.of(T)[m]
    return moved, [
        ('links are only moved away', [k], z3.Implies(dt.has(f1, k), z3.And(dt.has(f0, k), dt.val(f1, k) == c0)), [dt.has(f1, k)]),
        ('moved links are on the other side', [k], dt.has(t1, k) == z3.Or(dt.has(t0, k), moved(k)), [dt.has(t1, k)]),
        ('links of the other side kept', [k], z3.Implies(dt.has(t0, k), dt.val(t1, k) == dt.val(t0, k)), [dt.val(t1, k)]),
        ('moved links hold the same factor', [k], z3.Implies(moved(k), z3.And(b.fac[c1] == a.fac[c0], c1 >= nr)), [c1, dt.has(f0, k)]),
        ('nodes that were not linked unchanged', [m], z3.Implies(z3.And(m != n0, z3.Not(moved(m))), z3.And(fm == fm0, tm == tm0)), [fm, tm]),
        ('links of moved nodes', [m, k], z3.Implies(z3.And(moved(m), m != n0), z3.And(dt.has(fm, k) == z3.And(k != n0, dt.has(fm0, k)), dt.has(tm, k) == z3.Or(k == n0, dt.has(tm0, k)))), [dt.has(fm, k), dt.has(tm, k)]),
        ('connections of moved nodes', [m, k], z3.Implies(z3.And(moved(m), m != n0, k != n0), z3.And(z3.Implies(dt.has(fm0, k), dt.val(fm, k) == dt.val(fm0, k)), z3.Implies(dt.has(tm0, k), dt.val(tm, k) == dt.val(tm0, k)))), [dt.val(fm, k), dt.val(tm, k)]),
        ('moved links hold the same factor at the other end', [m], z3.Implies(z3.And(moved(m), m != n0), z3.And(b.fac[dt.val(tm, n0)] == a.fac[dt.val(f0, m)], dt.val(tm, n0) >= nr, dt.val(tm, n0) < nx)), [dt.val(tm, n0), dt.has(f0, m)]),
        ('factors of connections kept', [q], z3.Implies(z3.And(0 < q, q < nr), b.fac[q] == a.fac[q]), [b.fac[q]])]


def forall(vs, f, ps): return z3.ForAll(vs, f, patterns=ps)


def open_state(it, ref): return [x for x in state_ok(it, ref) if 'cluster' not in x[0]]


def open_graph(it, ref):
    """the invariant of the graph but for its clusters"""
    return open_state(it, ref) + links_ok(it, ref, None) + evidences_ok(it, ref)


def havoc_new(it, keys, nr):
    """only objects made from nr on change"""
    r = z3.Int('r?hn')
    for k in keys:
        if k not in it.fsorts: continue
        a = it.harr(k, it.fsorts[k])
        b = it.st.heap[k] = it.fresh('h', a.sort())
        it.assume(z3.ForAll([r], z3.Implies(r < nr, b[r] == a[r]), patterns=[b[r]]))
        for w in it.writes: w.heap.setdefault(k, []).append(it.st.nextref)


def iteration_hint(it, props):
    """offers properties of the state as invariants of every loop: props(it, info) -> [(name, formula)], in an arbitrary iteration"""
    from loops import NullSolver

    def hint(it, info, entry, trans):
        keep, so = it.st, it.solver
        it.st = entry.copy(); it.st.pc = list(entry.pc)
        it.solver = NullSolver()
        it.writes, w = [], it.writes
        try:
            it.enter_havoc(info, entry.nextref)
            return props(it, info)
        finally: it.st, it.solver, it.writes = keep, so, w
    it.hints = [hint] + it.hints


class RemoveEvidence1(Contract):
    """the variable is not observed any more; its links with hidden nodes become active, keeping their factors, those with
    observed ones stay disabled and give it the slice for the observed value; what depended on the evidence is dropped; refused,
    leaving everything as it was, for a variable that is not observed"""
    keys = (ER + '::removeEvidence_',)
    light = True
    snap_iter = True

    def pre(self, it, this, args): return [valid_var(it, it.read(args[0]))] + open_graph(it, this.ref)

    def model(self, it, this, args):
        v, k0 = var_arg(it, args[0])
        S, K = state(it, this.ref), kinds(it)
        N, E = K['nodes'][1], K['evidences'][1]
        if it.branch(z3.Not(E.has(S['evidences'], k0))): raise CxxThrow('EFG::Error')
        n0 = N.val(S['nodes'], k0)
        a, nr = links_now(it), it.st.nextref
        from c_message import MADE, MLIST, UVAR
        havoc_new(it, [UVAR, MLIST] + list(MADE), nr)
        havoc(it, [ACT, DIS, MSG, FAC, MER])
        b = links_now(it)
        moved, fs = moved_facts(it, a, b, n0, DIS, ACT, nr, it.st.nextref)
        for nm, *x in fs: it.assume(forall(*x))
        lv = slv(it, this.ref, 'evidences')
        it.write(lv, it.map_del(it.read(lv), E, k0))
        S = state(it, this.ref)
        dt = mdt(it, DIS)
        m = z3.Int('m?re')
        km = vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), m))
        obs = E.has(S['evidences'], km)
        c0 = dt.val(a.dis[n0], m)
        lk = dt.has(a.dis[n0], m)
        it.assume(forall([m], z3.Implies(lk, moved(m) == z3.Not(obs)), [lk]))
        it.assume(forall([m], z3.Implies(z3.And(m > 0, m < nr, m != n0, z3.Not(lk)), b.mer[m] == a.mer[m]), [b.mer[m]]))
        it.assume(forall([m], z3.Implies(z3.And(lk, z3.Not(obs)), read_cache(it, b.mer[m]) == 0), [lk, b.mer[m]]))
        it.assume(read_cache(it, b.mer[n0]) == 0)
        for nm, x in open_graph(it, this.ref): it.assume(x)
        it.write(LV(('h', LAST, this.ref)), it.T.kind(it.ftypes[LAST])[1].none)

    def setup(self, it, f, this, args):
        v, k0 = var_arg(it, args[0])
        S, K = state(it, this.ref), kinds(it)
        N, E = K['nodes'][1], K['evidences'][1]
        n0 = N.val(S['nodes'], k0)
        for k in (ACT, DIS): H(it, k, n0)
        dt = mdt(it, DIS)
        self.key = k0

        def hint(it, info, entry, trans):
            a = Links(it, lambda k: entry.heap.get(k) if entry.heap.get(k) is not None else it.entry_arrays[k])
            b = links_loop(it, info, entry)
            nx = info.nextref if info.nextref is not None else entry.nextref
            moved, fs = moved_facts(it, a, b, n0, DIS, ACT, entry.nextref, nx)
            out = [(nm, forall(*x)) for nm, *x in fs]
            k, q = z3.Ints('k?rm q?rm')
            d0 = a.dis[n0]
            pos = z3.Select(dt.get(d0, 'pos'), k)
            obs = z3.And(E.has(S['evidences'], vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), k))), vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), k)) != k0)
            d1 = b.dis[n0]
            c0 = dt.val(d0, k)
            kv = vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), k))
            tr = [dt.has(d0, k), dt.has(d1, k)]
            out += [('links not visited yet', forall([k], z3.Implies(z3.And(dt.has(d0, k), pos >= info.n), z3.And(dt.has(d1, k), b.mer[k] == a.mer[k])), tr)),
                    ('links to hidden nodes visited so far', forall([k], z3.Implies(z3.And(dt.has(d0, k), pos < info.n, z3.Not(obs)), z3.And(z3.Not(dt.has(d1, k)), read_cache(it, b.mer[k]) == 0)), tr)),
                    ('links to observed nodes stay', forall([k], z3.Implies(z3.And(dt.has(d0, k), obs), dt.has(d1, k)), tr)),
                    ('slices so far', forall([k], z3.Implies(z3.And(dt.has(d0, k), pos < info.n, obs), z3.And(b.msg[c0] >= entry.nextref, b.msg[c0] < nx, slice_of(it, b.made, b.msg[c0], a.fac[c0], z3.Select(E.get(S['evidences'], 'key'), kv), E.val(S['evidences'], kv)))), tr)),
                    ('messages of other connections', forall([q], z3.Implies(z3.And(0 < q, q < entry.nextref, z3.Not(z3.And(OWNF(q) == fcode(DIS), OWNR(q) == n0))), b.msg[q] == a.msg[q]), [b.msg[q]])),
                    ('merged unaries of other nodes', forall([q], z3.Implies(z3.Not(dt.has(d0, q)), b.mer[q] == a.mer[q]), [b.mer[q]]))]
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        k0 = self.key
        S, K = state(it, this.ref), kinds(it)
        S0 = old_state(it, old, this.ref)
        N, C, E = [K[q][1] for q in ('nodes', 'clusters', 'evidences')]
        was = E.has(S0['evidences'], k0)
        if kind == 'throw':
            it.check('refused only when not observed', z3.Not(was))
            unchanged(it, old)
            return
        it.check('refused when not observed', was)
        n0 = N.val(S0['nodes'], k0)
        q = it.fresh('q', VKey.sort)
        it.check('one evidence less', E.has(S['evidences'], q) == z3.And(q != k0, E.has(S0['evidences'], q)))
        it.check('other evidences unchanged', z3.Implies(q != k0, z3.And(E.val(S['evidences'], q) == E.val(S0['evidences'], q), z3.Select(E.get(S['evidences'], 'key'), q) == z3.Select(E.get(S0['evidences'], 'key'), q))))
        it.check('variables, nodes and clusters unchanged', z3.And(S['nodes'] == S0['nodes'], S['clusters'] == S0['clusters'], it.val_eq(S['variables'], S0['variables'])))
        unchanged_state(it, old, this)
        a, b = links_old(it, old), links_now(it)
        moved, fs = moved_facts(it, a, b, n0, DIS, ACT, old.nextref, it.st.nextref)
        for nm, vs, g, ps in fs: it.check(nm, z3.substitute(g, *[(x, it.fresh('any', IntSort())) for x in vs]))
        dt = mdt(it, DIS)
        m = it.fresh('m', IntSort())
        km = vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), m))
        obs = E.has(S['evidences'], km)
        c0 = dt.val(a.dis[n0], m)
        lk = dt.has(a.dis[n0], m)
        it.check('links with hidden nodes are activated, the others are not', z3.Implies(lk, moved(m) == z3.Not(obs)))
        it.check('slices of the observed neighbours', z3.Implies(z3.And(lk, obs), z3.And(b.msg[c0] >= old.nextref, slice_of(it, b.made, b.msg[c0], a.fac[c0], z3.Select(E.get(S['evidences'], 'key'), km), E.val(S['evidences'], km)))))
        it.check('merged unaries of the hidden neighbours dropped', z3.Implies(z3.And(lk, z3.Not(obs)), read_cache(it, b.mer[m]) == 0))
        it.check('merged unaries of the node dropped', read_cache(it, b.mer[n0]) == 0)
        it.check('merged unaries of other nodes unchanged', z3.Implies(z3.And(m > 0, m < old.nextref, m != n0, z3.Not(lk)), b.mer[m] == a.mer[m]))
        o = it.T.kind(it.ftypes[LAST])[1]
        it.check('belief dropped', z3.Not(o.has(H(it, LAST, this.ref))))
        unchanged(it, old, (STATE, ACT, DIS, MSG, FAC, MER), {LAST: [this.ref]})
        for nm, x in open_state(it, this.ref) + evidences_ok(it, this.ref): it.check('kept: ' + nm, x)
        check_links(it, old, this.ref, None)


class ComputeClusters(Contract):
    """assumed: the nodes are divided in new clusters, linked ones being in the same; nothing else changes"""
    keys = (ST + '::compute_clusters',)
    checked = False

    def pre(self, it, this, args):
        ns = it.read(args[0])
        ndt, dt = mdt(it, CNODES), mdt(it, ACT)
        A = it.harr(ACT, dt.sort)
        n, m = z3.Ints('n?cc m?cc')
        return [('valid nodes', z3.ForAll([n], z3.Implies(ndt.has(ns, n), z3.And(n > 0, n < it.st.nextref)), patterns=[ndt.has(ns, n)])),
                ('active connections of the nodes are symmetric', z3.ForAll([n, m], z3.Implies(z3.And(ndt.has(ns, n), ndt.has(ns, m), dt.has(A[n], m)), dt.has(A[m], n)), patterns=[dt.has(A[n], m)]))]

    def model(self, it, this, args):
        ns = it.read(args[0])
        K = kinds(it)['clusters']
        C, ndt, dt = K[1], mdt(it, CNODES), mdt(it, ACT)
        r = it.fresh('clusters', C.sort)
        nr = it.st.nextref
        it.assume(C.wf(r))
        cn0, cc0 = [it.harr(k, it.fsorts[k]) for k in (CNODES, CCONN)]
        havoc(it, [CNODES, CCONN])
        cn, cc = [it.harr(k, it.fsorts[k]) for k in (CNODES, CCONN)]
        of = it.fresh('cluster', z3.ArraySort(IntSort(), IntSort()))
        A = it.harr(ACT, dt.sort)
        c, n, m = z3.Ints('c?cc n?cc m?cc')
        it.assume(z3.ForAll([c], z3.Implies(c < nr, cn[c] == cn0[c]), patterns=[cn[c]]))
        it.assume(z3.ForAll([c], z3.Implies(c < nr, cc[c] == cc0[c]), patterns=[cc[c]]))
        it.assume(z3.ForAll([c], z3.Implies(C.has(r, c), z3.And(c >= nr, c < it.st.nextref, read_cache(it, cc[c]) == 0)), patterns=[C.has(r, c)]))
        it.assume(z3.ForAll([n], z3.Implies(ndt.has(ns, n), z3.And(C.has(r, of[n]), ndt.has(cn[of[n]], n))), patterns=[ndt.has(ns, n)]))
        it.assume(z3.ForAll([c, n], z3.Implies(z3.And(C.has(r, c), ndt.has(cn[c], n)), z3.And(ndt.has(ns, n), of[n] == c)), patterns=[ndt.has(cn[c], n)]))
        it.assume(z3.ForAll([n, m], z3.Implies(z3.And(ndt.has(ns, n), ndt.has(ns, m), dt.has(A[n], m)), of[n] == of[m]), patterns=[dt.has(A[n], m)]))
        it.st.ghost['clusters'] = (of, r, it.st.nextref, ns)
        return r


class ResetState(Contract):
    """the hidden nodes are divided in new clusters, linked ones being in the same: the invariant of the graph holds again"""
    keys = (ER + '::resetState',)
    light = True

    def pre(self, it, this, args): return open_state(it, this.ref) + links_ok(it, this.ref, None)

    def model(self, it, this, args):
        K = kinds(it)['clusters']
        nr = it.st.nextref
        havoc_new(it, [CNODES, CCONN], nr)
        n = it.fresh('next', IntSort())
        it.assume(n >= nr)
        it.st.nextref = n
        for w in it.writes: w.alloc = True
        r = it.fresh('clusters', K[1].sort)
        it.assume(K[1].wf(r))
        it.write(slv(it, this.ref, 'clusters'), r)
        of = it.fresh('cluster', z3.ArraySort(IntSort(), IntSort()))
        clu = lambda m: of[m]
        for nm, x in state_ok(it, this.ref, clu) + links_ok(it, this.ref, clu): it.assume(x)
        it.st.ghost['clusters'] = (of, r, n, None)

    def setup(self, it, f, this, args):
        S, K = state(it, this.ref), kinds(it)
        N, E = K['nodes'][1], K['evidences'][1]
        ndt = mdt(it, CNODES)
        k = z3.Const('k?rs', VKey.sort)
        m = z3.Int('m?rs')
        nodes, ev = S['nodes'], S['evidences']
        pos = z3.Select(N.get(nodes, 'pos'), k)

        def hint(it, info, entry, trans):
            out = []
            vm = vk(*heaps(it), z3.Select(it.harr(VAR, IntSort()), m))
            for l in info.leaves:
                if l.path and l.path[-1][0] == 'dt' and l.path[-1][1] is ndt and l.path[-1][2] == 'dom':
                    d = l.sym
                    out.append(('hidden nodes so far', z3.ForAll([k], z3.Implies(z3.And(N.has(nodes, k), pos < info.n, z3.Not(E.has(ev, k))), d[N.val(nodes, k)]), patterns=[N.val(nodes, k)])))
                    out.append(('hidden nodes only', z3.ForAll([m], z3.Implies(d[m], z3.And(N.has(nodes, vm), N.val(nodes, vm) == m, z3.Not(E.has(ev, vm)))), patterns=[d[m]])))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        if kind == 'throw': it.check('does not throw', FALSE); return
        S, S0 = state(it, this.ref), old_state(it, old, this.ref)
        for x in ('nodes', 'evidences'): it.check(x + ' unchanged', S[x] == S0[x])
        it.check('variables unchanged', it.val_eq(S['variables'], S0['variables']))
        unchanged_state(it, old, this)
        unchanged(it, old, (STATE,))
        g = it.st.ghost.get('clusters')
        if g is None: raise Unsupported('clusters made otherwise')
        clu = lambda m: g[0][m]
        for nm, x in state_ok(it, this.ref, clu): it.check('holds: ' + nm, x)
        check_links(it, old, this.ref, clu)


class SetEvidence(Contract):
    """the variable becomes observed with that value: all its links become disabled, keeping their factors, every neighbour
    receives the slice for the value and drops what depended on the former one; the invariant of the graph is kept; refused,
    leaving everything as it was, for an unknown variable or a value out of range"""
    keys = (ES + '::setEvidence',)
    light = True

    def sig(self, prog, f): return prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def pre(self, it, this, args): return [valid_var(it, it.read(args[0]))] + state_ok(it, this.ref) + links_ok(it, this.ref) + evidences_ok(it, this.ref)

    def setup(self, it, f, this, args):
        v, k0 = var_arg(it, args[0])
        val = it.read(args[1])
        S, K = state(it, this.ref), kinds(it)
        N, C, E = [K[q][1] for q in ('nodes', 'clusters', 'evidences')]
        n0 = N.val(S['nodes'], k0)
        for k in (ACT, DIS): H(it, k, n0)
        dt, ndt = mdt(it, DIS), mdt(it, CNODES)
        self.x = (v, k0, val, n0)
        x0 = z3.Select(it.harr(VAR, IntSort()), n0)

        def hint(it, info, entry, trans):
            keys = {l.base[1] for l in info.leaves if l.base[0] in 'hH'}
            nx = info.nextref if info.nextref is not None else entry.nextref
            k, q = z3.Ints('k?se q?se')
            e = lambda key: entry.heap.get(key) if entry.heap.get(key) is not None else (it.entry_arrays[key] if key in it.entry_arrays else it.harr(key, it.fsorts[key]))
            out = []
            if ACT in keys:
                a, b = Links(it, e), links_loop(it, info, entry)
                moved, fs = moved_facts(it, a, b, n0, ACT, DIS, entry.nextref, nx)
                out += [(nm, forall(*x)) for nm, *x in fs]
                out.append(('messages of other connections', forall([q], z3.Implies(z3.And(0 < q, q < entry.nextref), b.msg[q] == a.msg[q]), [b.msg[q]])))
            elif MSG in keys:
                a, b = Links(it, e), links_loop(it, info, entry)
                d = a.dis[n0]
                pos = z3.Select(dt.get(d, 'pos'), k)
                c = dt.val(a.dis[k], n0)
                out += [('slices so far', forall([k], z3.Implies(z3.And(dt.has(d, k), pos < info.n), z3.And(b.msg[c] >= entry.nextref, b.msg[c] < nx, slice_of(it, b.made, b.msg[c], a.fac[c], x0, val))), [dt.has(d, k)])),
                        ('merged unaries dropped so far', forall([k], z3.Implies(z3.And(dt.has(d, k), pos < info.n), read_cache(it, b.mer[k]) == 0), [dt.has(d, k), b.mer[k]])),
                        ('messages of other connections', forall([q], z3.Implies(z3.And(0 < q, q < entry.nextref, z3.Not(z3.And(OWNF(q) == fcode(DIS), OWNK(q) == n0))), b.msg[q] == a.msg[q]), [b.msg[q]])),
                        ('merged unaries of other nodes', forall([q], z3.Implies(z3.Not(dt.has(d, q)), b.mer[q] == a.mer[q]), [b.mer[q]]))]
            elif CNODES in keys and 'clusters' in entry.ghost:
                of, r, nr, ns = entry.ghost['clusters']
                pr, sr = C.get(r, 'pos'), C.get(r, 'seq')
                cn0, cc0 = e(CNODES), e(CCONN)
                cl0 = at_old(it, entry, lambda: state(it, this.ref))['clusters']
                for l in info.leaves:
                    if l.base[0] == 'H' and l.base[1] == CNODES:
                        out.append(('nodes of the new clusters', forall([q], z3.Implies(z3.And(0 <= q - nr, q - nr < info.n), l.sym[q] == cn0[sr[q - nr]]), [l.sym[q]])))
                        out.append(('nodes of the other clusters', forall([q], z3.Implies(z3.And(q < nr, z3.Or(z3.Not(C.has(r, q)), pr[q] >= info.n)), l.sym[q] == cn0[q]), [l.sym[q]])))
                    if l.base[0] == 'H' and l.base[1] == CCONN:
                        out.append(('order of the new clusters', forall([q], z3.Implies(z3.And(0 <= q - nr, q - nr < info.n), read_cache(it, l.sym[q]) == 0), [l.sym[q]])))
                        out.append(('order of the other clusters', forall([q], z3.Implies(z3.And(q < nr, z3.Or(z3.Not(C.has(r, q)), pr[q] >= info.n)), l.sym[q] == cc0[q]), [l.sym[q]])))
                    if l.path and l.path[-1][0] == 'dt' and l.path[-1][1] is C and l.path[-1][2] == 'dom':
                        out.append(('clusters so far', forall([q], l.sym[q] == z3.Or(C.has(cl0, q), z3.And(0 <= q - nr, q - nr < info.n)), [l.sym[q]])))
                if info.nextref is not None: out.append(('one object for each cluster', info.nextref == nr + info.n))
            return out
        it.hints = [hint] + it.hints

    def outcome(self, it, f, this, args, kind, v, old):
        from c_message import varsz
        x, k0, val, n0 = self.x
        S, K = state(it, this.ref), kinds(it)
        S0 = old_state(it, old, this.ref)
        N, C, E = [K[q][1] for q in ('nodes', 'clusters', 'evidences')]
        bad = z3.Or(val >= varsz(it, x), z3.Not(N.has(S0['nodes'], k0)))
        if kind == 'throw':
            it.check('refused only for an unknown variable or a value out of range', bad)
            unchanged(it, old)
            return
        it.check('refused for an unknown variable or a value out of range', z3.Not(bad))
        ev, ev0 = S['evidences'], S0['evidences']
        q = it.fresh('q', VKey.sort)
        it.check('observed with the value', z3.And(E.has(ev, k0), E.val(ev, k0) == val))
        it.check('other evidences unchanged', z3.Implies(q != k0, z3.And(E.has(ev, q) == E.has(ev0, q), E.val(ev, q) == E.val(ev0, q), z3.Select(E.get(ev, 'key'), q) == z3.Select(E.get(ev0, 'key'), q))))
        it.check('variables and nodes unchanged', z3.And(S['nodes'] == S0['nodes'], it.val_eq(S['variables'], S0['variables'])))
        unchanged_state(it, old, this)
        a, b = links_old(it, old), links_now(it)
        moved, fs = moved_facts(it, a, b, n0, ACT, DIS, old.nextref, it.st.nextref)
        for nm, vs, g, ps in fs: it.check(nm, z3.substitute(g, *[(y, it.fresh('any', IntSort())) for y in vs]))
        dt = mdt(it, DIS)
        m = it.fresh('m', IntSort())
        it.assume(z3.And(m > 0, m < it.st.nextref))
        it.check('no active link is left', z3.Not(dt.has(b.act[n0], m)))
        lk = dt.has(b.dis[n0], m)
        c = dt.val(b.dis[m], n0)
        it.check('slices for the value', z3.Implies(lk, z3.And(b.msg[c] >= old.nextref, slice_of(it, b.made, b.msg[c], b.fac[c], H(it, VAR, n0), val))))
        it.check('merged unaries of the neighbours dropped', z3.Implies(lk, read_cache(it, b.mer[m]) == 0))
        it.check('merged unaries of other nodes unchanged', z3.Implies(z3.And(m < old.nextref, z3.Not(lk)), b.mer[m] == a.mer[m]))
        r = it.fresh('r', IntSort())
        it.check('other messages unchanged', z3.Implies(z3.And(r > 0, r < old.nextref, z3.Not(z3.And(OWNF(r) == fcode(DIS), OWNK(r) == n0))), b.msg[r] == a.msg[r]))
        o = it.T.kind(it.ftypes[LAST])[1]
        it.check('belief dropped', z3.Not(o.has(H(it, LAST, this.ref))))
        unchanged(it, old, (STATE, ACT, DIS, MSG, FAC, MER), {LAST: [this.ref]})
        g = it.st.ghost.get('clusters')
        clu = CLU
        if g is not None:
            of, rr, nr, ns = g
            new = lambda y: nr + z3.Select(C.get(rr, 'pos'), of[y])
            ndt = mdt(it, CNODES)
            clu = lambda y: z3.If(ndt.has(ns, y), new(y), CLU(y))
        for nm, x_ in state_ok(it, this.ref, clu): it.check('kept: ' + nm, x_)
        for nm, x_ in evidences_ok(it, this.ref): it.check('kept: ' + nm, x_)
        check_links(it, old, this.ref, clu)


class RemoveEvidences(Contract):
    """the given evidences, and no other one, are removed, and the invariant of the graph holds; refused, leaving everything as it was, when
    one of the variables is not observed"""
    light = True

    def gone(self, it, args, S0, k): raise NotImplementedError

    def bad(self, it, args, S0): return FALSE

    def more(self, it, this, args): return []

    def pre(self, it, this, args): return state_ok(it, this.ref) + links_ok(it, this.ref) + evidences_ok(it, this.ref) + self.more(it, this, args)

    def left(self, it, info, S0, args, E, ev, k): return []

    def setup(self, it, f, this, args):
        S0, K = state(it, this.ref), kinds(it)
        E = K['evidences'][1]
        k = z3.Const('k?re', VKey.sort)
        self.S0 = S0

        def props(it, info):
            if not any(l.base[0] in 'hH' for l in info.leaves): return []
            S = state(it, this.ref)
            out = open_graph(it, this.ref)
            ev, ev0 = S['evidences'], S0['evidences']
            out += [(nm, z3.ForAll([k], z3.Implies(g, x), patterns=[E.has(ev, k)])) for nm, g, x in self.left(it, info, S0, args, E, ev, k)]
            out += [('evidences are only removed', z3.ForAll([k], z3.Implies(E.has(ev, k), z3.And(E.has(ev0, k), E.val(ev, k) == E.val(ev0, k), z3.Select(E.get(ev, 'key'), k) == z3.Select(E.get(ev0, 'key'), k))), patterns=[E.has(ev, k)])),
                    ('nodes unchanged', S['nodes'] == S0['nodes']), ('clusters unchanged', S['clusters'] == S0['clusters']), ('variables unchanged', S['variables'] == S0['variables'])]
            return out
        iteration_hint(it, props)

    def outcome(self, it, f, this, args, kind, v, old):
        S, S0 = state(it, this.ref), old_state(it, old, this.ref)
        E = kinds(it)['evidences'][1]
        if kind == 'throw':
            self.check_refused(it, args, S0, E)
            unchanged(it, old)
            return
        self.check_accepted(it, args, S0, E)
        k = it.fresh('k', VKey.sort)
        ev, ev0 = S['evidences'], S0['evidences']
        gone = self.gone(it, args, S0, k)
        it.check('exactly these evidences are removed', E.has(ev, k) == z3.And(E.has(ev0, k), z3.Not(gone)))
        it.check('the others keep their value', z3.Implies(E.has(ev, k), z3.And(E.val(ev, k) == E.val(ev0, k), z3.Select(E.get(ev, 'key'), k) == z3.Select(E.get(ev0, 'key'), k))))
        it.check('variables and nodes unchanged', z3.And(S['nodes'] == S0['nodes'], it.val_eq(S['variables'], S0['variables'])))
        unchanged_state(it, old, this)
        g = it.st.ghost.get('clusters')
        clu = CLU if g is None else (lambda m: g[0][m])
        for nm, x in state_ok(it, this.ref, clu) + evidences_ok(it, this.ref): it.check('kept: ' + nm, x)
        check_links(it, old, this.ref, clu)
        unchanged(it, old, (STATE, ACT, DIS, MSG, FAC, MER, LAST))

    def check_refused(self, it, args, S0, E): it.check('does not throw', FALSE)

    def check_accepted(self, it, args, S0, E): pass


class RemoveOne(RemoveEvidences):
    keys = (ER + '::removeEvidence',)

    def sig(self, prog, f): return prog.ty(f['ps'][0]['t']).noref().isrec('std::shared_ptr')

    def more(self, it, this, args): return [valid_var(it, it.read(args[0]))]

    def gone(self, it, args, S0, k): return k == var_arg(it, args[0])[1]

    def check_refused(self, it, args, S0, E): it.check('refused only when not observed', z3.Not(E.has(S0['evidences'], var_arg(it, args[0])[1])))

    def check_accepted(self, it, args, S0, E): it.check('refused when not observed', E.has(S0['evidences'], var_arg(it, args[0])[1]))


class RemoveMany(RemoveEvidences):
    keys = (ER + '::removeEvidences',)

    def sig(self, prog, f): return prog.recname(f['ps'][0]['t']) != 'str' if False else 'basic_string' not in prog.ty(f['ps'][0]['t']).s

    def more(self, it, this, args): return [('variables', keys_ok(it, SET, it.read(args[0])))]

    def gone(self, it, args, S0, k): return SET.has(it.read(args[0]), k)

    def left(self, it, info, S0, args, E, ev, k):
        s = it.read(args[0])
        p = z3.Select(SET.get(s, 'pos'), k)
        return [('evidences not visited yet', z3.And(E.has(S0['evidences'], k), z3.Or(z3.Not(SET.has(s, k)), p >= info.n)), E.has(ev, k)),
                ('evidences visited so far', z3.And(SET.has(s, k), p < info.n), z3.Not(E.has(ev, k)))]

    def check_refused(self, it, args, S0, E):
        k = z3.Const('k?rf', VKey.sort)
        it.check('refused only when one is not observed', z3.Exists([k], z3.And(SET.has(it.read(args[0]), k), z3.Not(E.has(S0['evidences'], k)))))

    def check_accepted(self, it, args, S0, E):
        k = it.fresh('k', VKey.sort)
        it.check('refused when one is not observed', z3.Implies(SET.has(it.read(args[0]), k), E.has(S0['evidences'], k)))


class RemoveAll(RemoveEvidences):
    keys = (ER + '::removeAllEvidences',)

    def gone(self, it, args, S0, k): return TRUE


ALL = [Locate(), SameVariable(), FindOrMake(), AddUnary(), Hybrid(), AddBinary(), AddDistribution(), RemoveEvidence1(), ComputeClusters(), ResetState(), SetEvidence(), RemoveOne(), RemoveMany(), RemoveAll()]
