"""Builds the verification context from the extracted program and runs contracts in parallel worker processes."""
import os, time, importlib, multiprocessing, signal, traceback
import z3
import front, sorts, verify, spec, c_range, c_group
from sorts import Unsupported

MODULES = ['c_range', 'c_group', 'c_table', 'c_factor', 'c_message', 'c_misc', 'c_graph', 'c_node', 'c_train', 'c_query', 'c_state', 'c_edit']
CTX = None
# scheduling only: the ones that take longest are started first
SLOW = {'FactorMerge': 300, 'MessageSum': 98, 'MessageMax': 80, 'ResetMessages': 90, 'GatherVariables': 50, 'MergedMany': 28, 'Disable': 20, 'EvidenceCtor': 15, 'Activate': 11, 'UpdateMessage': 10, 'ClonePermuted': 10}


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.spec = S = spec.Spec()
        S.canonf
        c_range.setup_abs(S)
        self.mods = []
        for m in MODULES:
            if os.path.exists(os.path.join(front.HERE, m + '.py')): self.mods.append(importlib.import_module(m))
        self.contracts = [c for m in self.mods for c in m.ALL]
        self.layers = {}

    def axioms(self, con):
        S = self.spec
        gs = getattr(con, 'axioms', ('dom', 'fold'))
        r = [f for g in gs for f in S.groups.get(g, [])]
        for m in self.mods:
            if hasattr(m, 'axioms'): r += m.axioms()
        return r

    def layer(self, name):
        """concrete: GroupRange as it is represented; main: by its abstract value"""
        if name not in self.layers:
            if name == 'concrete':
                T = sorts.Types(self.prog)
                cs = [c for c in self.contracts if getattr(c, 'layer', 'main') in ('main', 'both') and not isinstance(c, c_range.GRContract)]
            else:
                T = sorts.Types(self.prog, {c_range.RN: c_range.ABS})
                cs = [c for c in self.contracts]
            self.layers[name] = (T, verify.Registry(self.prog, cs))
        return self.layers[name]

    def tasks(self, names):
        """[(contract index, function id, label)]; a contract without a matching function is reported"""
        res, missing = [], []
        for n in names:
            for i, c in enumerate(self.contracts):
                if type(c).__name__ != n or not c.checked: continue
                fs = [f for k in c.keys for f in self.prog.byname.get(k, []) if c.sig(self.prog, f)]
                fs = [f for f in fs if not f.get('implicit')]
                if not fs: missing.append((n, c.keys))
                for f in fs: res.append((i, f['id'], f.get('key')))
        return res, missing


class V(verify.Verifier):
    invs = {}


def run_task(arg):
    i, fid, label, budget, end = arg
    ctx = CTX
    con = ctx.contracts[i]
    f = ctx.prog.fn[fid]
    t0 = time.time()
    lay = getattr(con, 'layer', 'main')
    T, reg = ctx.layer('concrete' if lay == 'concrete' else 'main')
    it = V(ctx.prog, T, reg, ctx.axioms(con), ctx.spec)
    for m in ctx.mods:
        if hasattr(m, 'install'): m.install(it)
    it.deadline = min(t0 + budget, end)
    res = {'contract': type(con).__name__, 'fn': label, 'sig': ctx.prog.sig(f), 'file': f.get('file', ''), 'line': f.get('line', 0), 'error': None}
    try:
        it.verify(con, f)
    except Unsupported as e: res['error'] = 'unsupported: %s' % e
    except z3.Z3Exception as e: res['error'], res['tb'] = 'engine: %s' % str(e)[:300], traceback.format_exc()[-1500:]
    except RecursionError: res['error'] = 'engine: recursion'
    except Exception as e:
        res['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        res['tb'] = traceback.format_exc()[-1500:]
    if it.wall_hit:     # an invariant may be missing for lack of time: no verdict
        for o in it.obls:
            if o.status == 'unknown': o.status = 'timeout'
    res['wall_hit'] = it.wall_hit
    res['obls'] = [(o.name, o.line, o.status, round(o.secs, 3), o.backend, o.detail) for o in it.obls]
    res['used'] = sorted({type(c).__name__ for c in it.used_contracts})
    res['inlined'] = sorted(it.inlined)
    res['std'] = sorted(it.assumed_std)
    res['assumed'] = sorted(getattr(it, 'assumed_misc', ()))
    res['secs'] = round(time.time() - t0, 2)
    res['solver_secs'] = round(it.solver_secs, 2)
    return res


def run(prog, names, budget, procs=8, total=None):
    """budget: seconds per function; total: seconds for all of them"""
    global CTX
    CTX = Ctx(prog)
    CTX.layer('concrete'); CTX.layer('main')
    tasks, missing = CTX.tasks(names)
    end = time.time() + (total or 1e6)
    tasks.sort(key=lambda t: -SLOW.get(type(CTX.contracts[t[0]]).__name__, 0))
    args = [(i, f, l, budget, end) for i, f, l in tasks]
    out = []
    if args:
        with multiprocessing.get_context('fork').Pool(min(procs, len(args)), maxtasksperchild=1) as pool:
            pend = [(a, pool.apply_async(run_task, (a,))) for a in args]
            for a, r in pend:
                try: out.append(r.get(timeout=max(1, min(budget * 2 + 60, end + 45 - time.time()))))
                except multiprocessing.TimeoutError:
                    out.append({'contract': type(CTX.contracts[a[0]]).__name__, 'fn': a[2], 'sig': '', 'error': 'unsupported: worker time limit', 'obls': [], 'used': [], 'inlined': [], 'std': [], 'assumed': [], 'secs': budget, 'solver_secs': budget, 'file': '', 'line': 0})
            pool.terminate()
    return out, missing


def lemmas(ctx=None):
    ctx = ctx or CTX
    res = ctx.spec.prove_lemmas()
    import nlabs
    for m in ctx.mods + [nlabs]:
        if hasattr(m, 'lemmas'):
            for name, hyps, goal in m.lemmas():
                t = time.time()
                s = z3.Solver()
                s.set('timeout', 20000)
                for h in hyps: s.add(h)
                s.add(z3.Not(goal))
                r = s.check()
                res.append((name, 'proved' if r == z3.unsat else str(r), time.time() - t))
    return res
