"""Abstraction of products of reals: x*y becomes an uninterpreted function, about which a few facts that hold for
multiplication are stated. Only weakens what the solver knows, so a proof found with it is a proof."""
import z3

RM = z3.Function('times', z3.RealSort(), z3.RealSort(), z3.RealSort())


def axioms():
    x, y, z = z3.Reals('x?t y?t z?t')
    return [z3.ForAll([x, y], z3.And(RM(x, y) == RM(y, x), (RM(x, y) == 0) == z3.Or(x == 0, y == 0), z3.Implies(x == 1, RM(x, y) == y), z3.Implies(z3.And(x >= 0, y >= 0), RM(x, y) >= 0)), patterns=[RM(x, y)]),
            z3.ForAll([x, y, z], RM(RM(x, y), z) == RM(RM(x, z), y), patterns=[RM(RM(x, y), z)])]


def lemmas():
    """the axioms, for multiplication"""
    x, y, z = z3.Reals('x y z')
    return [('times: commutative', [], x * y == y * x), ('times: zero', [], (x * y == 0) == z3.Or(x == 0, y == 0)), ('times: one', [x == 1], x * y == y),
            ('times: sign', [x >= 0, y >= 0], x * y >= 0), ('times: exchange', [], (x * y) * z == (x * z) * y)]


class Abs:
    def __init__(self):
        self.c = {}
        self.n = 0

    def __call__(self, e):
        k = e.get_id()
        r = self.c.get(k)
        if r is not None and r[0].eq(e): return r[1]
        r = self.go(e)
        self.c[k] = (e, r)
        return r

    def go(self, e):
        if z3.is_quantifier(e):
            vs = []
            for i in range(e.num_vars()):
                self.n += 1
                vs.append(z3.Const('%s?a%d' % (e.var_name(i), self.n), e.var_sort(i)))
            rv = list(reversed(vs))
            b = self(z3.substitute_vars(e.body(), *rv))
            ps = []
            for i in range(e.num_patterns()):
                ts = [self(z3.substitute_vars(t, *rv)) for t in e.pattern(i).children()]
                ps.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
            if e.is_lambda(): return z3.Lambda(vs, b)
            return (z3.ForAll if e.is_forall() else z3.Exists)(vs, b, patterns=ps)
        if not z3.is_app(e) or e.num_args() == 0: return e
        ch = [self(x) for x in e.children()]
        if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_real(e):
            num = [x for x in ch if z3.is_rational_value(x)]
            rest = [x for x in ch if not z3.is_rational_value(x)]
            if len(rest) >= 2:
                r = rest[0]
                for x in rest[1:]: r = RM(r, x)
                for x in num: r = x * r
                return r
        if all(a.eq(b) for a, b in zip(ch, e.children())): return e
        d = e.decl()
        if d.kind() == z3.Z3_OP_AND: return z3.And(*ch)
        if d.kind() == z3.Z3_OP_OR: return z3.Or(*ch)
        if d.kind() == z3.Z3_OP_ADD: return z3.Sum(*ch)
        if d.kind() == z3.Z3_OP_DISTINCT: return z3.Distinct(*ch)
        if d.kind() == z3.Z3_OP_MUL: return z3.Product(*ch)
        return d(*ch)


class AbsSolver:
    """a solver that sees the abstraction of what is added"""

    def __init__(self, s, ab, few=False):
        self.s, self.ab = s, ab
        for a in axioms()[:1 if few else None]: s.add(a)

    def add(self, *fs):
        for f in fs: self.s.add(self.ab(f))

    def __getattr__(self, n): return getattr(self.s, n)
