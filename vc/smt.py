"""Translation of terms/conditions to QF_NRA and discharge with z3 (nlsat); cvc5 as a second back end for lemmas."""
import time
from fractions import Fraction
import z3
from . import sym as s_
from .sym import Sym, SymBool, Unsupported

STATS = {'calls': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}


class Tr:
    def __init__(self, intvars=()):
        self.m = {}
        self.side = []
        self.vars = {}
        self.aux = {}
        self.intvars = set(intvars)

    def q(self, f):
        return z3.RealVal(str(Fraction(f)))

    def v(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Real('v!' + name)
            if name == '#N':
                self.side.append(self.vars[name] >= 1)
        return self.vars[name]

    def pi(self):
        p = self.vars.get('@pi')
        if p is None:
            p = self.vars['@pi'] = z3.Real('@pi')
            self.side += [p > self.q(Fraction('3.14159265358')), p < self.q(Fraction('3.14159265359'))]
        return p

    def new(self):
        n = z3.Real('@a%d' % len(self.aux))
        self.aux[str(n)] = n
        return n

    def tr(self, root):
        if isinstance(root, bool):
            return z3.BoolVal(root)
        for n in s_.topo(root):
            if n.uid not in self.m:
                self.m[n.uid] = self.node(n)
        return self.m[root.uid]

    def node(self, n):
        o = n.op
        a = [self.m[x.uid] for x in n.args]
        if o == 'c':
            return self.q(n.val)
        if o == 'v':
            return self.v(n.val)
        if o == 'pi':
            return self.pi()
        if o == '+':
            return a[0] + a[1]
        if o == '*':
            return a[0] * a[1]
        if o == 'lt':
            return a[0] < a[1]
        if o == 'le':
            return a[0] <= a[1]
        if o == 'eq':
            return a[0] == a[1]
        if o == 'not':
            return z3.Not(a[0])
        if o == 'and':
            return z3.And(*a)
        if o == 'or':
            return z3.Or(*a)
        if o == 'ite':
            return z3.If(a[0], a[1], a[2])
        if o == 'bvar':
            return z3.Bool('b!%s' % (n.val,))
        if o == '^':
            e = n.args[1]
            b = a[0]
            if e.op == 'c':
                p, q = e.val.numerator, e.val.denominator
                if q == 1 and abs(p) <= 12:
                    r = self.ipow(b, abs(p))
                    if p < 0:
                        y = self.new()
                        self.side.append(y * r == 1)
                        return y
                    return r
                y = self.new()
                self.side.append(z3.Implies(b >= 0, y >= 0))
                if max(abs(p), q) > 8:
                    # high degree: only sign and monotonicity about 1
                    self.side.append(z3.Implies(b > 0, y > 0))
                    big = (y >= 1) if p > 0 else (y <= 1)
                    self.side.append(z3.Implies(b >= 1, big))
                    self.side.append(z3.Implies(z3.And(b > 0, b <= 1), (y <= 1) if p > 0 else (y >= 1)))
                    if p > 0:
                        self.side.append(z3.Implies(b == 0, y == 0))
                    if p > q:
                        self.side.append(z3.Implies(b >= 1, y >= b))
                    return y
                if p > 0:
                    self.side.append(z3.Implies(b >= 0, self.ipow(y, q) == self.ipow(b, p)))
                else:
                    self.side.append(z3.Implies(b > 0, z3.And(y > 0, self.ipow(y, q) * self.ipow(b, -p) == 1)))
                return y
            y = self.new()
            self.side.append(z3.Implies(b > 0, y > 0))
            self.side.append(z3.Implies(z3.And(b > 0, b <= 1, a[1] >= 0), y <= 1))
            self.side.append(z3.Implies(z3.And(b >= 1, a[1] >= 0), y >= 1))
            return y
        if o == 'f':
            y = self.new()
            u = a[0] if a else None
            f = n.val
            if f == 'exp':
                self.side += [y > 0, z3.Implies(u >= 0, y >= 1 + u), z3.Implies(u <= 0, y <= 1)]
            elif f in ('sin', 'cos'):
                self.side += [y <= 1, y >= -1]
                other = s_.fn('cos' if f == 'sin' else 'sin', n.args[0])
                if isinstance(other, Sym) and other.uid in self.m:
                    z = self.m[other.uid]
                    self.side.append(y * y + z * z == 1)
                p = self.pi()
                if f == 'sin':
                    self.side += [z3.Implies(z3.And(u >= 0, u <= p), y >= 0), z3.Implies(z3.And(u > 0, u < p), y > 0)]
                else:
                    self.side += [z3.Implies(z3.And(2 * u >= -p, 2 * u <= p), y >= 0),
                                  z3.Implies(z3.And(2 * u > -p, 2 * u < p), y > 0)]
            elif f == 'log':
                self.side += [z3.Implies(u >= 1, y >= 0), z3.Implies(u > 1, y > 0), z3.Implies(z3.And(u > 0, u < 1), y < 0)]
            elif f == 'arccos':
                self.side += [y >= 0, y <= self.pi(), z3.Implies(u < 1, y > 0), z3.Implies(u > 0, 2 * y < self.pi())]
            elif f == 'arccosh':
                self.side += [y >= 0, z3.Implies(u > 1, y > 0)]
            elif f == 'cabs':
                self.side += [y >= 0]
            return y
        raise Unsupported('smt: ' + o)

    def ipow(self, b, k):
        r = None
        for _ in range(k):
            r = b if r is None else r * b
        return r if r is not None else z3.RealVal(1)


def check(conds, timeout_ms=1000, want_model=False):
    """satisfiability of a conjunction of SymBool/bool -> 'sat'/'unsat'/'unknown' (, env)"""
    t0 = time.time()
    tr = Tr()
    try:
        cs = []
        for c in conds:
            if c is True:
                continue
            if c is False:
                return ('unsat', None) if want_model else 'unsat'
            cs.append(tr.tr(c))
    except Unsupported:
        return ('unknown', None) if want_model else 'unknown'
    s = z3.Tactic('qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
    s.set('timeout', int(timeout_ms))
    s.add(*tr.side)
    s.add(*cs)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS['calls'] += 1
    STATS['time'] += time.time() - t0
    STATS[r] += 1
    if not want_model:
        return r
    env = None
    if r == 'sat':
        m = s.model()
        env = {}
        for k, v in tr.vars.items():
            if k.startswith('@'):
                continue
            x = m.eval(v, model_completion=True)
            try:
                env[k] = Fraction(x.as_fraction())
            except Exception:
                try:
                    env[k] = Fraction(x.approx(30).as_fraction())
                except Exception:
                    pass
    return r, env


def prove(hyps, goal, timeout_ms=3000):
    """hyps |= goal ?  True only when z3 says unsat of the negation"""
    return check(list(hyps) + [s_.bnot(goal)], timeout_ms) == 'unsat'


def smt2(hyps, goal):
    tr = Tr()
    s = z3.Solver()
    cs = [tr.tr(c) for c in list(hyps) + [s_.bnot(goal)] if not isinstance(c, bool)]
    s.add(*tr.side)
    s.add(*cs)
    return s.to_smt2()
