"""Path enumeration: the body is re-executed once per feasible combination of branch decisions."""
import math, random, time
from fractions import Fraction
import mpmath
from . import sym as s_, smt
from .sym import SymBool, Unsupported, PathAbort, bnot

_cur = None
FP = mpmath.fp


class Domain:
    """variables with sampling ranges + constraints"""

    def __init__(self, ranges, pre=(), seed=0, special=None):
        self.ranges = ranges            # name -> (lo, hi)
        self.pre = [p for p in pre if p is not True]
        self.rng = random.Random(seed)
        self.special = special or {}
        self._bank = None

    def draw(self, rng=None):
        rng = rng or self.rng
        env = {}
        for k, (lo, hi) in self.ranges.items():
            lo, hi = float(lo), float(hi)
            if k in self.special and rng.random() < 0.15:
                env[k] = rng.choice(self.special[k])
            elif lo > 0 and hi / lo > 1e6 or lo > 0 and hi / lo > 30 and rng.random() < 0.5:
                env[k] = math.exp(rng.uniform(math.log(lo), math.log(hi)))
            elif lo == 0 and hi > 0 and rng.random() < 0.08:
                env[k] = hi * 10 ** rng.uniform(-6, -1)
            else:
                env[k] = rng.uniform(lo, hi)
        return env

    def ok(self, env, extra=()):
        for p in list(self.pre) + list(extra):
            try:
                if not s_.evaluate(p, env, FP):
                    return False
            except (ValueError, ZeroDivisionError, TypeError, OverflowError, KeyError):
                return False
        return True

    def descend(self, conds, want=3, budget=2.0, seed=5):
        """points of the domain that satisfy conditions ordinary sampling does not meet: minimise their violation"""
        conds = [c for c in list(self.pre) + list(conds) if not isinstance(c, bool)]
        names = sorted(set().union(*[s_.free_vars(c) for c in conds]) & set(self.ranges)) if conds else []
        base = self.bank()
        out = []
        if not names or not base:
            return out
        rng = random.Random(seed)
        end = time.time() + budget

        def cost(e):
            memo = {}
            t = 0.0
            for c in conds:
                t += violation(c, e, memo)
                if t == float('inf'):
                    break
            return t
        starts = list(base)
        rng.shuffle(starts)
        for e0 in starts:
            if time.time() > end or len(out) >= want:
                break
            e = {k: float(x) if not isinstance(x, list) else x for k, x in e0.items()}
            c = cost(e)
            stall = 0
            while c > 0 and stall < 250 and time.time() < end:
                k = rng.choice(names)
                lo, hi = map(float, self.ranges[k])
                n = dict(e)
                m = rng.random()
                if m < .5:
                    n[k] = e[k] + rng.gauss(0, 1) * (hi - lo) * 10 ** rng.uniform(-7, -.3)
                elif m < .65:
                    n[k] = e[k] * (1 + rng.gauss(0, 1) * 10 ** rng.uniform(-7, -.3))
                elif m < .75:
                    n[k] = e[rng.choice(names)] * (1 + rng.choice([0, 0, 1, -1]) * 10 ** rng.uniform(-9, -1.5))
                elif m < .85:
                    n[k] = rng.choice([lo, hi])
                elif m < .93:
                    n[k] = lo + (hi - lo) * 10 ** rng.uniform(-6, 0)
                else:
                    n[k] = rng.uniform(lo, hi)
                n[k] = min(max(n[k], lo), hi)
                d = cost(n)
                stall += 1
                if d < c or d == c and rng.random() < .3:
                    if d < c * .999:
                        stall = 0
                    e, c = n, d
            if c == 0 and self.ok(e):
                out.append(e)
        return out

    def bank(self, n=48):
        if self._bank is None:
            self._bank = []
            for _ in range(n * 40):
                e = self.draw()
                if self.ok(e):
                    self._bank.append(e)
                    if len(self._bank) >= n:
                        break
        return self._bank


class Path:
    def __init__(self, dom, prefix, deadline, maxdec=200):
        self.dom = dom
        self.prefix = prefix
        self.trace = []          # (cond, decision, has_alternative)
        self.pc = []
        self.known = {}
        self.deadline = deadline
        self.maxdec = maxdec
        self.samples = list(dom.bank())

    def decide(self, b):
        if isinstance(b, bool):
            return b
        if b.uid in self.known:
            return self.known[b.uid]
        nb = bnot(b)
        if isinstance(nb, SymBool) and nb.uid in self.known:
            return not self.known[nb.uid]
        if time.time() > self.deadline:
            raise Unsupported('time budget for path exploration')
        i = len(self.trace)
        if i >= self.maxdec:
            raise Unsupported('too many branch decisions on one path')
        if i < len(self.prefix):
            d, alt = self.prefix[i], False
        else:
            st = [_holds(b, e) for e in self.samples]
            can_t = any(x is True for x in st)
            can_f = any(x is False for x in st)
            hyp = self.dom.pre + self.pc
            if not can_t:
                can_t = smt.check(hyp + [b], 800) != 'unsat'
            if not can_f:
                can_f = smt.check(hyp + [nb], 800) != 'unsat'
            if not can_t and not can_f:
                raise PathAbort()
            d = can_t
            alt = can_t and can_f
        self.trace.append((b, d, alt))
        self.take(b if d else nb)
        self.known[b.uid] = d
        return d

    def take(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.pc.append(c)
        self.known[c.uid] = True
        self.samples = [e for e in self.samples if _holds(c, e) is not False]


def violation(c, env, memo):
    """how far a condition is from holding at a point (0: it holds)"""
    if isinstance(c, bool):
        return 0.0 if c else float('inf')
    o = c.op
    if o == 'and':
        return sum(violation(x, env, memo) for x in c.args)
    if o == 'or':
        return min(violation(x, env, memo) for x in c.args)
    if o == 'not':
        d = c.args[0]
        if d.op in ('and', 'or'):
            f = sum if d.op == 'or' else min
            return f(violation(bnot(x), env, memo) for x in d.args)
        try:
            return 1.0 if s_.evaluate(d, env, FP, memo) else 0.0
        except Exception:
            return float('inf')
    try:
        if s_.evaluate(c, env, FP, memo):
            return 0.0
        if o not in ('lt', 'le', 'eq'):
            return 1.0
        a, b = [float(s_.evaluate(x, env, FP, memo)) for x in c.args]
        d = abs(a - b) / (abs(a) + abs(b) + 1e-300)
        return d + 1e-14 if d == d else float('inf')
    except Exception:
        return float('inf')


def _holds(b, env):
    try:
        return bool(s_.evaluate(b, env, FP))
    except Exception:
        return None


def decide(b):
    if _cur is None:
        raise Unsupported('truth value of a symbolic condition outside exploration')
    return _cur.decide(b)


def assume(b):
    if _cur is None:
        raise Unsupported('assume outside exploration')
    if b is True:
        return
    _cur.take(b)


def current():
    return _cur


def run_paths(body, dom, max_paths=400, budget_s=60.0):
    """yield (path, kind, value): kind 'ret' | 'exc' | 'unsupported'"""
    global _cur
    deadline = time.time() + budget_s
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        p = Path(dom, prefix, deadline)
        n += 1
        if n > max_paths:
            yield p, 'unsupported', Unsupported('more than %d paths' % max_paths)
            return
        old, _cur = _cur, p
        from . import arr
        arr.MAP[0], arr.MAPPED[0] = None, False
        try:
            try:
                r = ('ret', body())
            except PathAbort:
                r = None
            except Unsupported as e:
                r = ('unsupported', e)
            except RecursionError as e:
                r = ('unsupported', Unsupported('recursion'))
            except Exception as e:
                if isinstance(e.__cause__, Unsupported) or isinstance(e.__context__, Unsupported):
                    r = ('unsupported', Unsupported(str(e)))
                else:
                    r = ('exc', e)
        finally:
            _cur = old
        # schedule alternatives
        for i in range(len(p.trace) - 1, len(prefix) - 1, -1):
            b, d, alt = p.trace[i]
            if alt:
                stack.append([t[1] for t in p.trace[:i]] + [not d])
        if r is not None:
            yield p, r[0], r[1]
