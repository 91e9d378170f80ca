"""Discharge of equality obligations  pre /\\ path-condition |= a == b."""
import itertools, time, random
from fractions import Fraction
import mpmath
from . import sym as s_, nf, smt, modular
from .sym import Sym, SymBool, Unsupported

MP = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
MP.dps = 40
TOL = MP.mpf(10) ** -22
CONST_TOL = 1e-9            # constants rounded in the code below this relative effect count as equal


class Verdict:
    __slots__ = ('status', 'method', 'env', 'lhs', 'rhs', 'time', 'note')

    def __init__(self, status, method='', env=None, lhs=None, rhs=None, note=''):
        self.status, self.method, self.env, self.lhs, self.rhs, self.note = status, method, env, lhs, rhs, note
        self.time = 0.0


def orient(pc):
    """substitution from equalities in the path condition (var == term)"""
    sub = {}
    for c in flat(pc):
        if c.op != 'eq':
            continue
        a, b = [s_.substitute(x, sub) for x in c.args]
        if a is b:
            continue
        for x, y in ((a, b), (b, a)):
            if x.op == 'v' and not x.val.startswith('#') and x.val not in s_.free_vars(y):
                sub = {k: s_.substitute(v, {x.uid: y}) for k, v in sub.items()}
                sub[x.uid] = y
                break
    return sub


def flat(pc):
    out = []
    for c in pc:
        if isinstance(c, bool):
            continue
        if c.op == 'and':
            out += flat(c.args)
        else:
            out.append(c)
    return out


def toenv(env):
    return {k: (MP.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else MP.mpf(v)) for k, v in env.items()}


class Prover:
    def __init__(self, dom, pc=(), samples=None, max_terms=60000, budget_s=40.0):
        self.dom = dom
        self.pc = [c for c in pc if c is not True]
        self.samples = samples
        self.max_terms = max_terms
        self.deadline = time.time() + budget_s
        self._nn = {}
        self._envs = {}
        self._desc = 0
        self._dec = {}

    # -- sample environments satisfying a condition list
    def envs(self, conds, n=6):
        key = tuple(c.uid for c in conds if not isinstance(c, bool))
        if key in self._envs:
            return self._envs[key]
        sub = orient(conds)
        out = []
        base = self.samples if self.samples is not None else self.dom.bank()
        cand = list(base)
        rng = random.Random(12345)
        tries = 0
        while len(out) < n and tries < 400:
            if tries < len(cand):
                e = dict(cand[tries])
            else:
                e = self.dom.draw(rng)
            tries += 1
            if sub:
                e = self.apply(sub, e)
                if e is None:
                    continue
            if self.dom.ok(e, [c for c in flat(conds) if c.op != 'eq']):
                out.append(e)
        if not out and conds:
            r, env = smt.check(self.dom.pre + list(conds), 1500, True)
            if r == 'sat' and env:
                e = self.dom.draw(rng)
                e.update(env)
                if self.dom.ok({k: float(v) for k, v in e.items()}, [c for c in flat(conds) if c.op != 'eq']):
                    out.append(e)
            if not out and r != 'unsat' and self._desc < 6 and not any(c.op == 'eq' for c in flat(conds)):
                self._desc += 1
                out = self.dom.descend(conds)
        self._envs[key] = out
        return out

    def apply(self, sub, e):
        e = dict(e)
        for _ in range(3):
            for n, t in sub.items():
                name = self.name_of(n)
                if name is None:
                    continue
                try:
                    e[name] = float(s_.evaluate(t, e, mpmath.fp))
                except Exception:
                    return None
        return e

    def name_of(self, uid):
        if not hasattr(self, '_names'):
            self._names = {}
        if uid not in self._names:
            for k in list(self.dom.ranges):
                self._names[s_.var(k).uid] = k
        return self._names.get(uid)

    def nonneg(self, conds):
        hyp = self.dom.pre + list(conds)

        def f(t):
            key = (t.uid, tuple(c.uid for c in conds if not isinstance(c, bool)))
            if key not in self._nn:
                # numeric pre-filter
                bad = False
                for e in self.envs(conds)[:4]:
                    try:
                        if s_.evaluate(t, e, mpmath.fp) < -1e-12:
                            bad = True
                            break
                    except Exception:
                        pass
                self._nn[key] = False if bad else smt.prove(hyp, s_.le(s_.ZERO, t), 2500)
            return self._nn[key]
        return f

    def eq(self, a, b):
        t0 = time.time()
        v = self._eq(a, b, self.pc, 0)
        if v.status in ('open', 'numeric') and isinstance(a, Sym) and isinstance(b, Sym) and modular.has(a, b):
            w = self._eq(modular.unfold(a), modular.unfold(b), self.pc, 0)
            if ORDER[w.status] <= ORDER[v.status]:
                v = w
        v.time = time.time() - t0
        return v

    def _eq(self, a, b, conds, depth):
        if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
            return self._beq(a, b, conds)
        if a is b:
            return Verdict('proved', 'syntactic')
        if a.op == 'nan' or b.op == 'nan':
            envs = self.envs(conds)
            return Verdict('refuted', 'nan', envs[0] if envs else None, a, b)
        if time.time() > self.deadline:
            return Verdict('open', 'time budget')
        sub = orient(conds)
        if sub:
            a, b = s_.substitute(a, sub), s_.substitute(b, sub)
            if a is b:
                return Verdict('proved', 'syntactic')
        a, b = self.resolve(a, b, conds)
        if a is b:
            return Verdict('proved', 'syntactic after resolving conditions decided by the precondition')
        a, b = self.unify(a, b, conds)
        if a is b:
            return Verdict('proved', 'syntactic after unifying equivalent conditions')
        c = self.asymmetric(a, b)
        if c is not None and depth <= 8:
            return self.split(a, b, c, conds, depth)
        envs = self.envs(conds)
        # numeric refutation
        agree = 0
        worst = None
        for e in envs:
            e2 = dict(e)
            for x in s_.free_vars(a, b):
                if x not in e2:
                    e2[x] = 0.37 + (hash(x) % 997) / 1000.0
            try:
                me = toenv(e2)
                x, y = s_.evaluate(a, me, MP), s_.evaluate(b, me, MP)
                if x != x or y != y:
                    if (x != x) != (y != y):
                        return Verdict('refuted', 'numeric', e, x, y, 'NaN')
                    continue
                d = abs(x - y)
                sc = max(abs(x), abs(y))
                if d > TOL * sc and sc > 0 and d > MP.mpf(10) ** -30:
                    rel = float(d / sc)
                    if worst is None or rel > worst[0]:
                        worst = (rel, e, x, y)
                else:
                    agree += 1
            except (KeyError, ZeroDivisionError, ValueError, TypeError, OverflowError) as ex:
                continue
        if worst is not None:
            if worst[0] <= CONST_TOL:
                w, n = self.widen(a, b, conds)
                if w is not None:
                    return Verdict('refuted', 'numeric', w[1], w[2], w[3])
                if n < 6:
                    return Verdict('open', 'differs by %.1e (relative) on %d sample points' % (worst[0], n))
                return Verdict('numeric', 'equal up to a rounded constant (relative %.1e) on %d sample points' % (worst[0], n))
            return Verdict('refuted', 'numeric', worst[1], worst[2], worst[3])
        if not envs:
            # maybe infeasible
            if conds and smt.check(self.dom.pre + list(conds), 1500) == 'unsat':
                return Verdict('proved', 'path infeasible (z3)')
            base = self.dom.bank()
            env0 = dict(base[0]) if base else self.dom.draw()
        else:
            env0 = dict(envs[0])
        for x in s_.free_vars(a, b):
            if x not in env0:
                env0[x] = 0.37 + (hash(x) % 997) / 1000.0
        diff = s_.sub(a, b)
        info = {}
        try:
            for t in s_.topo(a, b):
                if t.op == 'ite' and any(isinstance(y, Sym) and y.op == 'nan' for y in t.args[1:]):
                    raise nf.NeedSplit(t.args[0])
            left = max(1.0, min(25.0, self.deadline - time.time()))
            try:
                z = nf._timed(lambda: nf.nf_zero(diff, toenv(env0), self.nonneg(conds), 4000, info=info), min(left, 2.5))
            except (nf.Budget, TimeoutError):
                if self.sweep(a, b, conds):
                    return Verdict('proved', 'normal form after equal-subterm abstraction')
                left = max(1.0, min(25.0, self.deadline - time.time()))
                z = nf._timed(lambda: nf.nf_zero(diff, toenv(env0), self.nonneg(conds), self.max_terms, info=info), left)
            if z:
                return Verdict('proved', 'normal form', note=str(info.get('side', ''))[:200])
            if self.sweep(a, b, conds):
                return Verdict('proved', 'normal form after equal-subterm abstraction')
            if agree >= 3:
                return Verdict('numeric', 'normal form inconclusive; identical to 22+ digits on %d sample points' % agree)
            return Verdict('open', 'normal form non-zero')
        except nf.NeedSplit as ns:
            if depth > 12:
                return Verdict('open', 'too many case splits')
            return self.split(a, b, ns.cond, conds, depth)
        except nf.Budget as ex:
            if agree >= 3:
                return Verdict('numeric', 'normal form over budget (%s); identical to 22+ digits on %d sample points' % (ex, agree))
            return Verdict('open', 'budget')
        except (TimeoutError,) as ex:
            if agree >= 3:
                return Verdict('numeric', 'normal form timeout; identical to 22+ digits on %d sample points' % agree)
            return Verdict('open', 'timeout')
        except (Unsupported, ZeroDivisionError, ValueError, OverflowError) as ex:
            if agree >= 3:
                return Verdict('numeric', 'normal form: %s; identical to 22+ digits on %d sample points' % (ex, agree))
            return Verdict('open', str(ex))

    def widen(self, a, b, conds):
        """sample many more points, corners of the domain included; the worst one beyond CONST_TOL, and their number"""
        rng = random.Random(99)
        pts = [e for e in self.dom.bank() if self.dom.ok(e, conds)]
        for _ in range(150):
            e = self.dom.draw(rng)
            for k, (lo, hi) in self.dom.ranges.items():
                if rng.random() < .25:
                    e[k] = float(rng.choice([lo, hi])) if rng.random() < .6 else float(lo) + float(hi - lo) * 10 ** rng.uniform(-6, 0)
            if self.dom.ok(e, conds):
                pts.append(e)
        if len(pts) < 12:
            pts += self.dom.descend(conds, 12, 3.0)
        worst, n = None, 0
        for e in pts:
            try:
                me = toenv(dict({x: 0.37 for x in s_.free_vars(a, b)}, **e))
                x, y = s_.evaluate(a, me, MP), s_.evaluate(b, me, MP)
            except Exception:
                continue
            if x != x and y != y:
                continue
            n += 1
            d, sc = abs(x - y), max(abs(x), abs(y))
            if d > MP.mpf(10) ** -30 and not d <= CONST_TOL * sc and (worst is None or d / sc > worst[0]):
                worst = (d / sc, e, x, y)
        return worst, n

    def unify(self, a, b, conds):
        """conditions x < y of one side are replaced by the equivalent ones of the other (y - x equal up to a positive factor)"""
        def atoms(t):
            out = {}
            for x in s_.topo(t):
                if isinstance(x, Sym) and x.op == 'ite':
                    for c in s_.topo(x.args[0]):
                        if isinstance(c, SymBool) and c.op in ('lt', 'le') and not any(
                                isinstance(y, Sym) and y.op in ('nan', 'ite', 'inf', 'I') for y in s_.topo(c)):
                            out[c.uid] = c
            return out
        A, B = atoms(a), atoms(b)
        todo = [c for u, c in A.items() if u not in B]
        cand = [c for u, c in B.items()]
        if not todo or not cand or len(todo) * len(cand) > 200:
            return a, b

        def g(c):
            return (s_.sub(c.args[1], c.args[0]), True) if c.op == 'lt' else (s_.sub(c.args[0], c.args[1]), False)
        envs = [toenv(e) for e in self.envs(conds)[:4]]
        if len(envs) < 2:
            return a, b

        def vals(t):
            try:
                return [s_.evaluate(t, e, MP) for e in envs]
            except Exception:
                return None
        gb = [(c,) + g(c) for c in cand]
        gb = [x + (vals(x[1]),) for x in gb]
        m = {}
        for c in todo:
            t, p = g(c)
            v = vals(t)
            if v is None or any(x == 0 for x in v):
                continue
            for d, t2, p2, w in gb:
                if w is None or any(x == 0 for x in w):
                    continue
                r = v[0] / w[0]
                if r <= 0 or any(abs(x / y - r) > 1e-20 * r for x, y in zip(v, w)):
                    continue
                q = Fraction(1) if abs(r - 1) < 1e-20 else Fraction(str(MP.nstr(r, 25))).limit_denominator(10**7)
                try:
                    ok = nf._timed(lambda: nf.nf_zero(s_.sub(t, s_.mul(s_.const(q), t2)), envs[0], self.nonneg(conds), 2000), 2.0)
                except Exception:
                    ok = False
                if ok:
                    e = d if p == p2 else s_.bnot(d)
                    m[c.uid] = e
                    n = s_.bnot(c)
                    if isinstance(n, SymBool):
                        m[n.uid] = s_.bnot(e)
                    break
        if not m:
            return a, b
        return s_.substitute(a, m), s_.substitute(b, m)

    def asymmetric(self, a, b):
        """an undecided atomic condition that guards a term on one side of the equation only"""
        def atoms(t):
            out = {}
            for x in s_.topo(t):
                if isinstance(x, Sym) and x.op == 'ite':
                    for c in s_.topo(x.args[0]):
                        if isinstance(c, SymBool) and c.op in ('lt', 'le', 'eq') and not any(
                                isinstance(y, Sym) and y.op in ('nan', 'ite') for y in s_.topo(c)):
                            out[c.uid] = c
            return out
        A, B = atoms(a), atoms(b)
        for k in list(A) + list(B):
            if (k in A) != (k in B):
                c = A[k] if k in A else B[k]
                n = s_.bnot(c)
                if isinstance(n, SymBool) and (n.uid in A) and (n.uid in B):
                    continue
                return c
        return None

    def split(self, a, b, c, conds, depth):
        if depth > 12:
            return Verdict('open', 'too many case splits')
        # use an atomic condition
        while c.op in ('and', 'or', 'not'):
            c = c.args[0]
        res = []
        for d in (True, False):
            lit = c if d else s_.bnot(c)
            hyp = list(conds) + [lit]
            ok = any(_truth(lit, e) for e in self.samples_for(conds))
            if not ok and smt.check(self.dom.pre + hyp, 1500) == 'unsat':
                continue
            m = {c.uid: d}
            nc = s_.bnot(c)
            if isinstance(nc, SymBool):
                m[nc.uid] = not d
            r = self._eq(s_.substitute(a, m), s_.substitute(b, m), hyp, depth + 1)
            if r.status == 'refuted':
                return r
            res.append(r)
        return worst_of(res)

    def sweep(self, a, b, conds):
        """prove large equalities bottom-up: subterms of the two sides that agree numerically are proved equal (normal
        form) and replaced by a fresh variable, so that the enclosing terms stay small.  Every replacement is either a
        generalisation or a proved equality."""
        envs = []
        for e in self.envs(conds)[:3]:
            e = dict(e)
            for x in s_.free_vars(a, b):
                e.setdefault(x, 0.37 + (hash(x) % 997) / 1000.0)
            envs.append(toenv(e))
        if len(envs) < 2:
            return False
        memos = []
        try:
            for e in envs:
                m = {}
                s_.evaluate(a, e, MP, m)
                s_.evaluate(b, e, MP, m)
                memos.append(m)
        except Exception:
            return False
        A, Bn = {n.uid for n in s_.topo(a)}, {n.uid for n in s_.topo(b)}
        order = s_.topo(a, b)
        sig, size = {}, {}
        for n in order:
            size[n.uid] = 1 + sum(size[x.uid] for x in n.args)
            if isinstance(n, Sym) and n.args and all(n.uid in m for m in memos):
                try:
                    sig[n.uid] = tuple(MP.nstr(m[n.uid], 20) for m in memos)
                except Exception:
                    pass
        both = {sig[u] for u in A if u in sig} & {sig[u] for u in Bn if u in sig}
        funargs = {x.uid for n in order if n.op in ('f', '^') for x in n.args}
        for tier in (2, 6, 20, 60, 'fun'):
            if time.time() > self.deadline:
                return False
            bad = set()
            for _ in range(25):
                r = self._sweep1(a, b, conds, envs, memos, order, sig, size, both - bad, tier, funargs, bad)
                if r is not None:
                    if r:
                        return True
                    break
        return False

    def _sweep1(self, a, b, conds, envs, memos, order, sig, size, both, tier, funargs, bad):
        rep, cls, back = {}, {}, {}
        env = dict(envs[0])
        base = self.nonneg(conds)

        def nonneg(t):
            for _ in range(50):
                m = {s_.var(k).uid: v for k, v in back.items() if k in s_.free_vars(t)}
                if not m:
                    break
                t = s_.substitute(t, m)
                if len(s_.topo(t)) > 4000:
                    return False
            return base(t)

        def same(x, y, secs=6.0, terms=12000):
            if x is y:
                return True
            try:
                return nf._timed(lambda: nf.nf_zero(s_.sub(x, y), env, nonneg, terms), secs)
            except (nf.Budget, nf.NeedSplit, Unsupported, TimeoutError, ZeroDivisionError, ValueError, OverflowError, KeyError, RecursionError):
                return False
        defs = {}

        def deeper(x, y, secs=3.0, terms=6000):
            """put back the definitions of the abstracted subterms, one at a time"""
            t0 = time.time()
            for _ in range(60):
                fv = set(s_.free_vars(x, y))
                last = [(k, v) for k, (nm, v) in defs.items() if nm in fv]
                if not last or time.time() - t0 > 3 * secs:
                    return False
                m = dict(last[-1:])                     # most recent definition first keeps both sides in step
                x, y = s_.substitute(x, m), s_.substitute(y, m)
                if len(s_.topo(x, y)) > 400:
                    return False
                if same(x, y, secs, terms):
                    return True
            return False
        for n in order:
            if time.time() > self.deadline:
                return False
            if not n.args:
                rep[n.uid] = n
                continue
            r = s_.rebuild(n, tuple(rep[x.uid] for x in n.args))
            sg = sig.get(n.uid)
            if sg is None or sg not in both or not isinstance(r, Sym) or r.op in ('c', 'v', 'pi', 'I'):
                rep[n.uid] = r
                continue
            if tier == 'fun' and n.uid not in funargs and not (n.op == 'f' or n.op == '^'):
                rep[n.uid] = r
                continue
            if tier != 'fun' and size[n.uid] < tier:
                rep[n.uid] = r
                continue
            if sg in cls:
                d, c = cls[sg]
                if same(r, d) or deeper(r, d):
                    rep[n.uid] = c
                else:
                    bad.add(sg)
                    return None
            else:
                k = '#c%d' % len(cls)
                val = memos[0][n.uid]
                try:
                    cx = s_.has_I(n) or any(abs(MP.im(m[n.uid])) > 0 for m in memos)
                except Exception:
                    cx = True
                c = s_.fn('cxvar', s_.var('#z' + k[1:])) if cx else s_.var(k)
                nm = '#z' + k[1:] if cx else k
                back[nm] = n
                defs[c.uid] = (nm, r)
                env[nm] = val
                cls[sg] = (r, c)
                rep[n.uid] = c
        return same(rep[a.uid], rep[b.uid], 20.0, 40000) or deeper(rep[a.uid], rep[b.uid], 20.0, 40000)

    def resolve(self, a, b, conds):
        """replace conditions of conditional terms that the precondition and path condition decide"""
        for _ in range(6):
            atoms = {}
            for t in s_.topo(a, b):
                if isinstance(t, Sym) and t.op == 'ite':
                    for c in s_.topo(t.args[0]):
                        if isinstance(c, SymBool) and c.op in ('lt', 'le', 'eq'):
                            if not any(isinstance(y, Sym) and y.op == 'nan' for y in s_.topo(c)):
                                atoms[c.uid] = c
            m = {}
            for c in atoms.values():
                if c.uid in self._dec:
                    if self._dec[c.uid] is not None:
                        m[c.uid] = self._dec[c.uid]
                    continue
                tv = {_truth3(c, e) for e in self.envs(conds)}
                r = None
                if True not in tv or False not in tv:
                    hyp = self.dom.pre + list(conds)
                    if True not in tv and smt.check(hyp + [c], 800) == 'unsat':
                        r = False
                    elif False not in tv:
                        nc = s_.bnot(c)
                        if smt.check(hyp + [nc], 800) == 'unsat':
                            r = True
                if not conds or conds is self.pc:
                    self._dec[c.uid] = r
                if r is not None:
                    m[c.uid] = r
            if not m:
                break
            for c in list(atoms.values()):
                if c.uid in m:
                    nc = s_.bnot(c)
                    if isinstance(nc, SymBool):
                        m[nc.uid] = not m[c.uid]
            a2, b2 = s_.substitute(a, m), s_.substitute(b, m)
            if a2 is a and b2 is b:
                break
            a, b = a2, b2
        return a, b

    def samples_for(self, conds):
        return self.envs(conds)

    def _beq(self, a, b, conds):
        if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b):
            return Verdict('proved', 'syntactic')
        hyp = self.dom.pre + list(conds)
        x = s_.B(a) if not isinstance(a, Sym) else s_.B(a)
        y = s_.B(b)
        d1 = s_.band(x, s_.bnot(y))
        d2 = s_.band(s_.bnot(x), y)
        for d in (d1, d2):
            if d is False:
                continue
            r, env = smt.check(hyp + ([] if d is True else [d]), 2000, True)
            if r == 'sat':
                e = self.dom.draw()
                e.update(env or {})
                return Verdict('refuted', 'z3 model', e, a, b)
            if r != 'unsat':
                return Verdict('open', 'z3 unknown')
        return Verdict('proved', 'z3')


def _truth3(c, e):
    try:
        return bool(s_.evaluate(c, e, mpmath.fp))
    except Exception:
        return None


def _truth(c, e):
    try:
        return bool(s_.evaluate(c, e, mpmath.fp))
    except Exception:
        return False


ORDER = {'proved': 0, 'proved~': 1, 'numeric': 2, 'open': 3, 'refuted': 4}


def worst_of(vs):
    if not vs:
        return Verdict('proved', 'all cases infeasible')
    v = max(vs, key=lambda x: ORDER[x.status])
    if v.status == 'proved' and len(vs) > 1:
        return Verdict('proved', 'case split; ' + v.method)
    return v
