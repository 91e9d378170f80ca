"""Exact equality of terms: normal form over a field of generalized rational functions.

A term becomes a sum of monomials  c * prod(atom^e)  with rational c and rational exponents e.  Atoms are variables,
pi, I (I^2=-1), primes (for rational powers of constants), irreducible polynomials (used with negative or fractional
exponents), exp of a monomial, log, sin/cos of a base angle (sin^2 = 1-cos^2), sums over a generic index, and opaque
function applications whose arguments are themselves compared by this procedure.
`is_zero` clears denominators and expands; it answers True only if the identity holds for all values of the
variables (in the domain where the factors split under a fractional power are non-negative: that is an obligation
proved by z3 through `nonneg`).
"""
import math, sys
from fractions import Fraction
import mpmath
from . import sym as s_
from .sym import Sym, SymBool, Unsupported

sys.setrecursionlimit(200000)


class Budget(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class UnitConflict(Exception):
    pass


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def qdiv(a, b):
    return norm(Fraction(a) / Fraction(b))


class Atom:
    __slots__ = ('kind', 'data', 'idx', 'num', 'pos', 'indexed', 'cx')

    def __repr__(self):
        return '%s:%s' % (self.kind, str(self.data)[:60])


def primes_of(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class NF:
    def __init__(self, env, nonneg=None, max_terms=60000, factor=True):
        """env: variable -> mpf sample point; nonneg(Sym) -> bool proves a term >= 0 on the domain"""
        self.env = env
        self.nonneg_oracle = nonneg
        self.max_terms = max_terms
        self.atoms = []
        self.index = {}
        self.units = {}
        self.memo = {}
        self.factor = factor
        self.side = []            # positivity side conditions that were used
        self.mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
        self.mp.dps = 40
        self.steps = 0

    # ------------------------------------------------------------------ atoms
    def atom(self, kind, data, num, pos=None, indexed=False, cx=False):
        key = (kind, data)
        a = self.index.get(key)
        if a is None:
            a = Atom()
            a.kind, a.data, a.num, a.pos, a.indexed, a.cx = kind, data, num, pos, indexed, cx
            a.idx = len(self.atoms)
            self.atoms.append(a)
            self.index[key] = a
        return a

    def p_atom(self, a, e=1):
        return {((a.idx, e),): 1}

    def const(self, c):
        c = norm(Fraction(c))
        return {(): c} if c else {}

    # ------------------------------------------------------------------ numeric value of polys
    def num_mono(self, m):
        r = self.mp.mpf(1)
        for i, e in m:
            v = self.atoms[i].num
            if isinstance(e, int):
                r = r * v ** e
            else:
                r = r * self.mp.power(v, self.mp.mpf(e.numerator) / e.denominator)
        return r

    def num_poly(self, p):
        r = self.mp.mpf(0)
        for m, c in p.items():
            r += self.num_mono(m) * (self.mp.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else c)
        return r

    # ------------------------------------------------------------------ poly arithmetic
    def padd(self, a, b, k=1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = norm(r.get(m, 0) + k * c)
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, m1, m2):
        """product of monomials -> list of (coef, mono) because of reductions; returns (coef, mono, extra) """
        if not m1:
            return 1, m2
        if not m2:
            return 1, m1
        out = []
        i = j = 0
        coef = 1
        n1, n2 = len(m1), len(m2)
        while i < n1 and j < n2:
            a, ea = m1[i]
            b, eb = m2[j]
            if a < b:
                out.append((a, ea))
                i += 1
            elif b < a:
                out.append((b, eb))
                j += 1
            else:
                e = norm(ea + eb)
                i += 1
                j += 1
                if e:
                    at = self.atoms[a]
                    if at.kind == 'I':
                        e = e % 4
                        if e >= 2:
                            coef = -coef
                            e -= 2
                        if e:
                            out.append((a, e))
                    elif at.kind == 'prime':
                        fl = math.floor(e)
                        if fl:
                            coef = norm(coef * Fraction(at.data) ** fl)
                            e = norm(e - fl)
                        if e:
                            out.append((a, e))
                    else:
                        out.append((a, e))
        out.extend(m1[i:])
        out.extend(m2[j:])
        return coef, tuple(out)

    def reduce_trig(self, p):
        """rewrite sin^k, k>=2, by sin^2 = 1 - cos^2"""
        todo = None
        for m in p:
            for i, e in m:
                if self.atoms[i].kind == 'sin' and e >= 2:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        r = {}
        for m, c in p.items():
            q = {(): c}
            rest = []
            for i, e in m:
                at = self.atoms[i]
                if at.kind == 'sin' and isinstance(e, int) and e >= 2:
                    k, b = divmod(e, 2)
                    cosat = self.index[('cos', at.data)]
                    base = {(): 1, ((cosat.idx, 2),): -1}
                    for _ in range(k):
                        q = self.pmul_raw(q, base)
                    if b:
                        rest.append((i, 1))
                else:
                    rest.append((i, e))
            q = self.pmul_raw(q, {tuple(rest): 1})
            r = self.padd(r, q)
        return self.reduce_trig(r)

    def pmul_raw(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 40 * self.max_terms:
            raise Budget('product of %d x %d terms' % (len(a), len(b)))
        r = {}
        get = r.get
        mm = self.mmul
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                k, m = mm(m1, m2)
                v = get(m, 0) + c1 * c2 * k
                if v:
                    r[m] = v
                else:
                    del r[m]
        for m, c in r.items():
            if isinstance(c, Fraction) and c.denominator == 1:
                r[m] = c.numerator
        if len(r) > self.max_terms:
            raise Budget('%d terms' % len(r))
        return r

    def pmul(self, a, b):
        return self.reduce_trig(self.pmul_raw(a, b))

    def pscale(self, p, c):
        if c == 0:
            return {}
        return {m: norm(v * c) for m, v in p.items()}

    def pmulmono(self, p, m):
        return self.pmul(p, {m: 1})

    def ppow_int(self, p, n):
        r = {(): 1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # ------------------------------------------------------------------ content, clearing, factoring
    def content_mono(self, p):
        """monomial of minimal exponents (over all atoms)"""
        it = iter(p)
        first = dict(next(it))
        mins = dict(first)
        for m in it:
            d = dict(m)
            for a in list(mins):
                e = d.get(a, 0)
                if e < mins[a]:
                    mins[a] = e
            for a, e in d.items():
                if a not in mins:
                    if e < 0:
                        mins[a] = e
        # atoms absent from some earlier monomial but positive: min is 0
        n = len(p)
        cnt = {}
        for m in p:
            for a, e in m:
                cnt[a] = cnt.get(a, 0) + 1
        for a in list(mins):
            if cnt.get(a, 0) < n and mins[a] > 0:
                mins[a] = 0
        return tuple(sorted((a, e) for a, e in mins.items() if e and self.atoms[a].kind not in ('I', 'prime')))

    def minv(self, m):
        return tuple((a, -e) for a, e in m)

    def expand_polyatoms(self, p):
        """p has only non-negative exponents of poly atoms: expand integer parts of poly atoms"""
        while True:
            top = -1
            for m in p:
                for a, e in m:
                    if a > top and self.atoms[a].kind == 'poly' and (e >= 1 or e < 0):
                        top = a
            if top < 0:
                return p
            X = self.atoms[top].data_poly if hasattr(self.atoms[top], 'data_poly') else self.polydata[top]
            byexp = {}
            emin = 0
            for m, c in p.items():
                e = 0
                rest = []
                for a, x in m:
                    if a == top:
                        e = x
                    else:
                        rest.append((a, x))
                if e < 0:
                    raise Budget('negative exponent in expand')
                fl = math.floor(e)
                fr = norm(e - fl)
                if fr:
                    rest.append((top, fr))
                    rest.sort()
                byexp.setdefault(fl, {})
                d = byexp[fl]
                k = tuple(rest)
                d[k] = norm(d.get(k, 0) + c)
            # Horner in X
            r = {}
            for e in range(max(byexp), -1, -1):
                if r:
                    r = self.pmul(r, X)
                if e in byexp:
                    r = self.padd(r, {m: c for m, c in byexp[e].items() if c})
            p = r

    polydata = None

    def clear(self, p):
        """p = M * N with N a polynomial with non-negative exponents, no poly atoms to integer powers"""
        M = ()
        for _ in range(50):
            if not p:
                return (), {}
            m = self.content_mono(p)
            if m:
                c, M2 = self.mmul(M, m)
                M = M2
                p = self.pscale(p, c)
                p = self.pmul(p, {self.minv(m): 1})
            q = self.expand_polyatoms(p)
            if q is p or q == p:
                return M, p
            p = q
        raise Budget('clear does not settle')

    def to_factors(self, p):
        """p (nonzero) -> (coef, [(mono or atom idx, exponent)]) as coef * M * prod(polyatom^k)"""
        M, N = self.clear(p)
        coef = 1
        fac = []
        if len(N) == 1:
            (m, c), = N.items()
            k, M = self.mmul(M, m)
            return norm(c * k), M
        for q, k in self.split(N):
            if len(q) == 1:
                (m, c), = q.items()
                coef = norm(coef * Fraction(c) ** k)
                mk = tuple((a, norm(e * k)) for a, e in m)
                kk, M = self.mmul(M, mk)
                coef = norm(coef * kk)
                continue
            c, a = self.poly_atom(q)
            coef = norm(coef * Fraction(c) ** k)
            kk, M = self.mmul(M, ((a.idx, k),))
            coef = norm(coef * kk)
        return coef, M

    def split(self, N):
        """factor N into polynomials (with multiplicity)"""
        if not self.factor or len(N) > 400:
            return [(N, 1)]
        if any(self.atoms[a].kind == 'I' for m in N for a, e in m) and len(N) > 60:
            return [(N, 1)]
        # scale exponents to integers
        den = {}
        for m in N:
            for a, e in m:
                d = e.denominator if isinstance(e, Fraction) else 1
                den[a] = den.get(a, 1) * d // math.gcd(den.get(a, 1), d)
        gens = sorted(den)
        if len(gens) > 14:
            return [(N, 1)]
        deg = sum(max(abs(e) for m in N for a, e in m if a == g) for g in gens)
        if deg > 24:
            return [(N, 1)]
        from sympy.polys.rings import ring
        from sympy import QQ
        key = ('split', tuple(sorted(N.items(), key=repr)))
        if key in self.index:
            return self.index[key]
        R, *xs = ring(['x%d' % g for g in gens], QQ)
        pos = {g: i for i, g in enumerate(gens)}
        d = {}
        for m, c in N.items():
            ex = [0] * len(gens)
            for a, e in m:
                ex[pos[a]] = int(e * den[a])
            f = Fraction(c)
            d[tuple(ex)] = QQ(f.numerator, f.denominator)
        P = R.from_dict(d)
        import signal
        try:
            c, fs = _timed(lambda: P.factor_list(), 3.0)
        except TimeoutError:
            self.index[key] = [(N, 1)]
            return self.index[key]
        out = []
        cc = Fraction(int(c.numerator), int(c.denominator))
        if cc != 1:
            out.append(({(): norm(cc)}, 1))
        for f, k in fs:
            q = {}
            for ex, co in f.items():
                m = tuple((g, norm(Fraction(x, den[g]))) for g, x in zip(gens, ex) if x)
                q[m] = norm(Fraction(int(co.numerator), int(co.denominator)))
            out.append((q, int(k)))
        self.index[key] = out
        return out

    def poly_atom(self, q):
        """multi-term polynomial -> (coef, atom) with coef*atom = q; atom positive at the sample point"""
        g = None
        for c in q.values():
            f = Fraction(c)
            g = f if g is None else Fraction(math.gcd(g.numerator * f.denominator, f.numerator * g.denominator),
                                             g.denominator * f.denominator)
        g = abs(g)
        cx = any(self.atoms[a].cx for m in q for a, e in m)
        num = self.num_poly(q)
        if cx:
            lead = min(q)
            if q[lead] < 0:
                g = -g
        elif num < 0:
            g = -g
        q = {m: norm(Fraction(c) / g) for m, c in q.items()}
        key = ('poly', tuple(sorted(q.items(), key=lambda t: repr(t[0]))))
        a = self.index.get(key)
        if a is None:
            a = self.atom('poly', key[1], num / (self.mp.mpf(g.numerator) / g.denominator), None,
                          any(self.atoms[x].indexed for m in q for x, e in m), cx)
            if self.polydata is None:
                self.polydata = {}
            self.polydata[a.idx] = q
        return g, a

    def inv(self, p):
        if not p:
            raise ZeroDivisionError('division by an identically zero term')
        if len(p) == 1:
            (m, c), = p.items()
            k, mi = self.mono_pow(m, -1)
            return {mi: norm(k / Fraction(c))}
        c, M = self.to_factors(p)
        k, mi = self.mono_pow(M, -1)
        return {mi: norm(k / Fraction(c))}

    def mono_pow(self, m, n):
        """integer power of a monomial"""
        coef = 1
        out = []
        for a, e in m:
            x = norm(e * n)
            at = self.atoms[a]
            if at.kind == 'I':
                x = x % 4
                if x >= 2:
                    coef = -coef
                    x -= 2
            elif at.kind == 'prime':
                fl = math.floor(x)
                coef = coef * Fraction(at.data) ** fl
                x = norm(x - fl)
            if x:
                out.append((a, x))
        return norm(coef), tuple(out)

    # ------------------------------------------------------------------ positivity
    def is_pos(self, a):
        if a.pos is None:
            if a.cx:
                a.pos = False
            elif a.kind in ('pi', 'prime', 'exp'):
                a.pos = True
            elif a.kind == 'v':
                a.pos = self._oracle(s_.var(a.data))
            elif a.kind == 'poly':
                a.pos = self._oracle(self.to_sym(self.polydata[a.idx]))
            elif a.kind == 'sum':
                a.pos = False
            elif a.kind in ('cos', 'sin', 'fn'):
                a.pos = self._oracle(self.atom_sym(a))
            else:
                a.pos = False
        return a.pos

    def _oracle(self, t):
        if self.nonneg_oracle is None:
            return False
        r = bool(self.nonneg_oracle(t))
        if r:
            self.side.append(s_.show(t, 6))
        return r

    def atom_sym(self, a):
        if a.kind == 'v':
            return s_.var(a.data)
        if a.kind == 'pi':
            return s_.PI
        if a.kind == 'I':
            return s_.I
        if a.kind == 'prime':
            return s_.const(a.data)
        if a.kind == 'poly':
            return self.to_sym(self.polydata[a.idx])
        if a.kind == 'exp':
            return s_.fn('exp', self.mono_sym(a.data))
        if a.kind in ('sin', 'cos'):
            m = a.data
            u = self.units[m]
            return s_.fn(a.kind, s_.mul(s_.const(u), self.mono_sym(m)))
        if a.kind == 'fn':
            return self.fnsym[a.idx]
        if a.kind == 'sum':
            return s_.fn('Sum', self.mono_sym(a.data))
        raise Unsupported('atom_sym ' + a.kind)

    fnsym = None

    def mono_sym(self, m):
        r = s_.ONE
        for i, e in m:
            r = s_.mul(r, s_.power(self.atom_sym(self.atoms[i]), s_.const(e)))
        return r

    def to_sym(self, p):
        r = s_.ZERO
        for m, c in sorted(p.items(), key=lambda t: repr(t[0])):
            r = s_.add(r, s_.mul(s_.const(c), self.mono_sym(m)))
        return r

    # ------------------------------------------------------------------ rational powers
    def cpow(self, c, e):
        """positive rational constant to a rational power -> poly (single term)"""
        c = Fraction(c)
        coef = 1
        out = []
        exps = {}
        for p, k in primes_of(c.numerator).items():
            exps[p] = exps.get(p, 0) + k
        for p, k in primes_of(c.denominator).items():
            exps[p] = exps.get(p, 0) - k
        for p, k in exps.items():
            x = k * Fraction(e)
            fl = math.floor(x)
            coef = coef * Fraction(p) ** fl
            x = norm(x - fl)
            if x:
                a = self.atom('prime', p, self.mp.mpf(p), True)
                out.append((a.idx, x))
        return {tuple(sorted(out)): norm(coef)}

    def powq(self, p, e):
        """p ** e for rational non-integer e"""
        if not p:
            if e > 0:
                return {}
            raise ZeroDivisionError
        if self.mono_ispow(p):
            pass
        c, M = self.to_factors(p)
        if c < 0 or any(self.atoms[a].cx for a, x in M):
            neg = True
        else:
            neg = False
        bad = []
        good = {(): 1}
        for a, x in M:
            at = self.atoms[a]
            if not at.cx and self.is_pos(at):
                y = norm(x * e)
                if at.kind == 'prime':
                    good = self.pmul(good, self.cpow(at.data, y))
                else:
                    good = self.pmul(good, {((a, y),): 1})
            else:
                bad.append((a, x))
        if c > 0:
            good = self.pmul(good, self.cpow(c, e))
            cneg = 1
        else:
            good = self.pmul(good, self.cpow(-c, e))
            cneg = -1
        if not bad and cneg == 1:
            return good
        # unsplittable part: one atom holding the whole residual radicand
        q = {tuple(bad): cneg}
        q = self.clear_full(q)
        a = self.whole_atom(q)
        y = e
        return self.pmul(good, {((a.idx, norm(Fraction(y))),): 1})

    def mono_ispow(self, p):
        return False

    def clear_full(self, q):
        return q

    def whole_atom(self, q):
        """atom for a radicand that is kept whole; q may have negative exponents (poly atoms)"""
        # expand positive powers of poly atoms only when no negatives are present
        if all(not (self.atoms[a].kind == 'poly' and e < 0) for m in q for a, e in m):
            q = self.expand_polyatoms(q)
        num = self.num_poly(q)
        cx = any(self.atoms[a].cx for m in q for a, e in m)
        for i, qq in self.wholes.items():
            at = self.atoms[i]
            if abs(at.num - num) <= abs(num) * self.mp.mpf(10) ** -25:
                if self.iszero_poly(self.padd(q, qq, -1)):
                    return at
        a = self.atom('poly', ('whole', len(self.atoms)), num, False, any(self.atoms[x].indexed for m in q for x, e in m), cx)
        if self.polydata is None:
            self.polydata = {}
        self.polydata[a.idx] = q
        self.wholes[a.idx] = q
        return a

    @property
    def wholes(self):
        if not hasattr(self, '_wholes'):
            self._wholes = {}
        return self._wholes

    # ------------------------------------------------------------------ main conversion
    def nf(self, root):
        memo = self.memo
        for n in s_.topo(root):
            if n.uid in memo or isinstance(n, SymBool):
                continue
            memo[n.uid] = self._node(n)
            self.steps += 1
        return memo[root.uid]

    def _node(self, n):
        o = n.op
        memo = self.memo
        if o == 'c':
            return self.const(n.val)
        if o == 'v':
            return self.p_atom(self.atom('v', n.val, self.env[n.val], None, n.val.endswith('[i]')))
        if o == 'pi':
            return self.p_atom(self.atom('pi', None, self.mp.pi * 1, True))
        if o == 'I':
            return self.p_atom(self.atom('I', None, self.mp.mpc(0, 1), False, cx=True))
        if o == '+':
            return self.padd(memo[n.args[0].uid], memo[n.args[1].uid])
        if o == '*':
            return self.pmul(memo[n.args[0].uid], memo[n.args[1].uid])
        if o == '^':
            b = memo[n.args[0].uid]
            e = memo[n.args[1].uid]
            return self.pow(b, e)
        if o == 'ite':
            raise NeedSplit(n.args[0])
        if o == 'f':
            return self.func(n.val, [memo[a.uid] for a in n.args], n)
        raise Unsupported('nf of ' + o)

    def pow(self, b, e):
        if not e:
            return {(): 1}
        if len(e) == 1 and () in e:
            x = e[()]
            if isinstance(x, int):
                if x >= 0:
                    if len(b) == 1:
                        (m, c), = b.items()
                        k, mm = self.mono_pow(m, x)
                        return self.reduce_trig({mm: norm(Fraction(c) ** x * k)})
                    return self.ppow_int(b, x)
                i = self.inv(b)
                (m, c), = i.items()
                k, mm = self.mono_pow(m, -x)
                return {mm: norm(Fraction(c) ** (-x) * k)}
            return self.powq(b, x)
        # symbolic exponent: exp(e*log b)
        if not b and self.nonneg_oracle is not None and self.nonneg_oracle(s_.sub(self.to_sym(e), s_.const(Fraction(1, 10**6)))):
            return {}
        return self.exp(self.pmul(e, self.log(b)))

    def log(self, p):
        if not p:
            raise ZeroDivisionError('log 0')
        c, M = self.to_factors(p)
        if c > 0 and all((not self.atoms[a].cx) and self.is_pos(self.atoms[a]) for a, x in M):
            r = {}
            for q, k in list(primes_of(Fraction(c).numerator).items()) + [(q, -k) for q, k in primes_of(Fraction(c).denominator).items()]:
                a = self.fn_atom('log', [self.const(q)])
                r = self.padd(r, {((a.idx, 1),): k})
            for a, x in M:
                at = self.atoms[a]
                if at.kind == 'exp':
                    r = self.padd(r, {at.data: x})
                elif at.kind == 'prime':
                    l = self.fn_atom('log', [self.const(at.data)])
                    r = self.padd(r, {((l.idx, 1),): x})
                else:
                    l = self.fn_atom('log', [{((a, 1),): 1}])
                    r = self.padd(r, {((l.idx, 1),): x})
            return r
        a = self.fn_atom('log', [p])
        return self.p_atom(a)

    def exp(self, u):
        r = {(): 1}
        for m, c in u.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'fn' and self.atoms[m[0][0]].data[0] == 'log':
                base = self.fnargs[m[0][0]][0]
                r = self.pmul(r, self.pow(base, {(): c}))
                continue
            cx = any(self.atoms[a].cx for a, e in m)
            a = self.atom('exp', m, self.mp.exp(self.num_mono(m)), not cx, any(self.atoms[x].indexed for x, e in m), cx)
            r = self.pmul(r, {((a.idx, c),): 1})
        return r

    fnargs = None

    def fn_atom(self, name, args, node=None):
        if self.fnargs is None:
            self.fnargs, self.fnsym, self.fnby = {}, {}, {}
        nums = [self.num_poly(a) for a in args]
        tol = self.mp.mpf(10) ** -25
        for a in self.fnby.get((name, len(args)), []):
            if all(abs(x - y) <= tol * (abs(x) + abs(y)) for x, y in zip(nums, a.data[1])):
                if all(self.iszero_poly(self.padd(p, q, -1)) for p, q in zip(args, self.fnargs[a.idx])):
                    return a
        F = s_._mpfuncs(self.mp)
        try:
            num = s_.opaque_value(name, nums, self.mp) if name[0] == '@' else F[name](*nums) if name in F else self.mp.mpf(hash((name,) + tuple(str(x)[:20] for x in nums)) % 1000003) / 7919
        except Exception:
            num = self.mp.mpf(hash((name,) + tuple(str(x)[:20] for x in nums)) % 1000003) / 7919
        cx = name in ('jv', 'conj', 'csqrt', 'cxvar') or (name not in ('re', 'im', 'cabs') and any(self.atoms[i].cx for p in args for m in p for i, e in m))
        a = self.atom('fn', (name, tuple(nums), len(self.atoms)), num, None,
                      any(self.atoms[i].indexed for p in args for m in p for i, e in m), cx)
        self.fnargs[a.idx] = args
        self.fnsym[a.idx] = node if node is not None and node.op == 'f' and node.val == name else \
            s_.fn(name, *[self.to_sym(p) for p in args])
        self.fnby.setdefault((name, len(args)), []).append(a)
        return a

    # ---- trig
    def trig(self, u):
        """(cos u, sin u) as polys"""
        C, Sn = {(): 1}, {}
        for m, c in sorted(u.items(), key=repr):
            if m and len(m) == 1 and self.atoms[m[0][0]].kind == 'pi' and m[0][1] == 1:
                # constant multiple of pi
                k = Fraction(c) * 2
                q = math.floor(k)
                fr = k - q
                cc, ss = [(1, 0), (0, 1), (-1, 0), (0, -1)][q % 4]
                c1, s1 = self.const(cc), self.const(ss)
                if fr:
                    c2, s2 = self.multi(m, Fraction(fr, 2))
                    c1, s1 = self.cadd(c1, s1, c2, s2)
            else:
                c1, s1 = self.multi(m, Fraction(c))
            C, Sn = self.cadd(C, Sn, c1, s1)
        return C, Sn

    def cadd(self, c1, s1, c2, s2):
        return (self.padd(self.pmul(c1, c2), self.pmul(s1, s2), -1), self.padd(self.pmul(s1, c2), self.pmul(c1, s2)))

    def multi(self, m, c):
        if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'fn' and c.denominator == 1:
            name = self.atoms[m[0][0]].data[0]
            x = self.fnargs[m[0][0]][0]
            if name in ('arcsin', 'arccos'):
                other = self.powq(self.padd(self.const(1), self.pmul(x, x), -1), Fraction(1, 2)) if x else self.const(1)
                c1, s1 = (other, x) if name == 'arcsin' else (x, other)
                return self.nmul(c1, s1, int(c))
            if name == 'arctan':
                d = self.powq(self.padd(self.const(1), self.pmul(x, x)), Fraction(-1, 2))
                return self.nmul(d, self.pmul(x, d), int(c))
        u = self.units.get(m)
        if u is None:
            self.units[m] = abs(c)
            u = abs(c)
        k = c / u
        if k.denominator != 1:
            g = Fraction(math.gcd(c.numerator * u.denominator, u.numerator * c.denominator), c.denominator * u.denominator)
            self.units[m] = abs(g)
            raise UnitConflict()
        ang = self.num_mono(m) * (self.mp.mpf(u.numerator) / u.denominator)
        idxd = any(self.atoms[x].indexed for x, e in m)
        ca = self.atom('cos', m, self.mp.cos(ang), None, idxd)
        sa = self.atom('sin', m, self.mp.sin(ang), None, idxd)
        return self.nmul(self.p_atom(ca), self.p_atom(sa), int(k))

    def nmul(self, c1, s1, k):
        if k < 0:
            c, s = self.nmul(c1, s1, -k)
            return c, self.pscale(s, -1)
        C, Sn = {(): 1}, {}
        for _ in range(k):
            C, Sn = self.cadd(C, Sn, c1, s1)
        return C, Sn

    def func(self, name, args, node):
        if name == 'sin':
            return self.trig(args[0])[1]
        if name == 'cos':
            return self.trig(args[0])[0]
        if name == 'tan':
            c, s = self.trig(args[0])
            return self.pmul(s, self.inv(c))
        if name == 'exp':
            return self.exp(args[0])
        if name == 'log':
            return self.log(args[0])
        if name in ('cosh', 'sinh', 'tanh'):
            e, f = self.exp(args[0]), self.exp(self.pscale(args[0], -1))
            c = self.pscale(self.padd(e, f), Fraction(1, 2))
            s = self.pscale(self.padd(e, f, -1), Fraction(1, 2))
            if name == 'cosh':
                return c
            if name == 'sinh':
                return s
            return self.pmul(s, self.inv(c))
        if name == 'csqrt':
            return self.powq(args[0], Fraction(1, 2))
        if name in ('re', 'im', 'conj'):
            p = args[0]
            if all(not self.atoms[a].cx or self.atoms[a].kind == 'I' for m in p for a, e in m):
                r, i = {}, {}
                for m, c in p.items():
                    k = [e for a, e in m if self.atoms[a].kind == 'I']
                    if k:
                        i[tuple(t for t in m if self.atoms[t[0]].kind != 'I')] = c
                    else:
                        r[m] = c
                if name == 're':
                    return r
                if name == 'im':
                    return i
                return self.padd(r, self.pmul(i, self.p_atom(self.atom('I', None, None))), -1)
            # denominators with I: multiply out via (N)(conj D)/|D|^2 when poly atoms are conjugable
            q = self.realify(p)
            if q is not None:
                return self.func(name, [q], node)
        if name == 'Sum':
            r = {}
            for m, c in args[0].items():
                out = tuple(t for t in m if not self.atoms[t[0]].indexed)
                inn = tuple(t for t in m if self.atoms[t[0]].indexed)
                a = self.atom('sum', inn, self.num_mono(inn) * 3 + len(inn), None)
                r = self.padd(r, self.pmul({out: c}, self.p_atom(a)))
            return r
        if name == 'arctan2':
            pass
        return self.p_atom(self.fn_atom(name, args, node))

    def realify(self, p):
        """rewrite integer powers of complex poly atoms X^-k as conj(X)^k / (X conj X)^k"""
        bad = {a for m in p for a, e in m if self.atoms[a].cx and self.atoms[a].kind != 'I'}
        rep = {}
        for a in bad:
            at = self.atoms[a]
            if at.kind != 'poly':
                return None
            X = self.polydata[a]
            if any(self.atoms[b].cx and self.atoms[b].kind != 'I' for m in X for b, e in m):
                return None
            iat = self.atom('I', None, None)
            conjX = {m: (-c if any(b == iat.idx for b, e in m) else c) for m, c in X.items()}
            n2 = self.pmul(X, conjX)
            rep[a] = (X, conjX, self.inv(n2))
        r = {}
        for m, c in p.items():
            q = {tuple(t for t in m if t[0] not in bad): c}
            for a, e in m:
                if a in bad:
                    if not isinstance(e, int):
                        return None
                    X, cX, i2 = rep[a]
                    if e > 0:
                        q = self.pmul(q, self.ppow_int(X, e))
                    else:
                        q = self.pmul(q, self.ppow_int(self.pmul(cX, i2), -e))
            r = self.padd(r, q)
        return r

    # ------------------------------------------------------------------ zero test
    def iszero_poly(self, p):
        if not p:
            return True
        # clear denominators
        M, N = self.clear(p)
        return not N


def _timed(f, secs):
    import signal, threading
    if threading.current_thread() is not threading.main_thread():
        return f()

    def h(*a):
        raise TimeoutError()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def nf_zero(diff, env, nonneg=None, max_terms=60000, units=None, info=None):
    """True: proved identically zero. False: normal form is non-zero. Raises Budget/NeedSplit/Unsupported."""
    units = dict(units or {})
    ukeys = None
    for _ in range(6):
        eng = NF(env, nonneg, max_terms)
        eng.units = _UnitMap(units)
        try:
            p = eng.nf(diff)
            z = eng.iszero_poly(p)
            if info is not None:
                info['side'] = eng.side
                info['atoms'] = len(eng.atoms)
            return z
        except UnitConflict:
            units = eng.units.store
    raise Budget('angle units')


class _UnitMap:
    """angle units keyed by the printed monomial, stable across restarts of the engine"""

    def __init__(self, store):
        self.store = dict(store)

    def get(self, m):
        return self.store.get(m)

    def __getitem__(self, m):
        return self.store[m]

    def __setitem__(self, m, v):
        self.store[m] = v
