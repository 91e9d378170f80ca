"""Modular calls: while a caller is verified, a callee that has its own contract is replaced by that contract.

The stub binds the arguments to the callee's current signature, shows the callee's precondition from the caller's
precondition and path (z3; when that fails the body is inlined instead, which needs no contract), and returns one opaque
term '@callee.k'(arguments) per result.  The specification of the caller is written with the same terms.  An opaque term
is an uninterpreted function for the normal form; `unfold` replaces it by the callee's specification."""
import inspect
from . import sym as s_, arr, smt, explore
from .sym import Sym, S, Unsupported

CALLEES = {}
STATS = {'stubbed': 0, 'inlined': 0}


class Callee:
    def __init__(self, con, params, static=(), nout=2, variant=None):
        """params: contract variable -> parameter name of the function; static: parameters with concrete values"""
        self.con, self.params, self.static, self.nout = con, params, dict(static), nout
        self.qual = con.qual

    def name(self):
        return '@' + self.con.name


def register(con, params=None, static=(), nout=2):
    params = params or list(con.vars)
    c = Callee(con, params, static, nout)
    CALLEES.setdefault(con.qual, []).append(c)
    for k in range(nout):
        s_.OPAQUE[c.name() + '.%d' % k] = (lambda *a, k=k, con=con: _at(con.spec(_V(zip(con.vars, a))), k))
    return c


def _V(kv):
    from .contract import Vars
    return Vars(kv)


def _at(x, k):
    return x[k] if isinstance(x, tuple) else x


def call(con, *args):
    """the opaque result terms of a contract at `args` (in the order of its variables)"""
    c = [x for x in CALLEES[con.qual] if x.con is con][0]
    args = [S(a) for a in args]
    r = tuple(s_.fn(c.name() + '.%d' % k, *args) for k in range(c.nout))
    return r if c.nout > 1 else r[0]


def stub(qual, orig):
    sig = inspect.signature(orig)

    def wrapped(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        vals = dict(ba.arguments)
        for c in CALLEES[qual]:
            if any(p not in vals for p in c.params) or any(not _same(vals.get(p), w) for p, w in c.static.items()):
                continue
            if set(vals) - set(c.params) - set(c.static):
                continue
            xs = [vals[p] for p in c.params]
            xs = [x.view(arr.np.ndarray)[()] if isinstance(x, arr.SObj) and x.ndim == 0 else x for x in xs]
            if any(isinstance(x, (str, type(None), arr.SymFilt, arr.SymMat, list, tuple)) for x in xs):
                continue
            arrs = {p for p, x in zip(c.con.vars, xs) if isinstance(x, arr.SObj)}
            if arrs:
                # fixed-length arrays: the contract element by element (the callee is verified for vectors of any length)
                n = {x.shape for x in xs if isinstance(x, arr.SObj)}
                if len(n) != 1 or len(next(iter(n))) != 1 or not any(arrs <= set(vm) for vm in c.con.vec) or any(isinstance(x, arr.SymVec) for x in xs):
                    continue
                try:
                    rows = [[S(x.view(arr.np.ndarray)[i]) if isinstance(x, arr.SObj) else S(x) for x in xs] for i in range(next(iter(n))[0])]
                except Exception:
                    continue
                if not all(pre_holds(c, r) for r in rows):
                    continue
                STATS['stubbed'] += 1
                rs = [call(c.con, *r) for r in rows]
                if isinstance(rs[0], tuple):
                    return tuple(arr.mkarr([r[k] for r in rs]) for k in range(len(rs[0])))
                return arr.mkarr(rs)
            isv = any(isinstance(x, (arr.SymVec, arr.SymGrid)) for x in xs)
            form = {x.ax if isinstance(x, arr.SymGrid) else None for x in xs if isinstance(x, (arr.SymVec, arr.SymGrid))}
            vs = {p for p, x in zip(c.con.vars, xs) if isinstance(x, (arr.SymVec, arr.SymGrid))}
            if len(form) > 1 or isv and not any(vs <= set(vm) for vm in c.con.vec):
                continue
            wrap = arr.SymVec if form == {None} else (lambda e, ax=next(iter(form)): arr.SymGrid(e, ax)) if form else None
            try:
                es = [x.e if isinstance(x, (arr.SymVec, arr.SymGrid)) else S(x) for x in xs]
            except Exception:
                continue
            if not pre_holds(c, es):
                continue
            STATS['stubbed'] += 1
            r = call(c.con, *es)
            if isv:
                r = tuple(wrap(x) for x in r) if isinstance(r, tuple) else wrap(r)
            return r
        STATS['inlined'] += 1
        return orig(*a, **k)
    wrapped.__signature__ = sig
    return wrapped


def _same(a, b):
    try:
        return not isinstance(a, (arr.SymVec, arr.SymGrid)) and bool(a == b)
    except Exception:
        return False


_pre = {}


def pre_holds(c, es):
    cur = explore.current()
    if cur is None:
        return False
    v = _V(zip(c.con.vars, es))
    hyp = cur.dom.pre + cur.pc
    lits = []
    for (k, r), x in zip(c.con.vars.items(), es):
        lits += r.pre(x)
    lits += list(c.con.pre(v))
    key0 = tuple(h.uid for h in hyp if not isinstance(h, bool))
    for l in lits:
        if l is True:
            continue
        if l is False:
            return False
        key = (key0, l.uid)
        if key not in _pre:
            _pre[key] = any(l is h for h in hyp) or smt.prove(hyp, l, 1500)
        if not _pre[key]:
            return False
    return True


def install(loader, quals):
    for q in quals:
        try:
            orig = loader.get(q)
        except Exception:
            continue
        cls = q.split('.')[0]
        from .load import MODOF, PKG
        owner = getattr(loader.module(PKG + '.' + MODOF[cls]), cls)
        setattr(owner, q.split('.')[1], staticmethod(stub(q, orig)))


def has(*terms):
    return any(isinstance(n, Sym) and n.op == 'f' and n.val[0] == '@' for n in s_.topo(*terms))


def unfold(t):
    for _ in range(8):
        m = {}
        for n in s_.topo(t):
            if isinstance(n, Sym) and n.op == 'f' and n.val[0] == '@':
                m[n.uid] = S(s_.OPAQUE[n.val](*n.args))
        if not m:
            return t
        t = s_.substitute(t, m)
    return t
