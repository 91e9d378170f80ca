"""Loop cutting.  `for` loops are instrumented so that a loop whose count is symbolic is verified with an invariant:
entry values establish it, one body execution from an arbitrary state preserves it, and after the loop only the
invariant is known.  The invariant is "state after i iterations == i-fold iteration of the contract's step function";
program variables are matched to the roles of the invariant by their entry values and by what the body does to them,
not by name.  Loops with a concrete count run unchanged."""
import ast
import types
from . import sym as s_
from .sym import Sym, Unsupported, S


class SymRange:
    def __init__(self, n): self.n = n
    def __iter__(self): raise Unsupported('loop with a symbolic count outside a for statement')
    def __len__(self): raise Unsupported('len of symbolic range')


class MapIter:
    """the positions of a generic vector; at(i) is the loop target at position i"""
    def __init__(self, at): self.at = at
    def __iter__(self): raise Unsupported('loop over a generic vector outside a for statement')
    def __len__(self): raise Unsupported('len of a generic vector')


class LoopSpec:
    """roles: list of (name, init Sym); step(state dict)->state dict; count Sym; result(name)->Sym"""

    def __init__(self, count, init, step):
        self.count, self.init, self.step = count, init, step
        self.used = 0
        key = [count] + [init[r] for r in init]
        self.result = {r: s_.fn('Iter_' + r, *key) for r in init}


def _count(lo, hi, down):
    if down:
        while hi > lo:
            yield hi
            hi = hi - 1
    else:
        while lo < hi:
            yield lo
            lo = lo + 1


def elem(x):
    """the vector whose element at the arbitrary position is x"""
    from . import arr
    if isinstance(x, arr.np.ndarray) and x.shape == ():
        x = x.view(arr.np.ndarray)[()]
    if isinstance(x, (Sym, s_.SymBool, bool)):
        return arr.SymVec(x)
    if s_.lift(x) is None:
        raise Unsupported('list of %s' % type(x).__name__)
    return arr.SymVec(S(x))


def held(x, d=2):
    """the mutable content of an object, generic vectors excepted (their stores are guarded in arr)"""
    from . import arr
    if isinstance(x, (arr.SymVec, arr.SymGrid)) or isinstance(x, (str, int, float, type(None), Sym, type, types.ModuleType, types.FunctionType)):
        return id(x)
    if isinstance(x, arr.np.ndarray):
        return (id(x),) + tuple(id(y) for y in x.view(arr.np.ndarray).ravel()) if x.dtype == object else (id(x), x.tobytes())
    if d and isinstance(x, dict):
        return (id(x),) + tuple((k if isinstance(k, (str, int)) else id(k), held(y, d - 1)) for k, y in x.items())
    if d and isinstance(x, (list, tuple, set)):
        return (id(x),) + tuple(held(y, d - 1) for y in x)
    if d and hasattr(x, '__dict__'):
        return (id(x),) + tuple((k, held(y, d - 1)) for k, y in vars(x).items())
    return id(x)


class _RT:
    spec = None
    prove_eq = None
    log = None

    def start(self, it):
        return _Loop(it)

    @staticmethod
    def listcomp(f, it):
        """[f(x) for x in it]"""
        l = _Loop(it)
        if not l.map:
            return [f(x) for x in it]
        from . import arr
        l.enter((), {i: c.cell_contents for i, c in enumerate(f.__closure__ or ())})
        x = f(l.map(arr.MapIdx()))
        l.leave((), {})
        return elem(x)

    @staticmethod
    def counter(lo, hi, down=False):
        """values of a while-loop counter that runs from lo while lo < hi in steps of one (down: from hi while hi > lo)"""
        if isinstance(lo, Sym) and lo.op == 'c':
            lo = int(lo.val) if lo.val.denominator == 1 else lo
        if isinstance(hi, Sym) and hi.op == 'c':
            hi = int(hi.val) if hi.val.denominator == 1 else hi
        if isinstance(lo, Sym) or isinstance(hi, Sym):
            return SymRange(S(hi) - S(lo))
        return _count(lo, hi, down)

    @staticmethod
    def final(lo, hi, down=False):
        if isinstance(lo, Sym) or isinstance(hi, Sym):
            return lo if down else hi
        if down:
            while hi > lo:
                hi = hi - 1
            return hi
        while lo < hi:
            lo = lo + 1
        return lo


runtime = _RT()


class _Loop:
    def __init__(self, it):
        from . import arr
        self.map = None
        if isinstance(it, arr.SymVec) and not isinstance(it, arr.SymFilt):
            self.map = it.__getitem__
        elif isinstance(it, MapIter):
            self.map = it.at
        elif isinstance(it, SymRange) and it.n is arr.NLEN:
            self.map = lambda i: i
        self.sym = isinstance(it, SymRange) or self.map is not None
        self.it = it

    def iterate(self):
        if not self.sym:
            yield from self.it
            return
        if self.map:
            from . import arr
            if arr.MAP[0] is not None:
                raise Unsupported('nested map loops')
            yield self.map(arr.MapIdx())
            return
        yield s_.var('#it')

    def enter(self, names, loc):
        from . import arr
        if self.map:
            arr.MAP[0] = self
            self.lists = {n: loc[n] for n in names if isinstance(loc.get(n), list)}
            if any(self.lists.values()):
                raise Unsupported('list extended in a map loop is not empty before it')
            names = [n for n in names if n not in self.lists]
            self.held = [(x, held(x)) for n, x in loc.items() if n not in self.lists and not isinstance(x, _Loop)]
            return {n: arr.Poison(n) for n in names if n in loc}
        sp = runtime.spec
        if sp is None:
            raise Unsupported('symbolic loop without an invariant')
        if not runtime.prove_eq(S(self.it.n), sp.count):
            raise Unsupported('loop count differs from the iteration count of the contract')
        self.entry = {}
        out = {}
        self.isvec = {}
        for n in names:
            if n in loc and not isinstance(loc[n], list):
                v = loc[n]
                vec = arr.SymVec if isinstance(v, arr.SymVec) else (lambda e, ax=v.ax: arr.SymGrid(e, ax)) if isinstance(v, arr.SymGrid) else None
                e = v.e if vec else v
                if not isinstance(e, Sym):
                    e = S(e)
                self.entry[n] = e
                self.isvec[n] = vec
        self.roles = None
        # candidate role assignments: entry value equal to the role's initial value
        self.cands = {r: [n for n in self.entry if self.entry[n] is i or runtime.prove_eq(self.entry[n], i)] for r, i in sp.init.items()}
        self.hav = {n: s_.var('#h_' + n) for n in self.entry}
        for n in self.entry:
            out[n] = self.isvec[n](self.hav[n]) if self.isvec[n] else self.hav[n]
        return out

    def leave(self, names, loc):
        from . import arr
        import itertools
        if self.map:
            arr.MAP[0] = None
            arr.MAPPED[0] = True
            if any(held(x) != h for x, h in self.held):
                raise Unsupported('object shared by the positions changed in a map loop')
            if runtime.log is not None:
                runtime.log.append('loop over the positions of a vector, verified at an arbitrary position')
            out = {n: arr.Poison(n) for n in names if n in loc}
            for n, l in self.lists.items():
                # exactly one element appended at every position: the list is a vector
                if loc.get(n) is not l or len(l) != 1:
                    raise Unsupported('list in a map loop')
                out[n] = elem(l[0])
                l[0] = arr.Poison(n)
            return out
        sp = runtime.spec
        post = {}
        for n in self.entry:
            v = loc[n]
            post[n] = v.e if isinstance(v, (arr.SymVec, arr.SymGrid)) else S(v)
        roles = list(sp.init)
        found = None
        for combo in itertools.product(*[self.cands[r] for r in roles]):
            if len(set(combo)) < len(combo):
                continue
            st = sp.step({r: self.hav[n] for r, n in zip(roles, combo)})
            if all(runtime.prove_eq(post[n], st[r]) for r, n in zip(roles, combo)):
                found = dict(zip(combo, roles))
                break
        if found is None:
            raise Unsupported('loop body does not preserve the invariant under any matching of its variables')
        sp.used += 1
        if runtime.log is not None:
            runtime.log.append('invariant established and preserved; roles %s' % {v: k for k, v in found.items()})
        out = {}
        for n in self.entry:
            if n in found:
                e = sp.result[found[n]]
            elif post[n] is self.hav[n]:
                e = self.entry[n]
            else:
                e = s_.var('#after_' + n)
            out[n] = self.isvec[n](e) if self.isvec[n] else e
        return out


class _Names(ast.NodeVisitor):
    def __init__(self): self.s = set()
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.s.add(n.id)
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.s.add(n.target.id)
        self.generic_visit(n)
    def visit_FunctionDef(self, n): self.s.add(n.name)
    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name):
            self.s.add(n.func.value.id)
        self.generic_visit(n)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass


class _Tr(ast.NodeTransformer):
    def __init__(self): self.k = 0

    def visit_While(self, node):
        """counting while loops become for loops over their counter (same iterations, same final counter)"""
        self.generic_visit(node)
        t, b = node.test, node.body
        if node.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(b) < 2:
            return node
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, (ast.Gt, ast.Lt)) and isinstance(l, ast.Name):
            i, x, down = l.id, r, isinstance(op, ast.Gt)
        elif isinstance(op, (ast.Gt, ast.Lt)) and isinstance(r, ast.Name):
            i, x, down = r.id, l, isinstance(op, ast.Lt)
        else:
            return node
        st = b[-1]
        sg = ast.Sub if down else ast.Add
        one = lambda e: isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1
        ok = (isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == i and isinstance(st.op, sg) and one(st.value)) or (
            isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == i and isinstance(st.value, ast.BinOp) and
            isinstance(st.value.op, sg) and isinstance(st.value.left, ast.Name) and st.value.left.id == i and one(st.value.right))
        v = _Names()
        for y in b[:-1]:
            v.visit(y)
        used = {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        simple = all(isinstance(y, (ast.Name, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.Load, ast.UnaryOp, ast.USub)) for y in ast.walk(x))
        if not ok or not simple or i in v.s or i in used or used & v.s or any(isinstance(y, (ast.Break, ast.Continue, ast.Return, ast.Yield)) for z in b for y in ast.walk(z)):
            return node
        self.k += 1
        w = '__vcW%d' % self.k
        lo, hi = (ast.unparse(x), i) if down else (i, ast.unparse(x))
        head = ast.parse('%s = (%s, %s)' % (w, lo, hi)).body[0]
        loop = ast.parse('for %s in __vc_loop__.counter(%s[0], %s[1], %r):\n    pass' % (i, w, w, down)).body[0]
        loop.body = b[:-1]
        tail = ast.parse('%s = __vc_loop__.final(%s[0], %s[1], %r)' % (i, w, w, down)).body[0]
        out = self.visit_For(loop)
        return [head] + (out if isinstance(out, list) else [out]) + [tail]

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) != 1 or g.ifs or g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node
        if isinstance(g.target, ast.Name):
            f = 'lambda %s: 0' % g.target.id
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            f = 'lambda __vc_t: (lambda %s: 0)(*__vc_t)' % ', '.join(x.id for x in g.target.elts)
        else:
            return node
        c = ast.parse('__vc_loop__.listcomp(%s, None)' % f, mode='eval').body
        lam = c.args[0] if isinstance(g.target, ast.Name) else c.args[0].body.func
        lam.body = node.elt
        c.args[1] = g.iter
        return ast.copy_location(c, node)

    def visit_For(self, node):
        if getattr(node, '_vc_done', False):
            return node
        node._vc_done = True
        self.generic_visit(node)
        if node.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in node.body for x in ast.walk(b)):
            return node
        v = _Names()
        for b in node.body:
            v.visit(b)
        tv = _Names()
        tv.visit(node.target)
        names = sorted(v.s - tv.s)
        self.k += 1
        it = '__vcL%d' % self.k
        src = 'if {it}.sym:\n' + ''.join(
            "    {it}_d = {it}.%s({names!r}, locals())\n" % m if m else '' for m in ['enter'])
        pre = "if {it}.sym:\n    {it}_d = {it}.enter({names!r}, locals())\n"
        post = "if {it}.sym:\n    {it}_d = {it}.leave({names!r}, locals())\n"
        asg = ''.join("    if {n!r} in {it}_d: {n} = {it}_d[{n!r}]\n".format(n=n, it=it) for n in names)
        pre = (pre + asg).format(it=it, names=names) if False else pre.format(it=it, names=names) + asg
        post = post.format(it=it, names=names) + asg
        start = ast.parse('%s = __vc_loop__.start(None)' % it).body[0]
        start.value.args[0] = node.iter
        node.iter = ast.parse('%s.iterate()' % it, mode='eval').body
        node.body = ast.parse(pre).body + node.body + ast.parse(post).body
        return [start, node]


def instrument(tree):
    t = _Tr().visit(tree)
    ast.fix_missing_locations(t)
    return t
