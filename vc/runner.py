"""Runs the obligations of one property, triages failures, writes evidence, prints the verdict."""
import importlib, json, multiprocessing, os, sys, time, traceback, hashlib
from . import sym as s_, contract as c_, rt, prove, smt, explore, load
from .contract import Contract, Job, Res

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lemma:
    """obligation over specification terms (no code): goals is a function vars -> list of (name, SymBool | (lhs, rhs))"""

    def __init__(self, name, vars, goals, pre=None, timeout=8000):
        self.name, self.vars, self.goals, self.pre, self.timeout = name, vars, goals, pre or (lambda v: []), timeout

    def run(self):
        con = Contract('lemma', self.vars, lambda v: None, pre=self.pre)
        v, dom = con.domain()
        out = []
        for nm, g in self.goals(v):
            t0 = time.time()
            full = 'lemma:%s:%s' % (self.name, nm)
            if isinstance(g, tuple):
                pv = prove.Prover(dom)
                vd = pv.eq(s_.S(g[0]), s_.S(g[1]))
                out.append(Res(full, vd.status, vd.method, '', vd.time, vd.env))
            else:
                if g is True:
                    out.append(Res(full, 'proved', 'trivial'))
                    continue
                r, env = smt.check(dom.pre + [s_.bnot(g)], self.timeout, True)
                if r == 'unsat':
                    out.append(Res(full, 'proved', 'z3 qfnra', '', time.time() - t0))
                elif r == 'sat':
                    out.append(Res(full, 'refuted', 'z3 model %s' % {k: float(x) for k, x in (env or {}).items()}, '', time.time() - t0))
                else:
                    # numeric fallback
                    bad = [e for e in dom.bank(200) if not prove._truth(g, e)]
                    out.append(Res(full, 'numeric' if not bad else 'refuted', 'z3 unknown; holds on %d sample points' % len(dom.bank()), str(bad[:1]), time.time() - t0))
        return out


class Custom:
    """fn(ctx) -> (list[Res], list[fail dict]) for functions whose contract needs its own driver"""

    def __init__(self, name, fn, funcs=()):
        self.name, self.fn, self.funcs = name, fn, list(funcs)


def run_contract(con, seed, nsamp, deviant=None):
    """-> dict(res=[...], fail=dict|None, unsupported=[...], calls)"""
    base_spec = con.spec
    if deviant is not None:
        con.spec = deviant
    try:
        jobs = []
        if con.scalar or con.sumvars:
            jobs.append(Job(con))
        for vm in con.vec:
            jobs.append(Job(con, vm))
        if con.defaults and (con.scalar or not con.vec):
            jobs.append(Job(con, (), omit=True))
        elif con.defaults:
            jobs.append(Job(con, con.vec[0], omit=True))
        res, unsup, wit = [], [], []
        for j in jobs:
            if not con.symbolic:
                unsup.append((j.name, con.note or 'outside the symbolic fragment'))
                continue
            try:
                j.run()
            except Exception as ex:
                j.unsupported = 'engine: %r' % (ex,)
                if os.environ.get('VC_DEBUG'):
                    traceback.print_exc()
            if j.unsupported:
                unsup.append((j.name, j.unsupported))
                fixed = []
                if con.loop is not None:
                    fixed = unrolled(con, j)
                res += [Res(r.name, 'bounded' if r.status in ('proved', 'proved~', 'numeric') else r.status, r.method, r.note, r.time, r.witness)
                        for r in j.res + fixed]
            else:
                res += j.res
        wit = [r.witness for r in res if r.status == 'refuted' and r.witness]
        fail = None
        r_ = None
        if con.search is not None:
            bad = [r for r in res if r.status in ('refuted', 'open')]
            import inspect
            kw = {'wit': wit[:20]} if 'wit' in inspect.signature(con.search).parameters else {}
            try:
                calls, f = con.search(seed, nsamp * (12 if unsup else 5 if bad else 1), **kw)
            except Exception as ex:
                calls, f = 0, ('the result does not have the form of the contract: %r' % ex, {})
            if f is not None:
                fail = dict(function=con.qual, contract=con.name, what=f[0], detail=f[1], obligations=[r.name for r in bad][:8],
                            verifier=[r.d() for r in bad][:4])
            r_ = type('X', (), dict(calls=calls))
        elif con.runtime_on:
            try:
                r_ = rt.Runtime(con, seed)
                f = r_.search(nsamp, wit[:6])
                bad = [r for r in res if r.status in ('refuted', 'open')]
                if f is None and (bad or unsup):
                    # look harder, and at a tighter tolerance, where an obligation failed or could not be generated
                    old = con.rtol
                    con.rtol = min(old, 1e-8) if bad or old <= 1e-6 else old
                    r2 = rt.Runtime(con, seed + 1)
                    f = r2.search(max(150, nsamp * 4), wit[:20])
                    con.rtol = old
                if f is not None:
                    fail = dict(function=con.qual, contract=con.name, what=f.what, detail=f.detail,
                                obligations=[r.name for r in bad][:8], verifier=[r.d() for r in bad][:4])
            except Exception as ex:
                if os.environ.get('VC_DEBUG'):
                    traceback.print_exc()
                if isinstance(ex, AttributeError) and con.qual.split('.')[-1] in str(ex):
                    fail = dict(function=con.qual, contract=con.name, what='function is missing: %r' % ex, detail={}, obligations=[])
                else:
                    raise
        elif any(r.status == 'refuted' for r in res):
            bad = [r for r in res if r.status == 'refuted']
            fail = dict(function=con.qual, contract=con.name, what=bad[0].method, noinput=True,
                        detail={'witness': str(bad[0].witness)}, obligations=[r.name for r in bad][:8], verifier=[r.d() for r in bad][:4])
        if fail is None:
            bad = [r for r in res if r.status == 'refuted' and counterexample(r)]
            if bad:
                # the verifier has a counterexample that the real code does not show: reported, without a failing input
                fail = dict(function=con.qual, contract=con.name, what='obligation not discharged (counterexample of the verifier not reproduced): ' + bad[0].method, noinput=True,
                            detail={'witness': str(bad[0].witness)}, obligations=[r.name for r in bad][:8], verifier=[r.d() for r in bad][:4])
            for r in res:
                if r.status == 'refuted' and r not in bad:
                    r.status = 'bounded'
                    r.note = 'not reproduced on the real code (front imprecise here); runtime contract holds. ' + r.note
                elif r.status == 'open':
                    r.status = 'bounded'
                    r.note = 'undecided symbolically; runtime contract holds. ' + r.method
        return dict(res=res, fail=fail, unsupported=unsup, calls=(r_.calls if r_ else 0), refuted=any(r.status == 'refuted' for r in res))
    finally:
        con.spec = base_spec


def counterexample(r):
    """refuted by values (the two sides differ at a point), not by the shape of a result or an exception of the front"""
    return r.method.startswith(('numeric', 'normal form', 'z3 model'))


def unrolled(con, job):
    """loops out of reach of the invariant: symbolic execution with fixed small counts (bounded)"""
    out = []
    iv = [k for k, r in con.vars.items() if rt.is_int(r)]
    for n in (0, 1, 2, 3):
        if n < con.vars[iv[0]].lo:
            continue
        c2 = Contract(con.qual, {k: r for k, r in con.vars.items() if k not in iv},
                      lambda v, n=n: con.spec(c_.Vars(v, **{k: s_.const(n) for k in iv})),
                      args=lambda v, n=n: [int(x.val) if isinstance(x, s_.Sym) and x.op == 'c' else x for x in con.args(c_.Vars(v, **{k: s_.const(n) for k in iv}))],
                      pre=lambda v, n=n: con.pre(c_.Vars(v, **{k: s_.const(n) for k in iv})),
                      name='%s[%s=%d]' % (con.name, iv[0], n), budget=20, defaults=con.defaults)
        j = Job(c2, job.vecnames)
        try:
            j.run()
        except Exception as ex:
            j.unsupported = repr(ex)
        if j.unsupported:
            break
        for r in j.res:
            if r.witness is not None:
                r.witness = dict(r.witness, **{k: n for k in iv})
        out += j.res
    return out


def run_item(args, symbolic=True):
    prop, idx, seed, nsamp = args
    t0 = time.time()
    it = items(prop)[idx]
    if not symbolic:
        (it if isinstance(it, Contract) else it.fn).symbolic = False
    try:
        smt.STATS.update(calls=0, time=0.0, unsat=0, sat=0, unknown=0)
        if isinstance(it, Lemma):
            rs = it.run()
            out = dict(kind='lemma', name=it.name, res=[r.d() for r in rs], fail=None, unsupported=[], known=None, calls=0, funcs=[])
            bad = [r for r in rs if r.status in ('refuted', 'open')]
            if bad:
                out['error'] = 'lemma over the specification not proved: %s' % [(r.name, r.method) for r in bad]
        elif isinstance(it, Custom):
            cx = dict(seed=seed, n=nsamp)
            rs, fails = it.fn(cx)
            out = dict(kind='custom', name=it.name, res=[r.d() for r in rs], fail=fails[0] if fails else None, unsupported=[], known=None, calls=cx.get('calls', 0),
                       funcs=it.funcs)
        else:
            known = None
            if it.known and listed(it.known['id']):
                r = run_contract(it, seed, nsamp, it.known['spec'])
                if r['fail'] is None:
                    known = '%s: %s' % (it.known['id'], it.known['text'])
                else:
                    first = r
                    r = run_contract(it, seed, nsamp)
                    if first['fail'].get('noinput') and r['fail'] is not None:
                        r = first              # the recorded deviation is there, with an obligation that fails without an input
                        known = '%s: %s' % (it.known['id'], it.known['text'])
            else:
                r = run_contract(it, seed, nsamp)
            out = dict(kind='contract', name=it.name, res=[x.d() for x in r['res']], fail=r['fail'], unsupported=r['unsupported'],
                       known=known, calls=r['calls'], funcs=[it.qual])
    except Exception as ex:
        out = dict(kind='error', name=getattr(it, 'name', str(idx)), res=[], fail=None, unsupported=[], known=None, calls=0, funcs=[],
                   error='%r\n%s' % (ex, traceback.format_exc()[-2000:]))
    out['smt'] = dict(smt.STATS)
    out['wall'] = time.time() - t0
    return out


def listed(kid):
    """the finding is recorded in the committed file"""
    return any(l.startswith('known:') and ' id=%s ' % kid in l for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.md'), encoding='utf-8'))


_ITEMS = {}


def items(prop):
    if prop not in _ITEMS:
        reg = importlib.import_module('contracts.registry')
        _ITEMS[prop] = reg.items(prop)
    return _ITEMS[prop]


TRUSTED = [
    'CPython executes the extracted module text as it executes the package',
    'vc/ (own VC generator: symbolic values, numpy front, path explorer, normal form) — cross-checked on every run against the real code',
    'z3 (qfnra-nlsat)', 'sympy polynomial factorisation (only proposes factors; products are re-expanded)',
    'machine arithmetic treated as real arithmetic; float literals read as the decimal/rational/multiple of pi they denote',
]


def _child(conn, job, symbolic):
    try:
        conn.send(run_item(job, symbolic))
    except BaseException as e:
        conn.send(dict(blank('error', str(job[1])), error='worker: %r' % (e,)))
    conn.close()
    os._exit(0)


def blank(kind, name):
    return dict(kind=kind, name=name, res=[], fail=None, unsupported=[], known=None, calls=0, funcs=[],
                smt=dict(calls=0, time=0, unsat=0, sat=0, unknown=0), wall=0)


def schedule(ctx, jobs, workers, item_limit, limit, its):
    """one process per item; an item that dies or runs out of time is decided by its runtime contract (bounded)"""
    t0 = time.time()
    todo = [(j, True) for j in jobs]
    run, outs = [], []
    while todo or run:
        while todo and len(run) < workers:
            j, symbolic = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, j, symbolic))
            p.start()
            b.close()
            run.append((p, a, j, symbolic, time.time()))
        for r in list(run):
            p, a, j, symbolic, st = r
            got = None
            late = time.time() - st > item_limit or (symbolic and time.time() - t0 > limit) or time.time() - t0 > limit + 90
            if a.poll(0):
                try:
                    got = a.recv()
                except EOFError:
                    got = False
            elif late:
                got = False
            elif not p.is_alive():
                try:
                    got = a.recv() if a.poll(0.05) else False          # it may have sent its result since the poll above
                except EOFError:
                    got = False
            if got is None:
                continue
            run.remove(r)
            if got is False:
                p.kill()
                name = getattr(its[j[1]], 'name', str(j[1]))
                it = its[j[1]]
                if symbolic and (isinstance(it, Contract) or hasattr(getattr(it, 'fn', None), 'symbolic')):
                    it.note = 'verifier out of time' if late else 'verifier process died'
                    todo.insert(0, (j, False))
                else:
                    outs.append(dict(blank('error', name), error='timeout' if late else 'worker died'))
            else:
                outs.append(got)
            p.join()
            a.close()
        time.sleep(0.01)
    return outs


def main(prop, tier, seed):
    t0 = time.time()
    its = items(prop)
    nsamp = 20 if tier == 'quick' else 250
    jobs = [(prop, i, seed, nsamp) for i in range(len(its))]
    outs = []
    load.real()
    ctx = multiprocessing.get_context('fork')
    workers = min(8, os.cpu_count() or 4, max(1, len(jobs)))
    limit = 600 if tier == 'quick' else 6000
    if os.environ.get('VC_SERIAL'):
        outs = [run_item(j) for j in jobs]
    else:
        outs = schedule(ctx, jobs, workers, 300 if tier == 'quick' else 3000, limit, its)
    return report(prop, tier, seed, outs, t0)


def report(prop, tier, seed, outs, t0):
    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    count = {}
    if prop == 'C20':
        from . import relational
        relational.compose(outs)
    allres = [r for o in outs for r in o['res']]
    for r in allres:
        count[r['status']] = count.get(r['status'], 0) + 1
    fails = [o for o in outs if o['fail']]
    errors = [o for o in outs if o.get('error')]
    knowns = sorted({o['known'] for o in outs if o.get('known')})
    funcs = sorted({f for o in outs for f in o['funcs']})
    bounded_f = sorted({n for o in outs for n, why in o['unsupported']})
    proved = count.get('proved', 0) + count.get('proved~', 0)
    methods = {}
    for r in allres:
        if r['status'] in ('proved', 'proved~'):
            k = r['method'].split(';')[0].split('(')[0].strip()[:40]
            methods[k] = methods.get(k, 0) + 1
    cov = dict(
        obligations=len(allres), discharged=proved,
        checker_cmd='python3 /verif/check.py %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED,
        discharged_by=methods, by_status=count, functions_under_contract=funcs,
        bounded_stand_ins=[dict(obligation=n, reason=w) for o in outs for n, w in o['unsupported']],
        numeric_only=[r['name'] for r in allres if r['status'] == 'numeric'][:60],
        bounded=[dict(name=r['name'], note=r['note'][:160]) for r in allres if r['status'] == 'bounded'][:60],
        solver=dict(calls=sum(o['smt']['calls'] for o in outs), seconds=round(sum(o['smt']['time'] for o in outs), 2)),
        runtime_contract_evaluations=sum(o['calls'] for o in outs),
        known_findings=knowns,
        samples=[r for r in allres if r['status'] == 'proved'][:5],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=len(fails))
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1, default=str)
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s: %d obligations, %d discharged, %s; %d functions; %d runtime evaluations; %.1f s' % (
        prop, len(allres), proved, {k: v for k, v in count.items() if k not in ('proved', 'proved~')}, len(funcs),
        cov['runtime_contract_evaluations'], time.time() - t0))
    if os.environ.get('VC_VERBOSE'):
        for o in outs:
            for n, w in o['unsupported']:
                print('  bounded:', n, '--', w[:150])
            for r in o['res']:
                if r['status'] not in ('proved',):
                    print('  %-8s %s -- %s %s' % (r['status'], r['name'], r['method'][:120], r['note'][:150]))
            if o['wall'] > 10:
                print('  slow: %s %.1fs' % (o['name'], o['wall']))
    rc = 0
    rdir = os.path.join(evd, 'replay')
    if fails:
        os.makedirs(rdir, exist_ok=True)
    for n, o in enumerate(fails):
        path = os.path.join(rdir, '%s-%d.json' % (prop, n))
        json.dump(dict(property=prop, **o['fail']), open(path, 'w'), indent=1, default=str)
        print('  failed: %s: %s  [%s]' % (o['fail']['function'], o['fail']['what'], ', '.join(o['fail'].get('obligations', [])[:3])))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if o['fail'].get('noinput') else ''))
        rc = 1
    if rc == 0 and errors:
        for o in errors:
            print('ERROR in %s: %s' % (o['name'], o['error']))
        rc = 2
    if rc == 0 and not allres:
        print('ERROR: no obligations generated')
        rc = 2
    return rc


ASSUME = [
    'binary64 arithmetic is treated as real arithmetic (rounding, overflow and NaN propagation are outside the proofs; the runtime contract evaluations exercise them)',
    'numpy/scipy routines meet their documented contracts (elementwise functions, dot, sum, linalg.inv, fsolve returns a root, odeint integrates the given right-hand side)',
    'inputs satisfy the stated preconditions (physical ranges)',
]
