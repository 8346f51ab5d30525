"""Discharging obligations: z3 (E-matching, then with model-based instantiation), then cvc5."""
import z3, os, subprocess, time, multiprocessing, multiprocessing.connection, tempfile
from .engine import Inv

NPROC = int(os.environ.get('VF_JOBS', str(min(8, os.cpu_count() or 1))))
_G = {}
ABORT = [None]          # function telling that no more answers are needed


class Aborted(Exception):
    pass


DEADLINE = [None]       # no solver call begins after it; what is left then is not decided in this run


class Result:
    __slots__ = ('st', 'by', 't', 'model')
    def __init__(self, st, by, t, model=None):
        self.st, self.by, self.t, self.model = st, by, t, model

    def __repr__(self):
        return '%s/%s/%.2fs' % (self.st, self.by, self.t)


def pcf(pc, alive, focus=None):
    out = []
    for f in pc:
        if isinstance(f, Inv):
            if focus is not None and not focus(f.name):
                continue
            if alive is None or (f.key, f.name) in alive:
                out.append(f.f)
        else:
            out.append(f)
    return out


_nv = {}


def nvars(f):
    """largest number of variables bound by one quantifier of f"""
    i = f.get_id()
    if i in _nv:
        return _nv[i][1]
    m, st, seen = 0, [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            m = max(m, x.num_vars())
            st.append(x.body())
        else:
            st += x.children()
    _nv[i] = (f, m)
    return m


_sq = {}


def square(f):
    """has a quantifier over pairs of entries of the same arrays"""
    i = f.get_id()
    if i in _sq:
        return _sq[i][1]
    r, st, seen = False, [f], set()
    while st and not r:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.num_vars() > 1:
                for k in range(x.num_patterns()):
                    p = x.pattern(k)
                    hs = [str(c.arg(0)) if z3.is_select(c) else c.decl().name() for c in p.children()]
                    pre = [h.split('[]')[0] for h in hs]
                    if len(set(pre)) < len(pre):
                        r = True
                if not x.num_patterns():
                    r = True
            st.append(x.body())
        else:
            st += x.children()
    _sq[i] = (f, r)
    return r


def cases(goal, splits):
    """the bound variables of the goal equal to / different from the split terms"""
    vs = [z3.FreshConst(goal.var_sort(k), 'sk') for k in range(goal.num_vars())]
    body = z3.substitute_vars(goal.body(), *reversed(vs))
    out = [[]]
    for v in vs:
        if v.sort() == z3.IntSort():
            new = []
            for c in out:
                for t in splits:
                    new.append(c + [v == t])
                new.append(c + [v != t for t in splits])
            out = new
    return [(c, body) for c in out]


def prove_cases(assumps, goal, budget, splits):
    """case distinction over formulas, with the rest case that none of them holds"""
    r = prove1(assumps, goal, (min(budget[0], 1000), 0, 0))
    if r.st != 'unknown':
        return r
    t = r.t
    for c in list(splits) + [None]:
        if c is None:
            q = prove1(list(assumps) + [z3.Not(x) for x in splits], goal, budget)
            if q.st != 'proved':
                return prove1(assumps, goal, budget)
        elif z3.is_eq(c) and any(z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in c.children()):
            x, y = c.children()
            if not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                x, y = y, x
            sub = lambda f: z3.simplify(z3.substitute(f, (x, y)))
            q = prove1([sub(f) for f in assumps], sub(goal), budget)
        else:
            q = prove1(list(assumps) + [c], goal, budget)
        t += q.t
        if q.st != 'proved':
            return Result(q.st, q.by, t, q.model)
    return Result('proved', 'z3-cases', t)


def parts(goal, hyp=()):
    """the goal as a list of (assumptions, goal): conjunctions, implications and quantifiers opened"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.FreshConst(goal.var_sort(k), 'sk') for k in range(goal.num_vars())]
        return parts(z3.substitute_vars(goal.body(), *reversed(vs)), hyp)
    if z3.is_and(goal):
        return [p for g in goal.children() for p in parts(g, hyp)]
    if z3.is_implies(goal):
        return parts(goal.arg(1), tuple(hyp) + (goal.arg(0),))
    if z3.is_app_of(goal, z3.Z3_OP_ITE):
        c, a, b = goal.children()
        return parts(a, tuple(hyp) + (c,)) + parts(b, tuple(hyp) + (z3.Not(c),))
    if z3.is_or(goal):
        cs = goal.children()
        k = next((k for k in reversed(range(len(cs))) if z3.is_and(cs[k]) or z3.is_app_of(cs[k], z3.Z3_OP_ITE) or z3.is_quantifier(cs[k]) and cs[k].is_forall()), None)
        if k is not None:
            return parts(cs[k], tuple(hyp) + tuple(z3.Not(c) for i, c in enumerate(cs) if i != k))
    return [(hyp, goal)]


def prove_parts(assumps, goal, budget):
    """a goal that is not proved at once: its parts one by one"""
    ps = parts(goal)
    if len(ps) < 2:
        return prove1(assumps, goal, budget)
    r = prove1(assumps, goal, (min(budget[0], 600), 0, 0) + tuple(budget[3:]))
    if r.st != 'unknown':
        return r
    t = r.t
    for h, g in ps:
        q = prove1(list(assumps) + list(h), g, budget)
        t += q.t
        if q.st != 'proved':
            return Result(q.st, q.by, t, q.model)
    return Result('proved', 'parts', t)


def prove(assumps, goal, budget, splits):
    if splits and z3.is_bool(splits[0]):
        return prove_cases(assumps, goal, budget, splits)
    if not splits or not z3.is_quantifier(goal):
        return prove_parts(assumps, goal, budget)
    b1 = (budget[0] // 2, 0, 0)
    r = prove1(assumps, goal, b1)
    if r.st != 'unknown':
        return r
    t = r.t
    for cs, body in cases(goal, splits):
        q = prove1(list(assumps) + cs, body, budget)
        t += q.t
        if q.st != 'proved':
            return Result(q.st, q.by, t, q.model)
    return Result('proved', 'z3-cases', t)


Z3OLD = '/usr/bin/z3'


def cli(cmd, txt, tmo):
    try:
        p = subprocess.run(cmd, input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 3)
        o = p.stdout.decode().strip().split('\n')
        return next((x for x in o if x in ('sat', 'unsat', 'unknown', 'timeout')), 'unknown')
    except Exception:
        return 'unknown'


def smt2(hyp, goal):
    s = z3.Solver()
    s.add(hyp)
    s.add(z3.Not(goal))
    return '(set-logic ALL)\n' + s.to_smt2()


def prove1(assumps, goal, budget=(1500, 4000, 8), lemmas=()):
    """budget: (E-matching ms, model-based ms, saturation s, first try ms, number of further short tries)"""
    t0 = time.time()
    if DEADLINE[0] and t0 > DEADLINE[0]:
        return Result('unknown', 'deadline', 0.0)
    if z3.is_true(z3.simplify(goal)):
        return Result('proved', 'simplify', time.time() - t0)
    el = lambda: time.time() - t0

    def py(nm, opts, tmo, hyp):
        s = z3.Solver()
        s.set('timeout', int(tmo))
        for k, v in opts.items():
            s.set('smt.' + k, v)
        s.add(hyp)
        s.add(z3.Not(goal))
        w = _G.get('watch')
        if w is not None:
            w[0][w[1]] = time.time() + 2 * tmo / 1000. + 8
        r = s.check()
        if w is not None:
            w[0][w[1]] = 0.0
        if r == z3.unsat:
            return Result('proved', nm, el())
        if r == z3.sat and hyp is assumps:
            return Result('refuted', nm, el(), model_str(s.model()))
    quant = nvars(goal) > 0 or any(nvars(f) > 0 for f in assumps)
    b = budget[0]
    r = py('z3-5', dict(mbqi=False, random_seed=0), (budget[3] if len(budget) > 3 else min(b, 300)) if quant else 4 * b, assumps)
    if r:
        return r
    if quant and len(budget) > 4:
        # the time of a search has a long tail: several short searches
        for sd in range(1, budget[4] + 1):
            r = py('z3-5', dict([('mbqi', False), ('random_seed', sd)] + ([('arith.solver', 2)] if sd % 3 == 2 else [])), budget[3], assumps)
            if r:
                return r
    multi = [f for f in assumps if nvars(f) > 1]
    light = [f for f in assumps if nvars(f) <= 1]
    hyps = [assumps] + ([light] + ([light + [m] for m in multi[:6]] if len(multi) > 1 else []) if multi else [])
    txts = {}

    def txt(k):
        if k not in txts:
            txts[k] = smt2(hyps[k], goal)
        return txts[k]
    # fewer assumptions: sound, and often what keeps the instantiations apart
    if quant:
        for k in range(min(2, len(hyps))):
            if cli([Z3OLD, '-in', 'smt.mbqi=false', '-t:%d' % b], txt(k), b / 1000.) == 'unsat':
                return Result('proved', 'z3-4.8', el())
            if cli(['cvc5', '--lang=smt2', '--tlimit=%d' % b], txt(k), b / 1000.) == 'unsat':
                return Result('proved', 'cvc5', el())
        for k in range(2, len(hyps)):
            if cli([Z3OLD, '-in', 'smt.mbqi=false', '-t:%d' % b], txt(k), b / 1000.) == 'unsat':
                return Result('proved', 'z3-4.8', el())
        for opts in (dict(mbqi=False, random_seed=5, **{'qi.eager_threshold': 20.0}),):
            r = py('z3-5', opts, b, assumps)
            if r:
                return r
    if budget[1] and not _G.get('nombqi'):
        r = py('z3-5-mbqi', dict(random_seed=7), budget[1], assumps)
        if r:
            return r
    if len(budget) > 2 and budget[2]:
        for k in range(min(2, len(hyps))):
            if cli(['cvc5', '--lang=smt2', '--tlimit=%d' % (budget[2] * 1000), '--full-saturate-quant'], txt(k), budget[2]) == 'unsat':
                return Result('proved', 'cvc5', el())
        if quant:
            for k, sd in ((0, 3), (1, 3), (0, 11)):
                if k < len(hyps) and cli([Z3OLD, '-in', 'smt.mbqi=false', 'smt.random_seed=%d' % sd, '-t:%d' % (3 * b)], txt(k), 3 * b / 1000.) == 'unsat':
                    return Result('proved', 'z3-4.8', el())
    return Result('unknown', 'z3+cvc5', el())


def model_str(m):
    try:
        return '; '.join('%s=%s' % (d, m[d]) for d in m.decls())[:4000]
    except Exception:
        return ''


def _work(i):
    obs, alive, budget = _G['obs'], _G['alive'], _G['budget']
    o = obs[i]
    try:
        if o.focus is not None:
            r = prove(pcf(o.pc, alive, o.focus), o.goal, budget, o.hints)
            if r.st == 'proved':
                return i, r
        return i, prove(pcf(o.pc, alive), o.goal, budget, o.hints)
    except z3.Z3Exception as e:
        return i, Result('unknown', 'z3 error %s' % str(e)[:100], 0.0)


def _child(slot, watch, conn):
    _G['watch'] = (watch, slot)
    while True:
        m = conn.recv()
        if m is None:
            return
        i, _G['nombqi'] = m
        conn.send(_work(i))


def run_many(obs, alive, budget):
    """all obligations on several processes; a solver that does not respect its time limit is ended by force"""
    if not obs:
        return []
    _G.update(obs=obs, alive=alive, budget=budget)
    n = min(NPROC, len(obs))
    res = [None] * len(obs)
    ctx = multiprocessing.get_context('fork')
    watch = ctx.Array('d', n, lock=False)
    queue = [(i, False) for i in reversed(range(len(obs)))]
    procs, job = [None] * n, [None] * n

    def start(k):
        a, b = ctx.Pipe()
        watch[k] = 0.0
        p = ctx.Process(target=_child, args=(k, watch, b), daemon=True)
        p.start()
        b.close()
        procs[k] = (p, a)

    def give(k):
        job[k] = None
        if queue:
            job[k] = queue.pop()
            procs[k][1].send(job[k])
    for k in range(n):
        start(k)
        give(k)
    while any(j is not None for j in job):
        busy = {procs[k][1]: k for k in range(n) if job[k] is not None}
        for c in multiprocessing.connection.wait(list(busy), 1.0):
            k = busy[c]
            try:
                i, r = c.recv()
            except (EOFError, OSError):
                i, r = job[k][0], Result('unknown', 'solver process ended', 0.0)
                start(k)
            res[i] = r
            give(k)
        now = time.time()
        if ABORT[0] is not None and ABORT[0]():
            for p, a in procs:
                p.kill()
                p.join()
            raise Aborted()
        for k in range(n):
            if job[k] is not None and watch[k] and now > watch[k]:
                procs[k][0].kill()
                procs[k][0].join()
                procs[k][1].close()
                i, skip = job[k]
                start(k)
                if skip:
                    res[i] = Result('unknown', 'solver without end', 0.0)
                else:
                    queue.append((i, True))
                give(k)
    for p, a in procs:
        try:
            a.send(None)
        except OSError:
            pass
        a.close()
    for p, a in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    return res


def discharge(obligs, budget=(1500, 4000, 8), invbudget=(600, 1500, 0), log=None):
    """returns (list of (oblig, Result)), alive invariants"""
    invobs = [o for o in obligs if o.inv is not None]
    main = [o for o in obligs if o.inv is None]
    alive = set(o.inv for o in invobs)
    rounds = 0
    proved_at = {}
    times = 0.0
    invres = {}
    while True:
        rounds += 1
        todo = [o for o in invobs if o.inv in alive]
        rs = run_many(todo, alive, invbudget)
        bad = set()
        invres = {}
        for o, r in zip(todo, rs):
            times += r.t
            invres[id(o)] = (o, r)
            if r.st != 'proved':
                bad.add(o.inv)
                if os.environ.get('VF_DEBUG'):
                    print('DROP', rounds, o, r, o.inv[0][1:])
                    if os.environ.get('VF_DUMP') and os.environ['VF_DUMP'] in '%d:%r' % (rounds, o):
                        s = z3.Solver()
                        s.add(pcf(o.pc, alive))
                        s.add(z3.Not(o.goal))
                        open('/tmp/w/dump.smt2', 'w').write('(set-logic ALL)\n' + s.to_smt2())
                        os._exit(1)
        if not bad:
            break
        alive -= bad
    res = [invres[id(o)] for o in invobs if o.inv in alive]
    rs = run_many(main, alive, budget)
    res += list(zip(main, rs))
    return res, alive, rounds


def merge_results(rs):
    return rs
