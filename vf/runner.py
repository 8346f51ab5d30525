"""Runs the check of one property: proofs (deductive verification of the real code) and the bounded replay harness."""
import os, sys, json, time, subprocess, tempfile, threading, importlib, traceback, hashlib, signal
from .astdb import AstDB, ExtractionError, REPO, VERIF, BUILD
from . import spec, solve

CXX = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-include', 'cstdint', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment']


class Replay:
    """compiles the harness with the current sources of /repo and runs it"""
    def __init__(self, cfg, seed, budget):
        self.cfg, self.seed, self.budget = cfg, seed, budget
        self.fail = None        # (what, input)
        self.stats = None
        self.error = None
        self.wall = 0.0
        self.cmd = ''

    def run(self):
        t = time.time()
        try:
            self._run()
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, str(e)[:1500])
        self.wall = time.time() - t

    def _run(self):
        c = self.cfg
        d = tempfile.mkdtemp(prefix='vfreplay')
        try:
            srcs = [os.path.join(VERIF, 'replay', c['src'])] + [os.path.join(REPO, 'src', s) for s in c.get('repo', [])]
            flags = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'replay')] + c.get('flags', [])
            cxx = [x for x in CXX if 'sanitize' not in x] if c.get('plain') else CXX
            ps, objs = [], []
            for i, s in enumerate(srcs):
                o = os.path.join(d, '%d.o' % i)
                objs.append(o)
                ps.append((s, subprocess.Popen(cxx + flags + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
            errs = []
            for s, p in ps:
                e = p.communicate()[1]
                if p.returncode:
                    errs.append('%s: %s' % (s, e.decode('utf-8', 'replace')[-1500:]))
            if errs:
                raise ExtractionError('replay harness does not compile: ' + errs[0])
            exe = os.path.join(d, 'replay')
            p = subprocess.run(cxx + objs + ['-o', exe] + c.get('libs', []), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if p.returncode:
                raise ExtractionError('replay harness does not link: ' + p.stderr.decode('utf-8', 'replace')[-1500:])
            self.cmd = 'g++ %s replay/%s %s && ./a.out --prop %s --seed %d --budget %g' % (' '.join(flags), c['src'], ' '.join('$REPO/src/' + s for s in c.get('repo', [])), c['prop'], self.seed, self.budget)
            w = os.path.join(d, 'scratch')
            os.mkdir(w)
            env = dict(os.environ, VR_SCRATCH=w, VR_REPO=REPO)
            try:
                p = subprocess.run([exe, '--prop', c['prop'], '--seed', str(self.seed), '--budget', str(self.budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w, env=env,
                                   timeout=self.budget * 4 + 150, preexec_fn=limit)
                out, err, rc = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), p.returncode
            except subprocess.TimeoutExpired as e:
                out, err, rc = (e.stdout or b'').decode('utf-8', 'replace'), 'time limit of the harness', -1
            for l in out.split('\n'):
                if l.startswith('STATS '):
                    self.stats = json.loads(l[6:])
            if rc != 0 or self.stats is None:
                what = next((l[5:] for l in out.split('\n') if l.startswith('FAIL ')), None)
                inp = out.split('INPUT-BEGIN\n', 1)[1].split('\nINPUT-END', 1)[0] if 'INPUT-BEGIN\n' in out else ''
                if what is None and rc == -1:
                    raise RuntimeError('harness ran out of time')
                self.fail = (what or 'the harness ended with status %d: %s' % (rc, err[-800:]), inp, err[-3000:])
        finally:
            subprocess.call(['rm', '-r', '-f', d])


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: property=%s ' % pid):])
    return out


def run_check(pid, P, tier, seed):
    t0 = time.time()
    thorough = tier == 'thorough'
    reps = []
    for c in P.get('replay', []):
        b = c.get('budget', 6.0) * (12 if thorough else 1)
        r = Replay(c, seed, b)
        th = threading.Thread(target=r.run)
        th.start()
        reps.append((r, th))
    failed, undecided, results, fns = [], [], [], []
    trusted, inlined, used = set(), set(), set()
    assumptions = list(P.get('assumptions', []))
    per = []
    solve.DEADLINE[0] = t0 + (5000 if thorough else 500)
    solve.ABORT[0] = lambda: any(r.fail for r, _ in reps)
    for modname, names in P.get('proofs', []):
        try:
            mod = importlib.import_module('contracts.' + modname)
            db = AstDB(mod.DRIVER, getattr(mod, 'FLAGS', ()))
        except ExtractionError as e:
            undecided.append('%s: %s' % (modname, e))
            continue
        for a in getattr(mod, 'ASSUMPTIONS', []):
            if a not in assumptions:
                assumptions.append(a)
        for nm in names:
            c = getattr(mod, nm)
            t = time.time()
            if any(r.fail for r, _ in reps) or t > solve.DEADLINE[0]:
                undecided.append('%s: not attempted, %s' % (c.name, 'the replay harness has a failing input already' if t <= solve.DEADLINE[0] else 'time limit'))
                continue
            try:
                use = mod.USE(c) if hasattr(mod, 'USE') else []
                kw = {}
                if thorough:
                    kw['budget'] = (4000, 12000, 30)
                vr = spec.verify(db, c, use, mode=getattr(c, 'mode', None) or getattr(mod, 'MODE', 'int'), hooks=getattr(mod, 'hooks', None), **kw)
            except ExtractionError as e:
                undecided.append('%s: %s' % (c.name, e))
                continue
            except solve.Aborted:
                undecided.append('%s: not finished, the replay harness has a failing input already' % c.name)
                continue
            except Exception as e:
                if os.environ.get('VF_DEBUG'):
                    traceback.print_exc()
                undecided.append('%s: generator %s: %s' % (c.name, type(e).__name__, str(e)[:300]))
                continue
            n = len(vr.results)
            bad = [(o, r) for o, r in vr.results if r.st != 'proved']
            if n == 0:
                undecided.append('%s: no obligation generated' % c.name)
                continue
            if vr.vacuous:
                failed.append((c, None, 'no normal return of the function is reachable under the precondition'))
            for o, r in bad:
                if r.by == 'deadline':
                    undecided.append('%s: %r: time limit' % (c.name, o))
                else:
                    failed.append((c, o, r))
            if failed and not thorough:     # the verdict is decided: what is left gets little time only
                solve.DEADLINE[0] = min(solve.DEADLINE[0], max(time.time() + 15, t0 + 100))
            results += vr.results
            trusted |= vr.trusted
            inlined |= vr.inlined
            used |= vr.used
            per.append({'function': c.name, 'where': vr.where, 'obligations': n, 'discharged': n - len(bad), 'paths': vr.paths, 'invariants': vr.invs, 'seconds': round(time.time() - t, 2)})
    for r, th in reps:
        th.join()
    by, solver_s = {}, 0.0
    for o, r in results:
        solver_s += r.t
        if r.st == 'proved':
            by[r.by] = by.get(r.by, 0) + 1
    nob = len(results)
    ndis = sum(1 for o, r in results if r.st == 'proved')
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines, nviol = [], 0
    known = known_findings(pid)
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k))
    rfail = [r for r, _ in reps if r.fail]
    for r in rfail:
        f = os.path.join(rdir, '%s-%s.txt' % (pid, r.cfg['prop']))
        with open(f, 'w') as h:
            h.write('property %s violated by the real code\n%s\n\ninput:\n%s\n\nharness: %s\nreproduce: %s\n\n%s\n' % (pid, r.fail[0], r.fail[1], r.cfg['src'], r.cmd, r.fail[2]))
            for c, o, x in failed:
                h.write('failed obligation: %s %r %s\n' % (c.name, o, x))
        lines.append('VIOLATION property=%s replay=%s' % (pid, f))
        nviol += 1
    if not rfail and failed:
        f = os.path.join(rdir, '%s-proof.txt' % pid)
        with open(f, 'w') as h:
            h.write('property %s: obligations not discharged on the current source\n' % pid)
            for c, o, r in failed:
                h.write('\nfunction %s\nobligation %r\nverifier: %s\n' % (c.name, o, r))
                if getattr(r, 'model', None):
                    h.write('candidate counterexample: %s\n' % r.model)
                if o is not None:
                    h.write('goal: %s\n' % str(o.goal)[:3000])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, f))
        nviol += 1
    for c, o, r in failed[:20]:
        print('# failed obligation: %s: %r: %s' % (c.name, o, r))
    for u in undecided:
        print('# not verified in this run (outside the reach of the extraction): ' + u)
    for r, _ in reps:
        if r.error:
            print('# replay harness: ' + r.error)
        if r.fail:
            print('# failing input: %s | %s' % (r.fail[0], r.fail[1][:600].replace('\n', ' ')))
    level = P['level']
    cov = {}
    if level == 'proof':
        cov.update(obligations=nob, discharged=ndis, checker_cmd='python3-vt check.py %s --tier %s (VC generation from the clang AST of /repo/src, back ends z3 4.8.12, z3 5.3.2, cvc5 1.1.2)' % (pid, tier),
                   trusted_base=sorted(trusted | set(BASE_TRUST)))
        cov['discharged_by'] = by
        cov['solver_seconds'] = round(solver_s, 2)
        cov['functions_under_contract'] = per
        cov['inlined_functions'] = sorted(inlined)
        cov['callee_contracts_used'] = sorted(str(u) for u in used)
    st = [r.stats for r, _ in reps if r.stats]
    if st:
        b = {'evaluations': sum(s['evaluations'] for s in st), 'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in st),
             'rule': P.get('rule', 'enumerated small cases, then seeded random ones; distinct case texts with more than one operation or a non-trivial input are counted'),
             'samples': [x for s in st for x in s['samples']][:6]}
        if level == 'proof':
            cov['bounded_validation'] = dict(b, note='bounded replay harness on the real code, not counted as proved')
        else:
            cov.update(b)
    if level != 'proof' and results:
        cov['deductive_part'] = dict(obligations=nob, discharged=ndis, discharged_by=by, solver_seconds=round(solver_s, 2), functions_under_contract=per,
                                     inlined_functions=sorted(inlined), callee_contracts_used=sorted(str(u) for u in used), trusted_base=sorted(trusted | set(BASE_TRUST)))
    cov['not_verified_in_this_run'] = undecided
    cov['replay_errors'] = [r.error for r, _ in reps if r.error]
    if level == 'other' and 'explanation' not in cov:
        cov['explanation'] = P.get('explanation', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as h:
        json.dump(ev, h, indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    print('# %s: %d obligations, %d discharged, %d functions, %s bounded cases, %.1f s' % (pid, nob, ndis, len(per), sum(s['evaluations'] for s in st), time.time() - t0))
    for l in lines:
        print(l)
    return 1 if nviol else 0


BASE_TRUST = ['clang 18 front end (AST of the real sources)', 'the VC generator in /verif/vf (symbolic semantics of C++, models of the standard library containers)',
              'z3 4.8.12, z3 5.3.2, cvc5 1.1.2']
