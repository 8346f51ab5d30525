"""The search for derivations of a type (src/typedb.cpp: ReduStack, TypeDatabase::deriveType).
The relations of a type at a step (C03) are ghost functions of type and related type.  P is an arbitrary path of reductions (ghost), the
claims about 'each path' are claims about P.  Ghost state, written by nothing but the specification: W[x] the weight queued with the element x of
the stack, C[x] its count, PFX[x] = j if x stands for the first j steps of P (else -1), CHAIN the elements on the way to the result."""
import z3
from vf.spec import *
from vf.values import qforall
from . import typedb
from .typedb import qi, HASTAG, asked, errcode
And, Or, Not, Imp, Exists, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.Exists, z3.If
forall = qforall
Q = typedb.Q
DRIVER = typedb.DRIVER
ST = 'ReduStack'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
ASSUMPTIONS = ['weights are real numbers', 'the relations of a type at a step depend on type, step and tags only (the table is not changed by the search)', 'weights of relations are not negative (refused by the table, C03)',
               'the weight of the first steps of a path is not above the weight of the path (induction over its length from the point before)', 'the sequence of elements a stack element comes from is defined by recursion (ghost)']
HAS = z3.Function('related', I, I, B)
IDX = z3.Function('position.of.related', I, I, I)
VAL = z3.Function('constructor.of', I, I, I)
WGT = z3.Function('weight.of', I, I, R)
TAG = z3.Function('tag.of', I, I, I)
PEX, PL = z3.Bool('ghost.path.exists'), z3.Int('ghost.path.length')
PT, PW, PC = z3.Const('ghost.path.types', AI), z3.Const('ghost.path.weights', AR), z3.Const('ghost.path.counts', AI)
PINV = z3.Const('ghost.path.position.of.type', AI)     # exists because the types of a path differ
CNTMASK = z3.Int('ghost.counted.tags')


def hooks(eng):
    typedb.hooks(eng)


def counted(a, b):
    return If(HASTAG(CNTMASK, TAG(a, b)), 1, 0)


def el(v):
    m = v.f['m_ar'] if isinstance(v, Rec) else v
    f = m.el.f
    return m.n, f['type'], f['constructor'], f['prev'], f['pathlen']


# ------------------------------------------------------------------ the stack of elements
def linked(v):
    n, ty, con, prev, pl = el(v)
    i = qi()
    return [('elements come from earlier ones', forall([i], Imp(And(0 <= i, i < n), And(-1 <= prev[i], prev[i] < i)), prev[i]))]


def appended(c, t, con, prev, pl):
    n, ty0, con0, prev0, pl0 = el(c.o())
    n1, ty1, con1, prev1, pl1 = el(c.n())
    return [('appended', And([n1 == n + 1] + [a1 == z3.Store(a0, n, v) for a1, a0, v in ((ty1, ty0, t), (con1, con0, con), (prev1, prev0, prev), (pl1, pl0, pl))]))]


def unchanged(c):
    return [('unchanged', veq_stack(c.o(), c.n()))]


def veq_stack(a, b):
    A, Bv = el(a), el(b)
    return And([x == y for x, y in zip(A, Bv)])


def cases(a, cond, b):
    return [(nm, Imp(cond, f)) for nm, f in a] + [(nm, Imp(Not(cond), f)) for nm, f in b]


def start_post(c):
    n, ty, con, prev, pl = el(c.o())
    i = qi()
    new = c.ret == n
    return [('index of the new element or none', Or(c.ret == n, c.ret == -1))] + \
        cases(appended(c, c.a(0), c.a(1), -1, 0) + [('no element has the type', forall([i], Imp(And(0 <= i, i < n), ty[i] != c.a(0)), ty[i]))], c.ret >= 0,
              unchanged(c) + [('an element has the type', Exists([i], And(0 <= i, i < n, ty[i] == c.a(0))))])


def start_inv(L):
    out = []
    c = L.eng.ctx
    for nm, v, l in L.values():
        if isz(v) and z3.is_int(v) and L.modified(l):
            n, ty, con, prev, pl = el(c.o())
            i = qi()
            out += [('up to ' + nm, And(0 <= v, v <= n)), ('other types before ' + nm, forall([i], Imp(And(0 <= i, i < v), ty[i] != c.a(0)), ty[i]))]
    return out


def ghost(c, nm):
    return c.eng.mem['ghost.' + nm]


def start_ghost(c):
    n = el(c.o())[0]
    return [('ghost.PFX', z3.Store(ghost(c, 'PFX'), n, If(And(PEX, c.a(0) == PT[0]), 0, -1))), ('ghost.C', z3.Store(ghost(c, 'C'), n, 0))]


pushStart = Contract('ReduStack::pushNonDuplicateStart', ST + '::pushNonDuplicateStart', 2, post=start_post, modifies=('m_ar',), templates=[start_inv], ghostmods=start_ghost)


def closed_set(c):
    """a set of elements that contains with each element the one it comes from, and prev"""
    if c.eng.target is pushIfNew:
        a = z3.Const('ghost.closed.set', z3.ArraySort(I, B))
        return lambda x: a[x]
    P = ghost(c, 'PFX')
    return lambda x: Or(P[c.a(2)] < 0, And(0 <= P[x], P[x] <= P[c.a(2)]))


def push_pre(c):
    n, ty, con, prev, pl = el(c.o())
    CL = closed_set(c)
    i = qi()
    return linked(c.o()) + [('an element', And(0 <= c.a(2), c.a(2) < n)), ('in the set', CL(c.a(2))), ('closed', forall([i], Imp(And(0 <= i, i < n, CL(i), prev[i] >= 0), CL(prev[i])), prev[i]))]


def push_post(c):
    n, ty, con, prev, pl = el(c.o())
    CL = closed_set(c)
    i = qi()
    return [('index of the new element or none', Or(c.ret == n, c.ret == -1))] + \
        cases(appended(c, c.a(0), c.a(1), c.a(2), c.a(3)), c.ret >= 0, unchanged(c) + [('one of the elements before has the type', Exists([i], And(0 <= i, i < n, CL(i), ty[i] == c.a(0))))])


def push_inv(L):
    c = L.eng.ctx
    if c.eng.target is not pushIfNew:
        return []
    n, ty, con, prev, pl = el(c.o())
    CL = closed_set(c)
    return [('on the way ' + nm, And(-1 <= v, v < n, Or(v < 0, CL(v)))) for nm, v, l in L.values() if isz(v) and z3.is_int(v) and L.modified(l)]


def push_ghost(c):
    n = el(c.o())[0]
    P, p = ghost(c, 'PFX'), c.a(2)
    return [('ghost.PFX', z3.Store(P, n, c.eng.named(If(And(PEX, P[p] >= 0, P[p] < PL, c.a(0) == PT[P[p] + 1]), P[p] + 1, -1), 'steps'))), ('ghost.C', z3.Store(ghost(c, 'C'), n, c.a(3)))]


pushIfNew = Contract('ReduStack::pushIfNew', ST + '::pushIfNew', 4, pre=push_pre, post=push_post, modifies=('m_ar',), templates=[push_inv], ghostmods=push_ghost)


# ------------------------------------------------------------------ results
ANC = z3.Const('ghost.ancestor', AI)
MK = z3.Function('mark', I, B)     # true, a trigger
LAB = z3.Const('ghost.label', AI)
COLLECT = []


def anc_setup(i):
    def f(e, this, args):
        n, ty, con, prev, pl = el(e.read(this))
        k = qi('k')
        e.pc.append(ANC[0] == args[i])
        e.pc.append(forall([k], And(MK(k), Imp(k >= 0, ANC[k + 1] == If(ANC[k] >= 0, prev[ANC[k]], -1))), MK(k)))
    return f


def label(c):
    return LAB if c.eng.target in COLLECT else ghost(c, 'PFX')


def collect_pre(ires, iidx):
    def f(c):
        n, ty, con, prev, pl = el(c.o())
        L = label(c)
        i = qi()
        return linked(c.o()) + [('empty result', c.a(ires).n == 0), ('an element', And(0 <= c.a(iidx), c.a(iidx) < n)),
                                ('labels count the steps', forall([i], Imp(And(0 <= i, i < n, L[i] >= 0), If(prev[i] < 0, L[i] == 0, And(L[prev[i]] == L[i] - 1, L[i] >= 1))), prev[i]))]
    return f


def collect_post(ires, iidx, rows, chain, root=None):
    def f(c):
        n, ty, con, prev, pl = el(c.o())
        res, L = c.an(ires), label(c)
        if c.eng.target in COLLECT:
            CH = lambda k: ANC[res.n - k]
        else:
            a = ghost(c, chain)
            CH = lambda k: a[k]
        k = qi('k')
        trig = (lambda k: res.el[k]) if isz(res.el) else (lambda k: res.el.f['type'][k])
        out = [('ends with the element', And(res.n >= 0, CH(res.n) == c.a(iidx))), ('starts with one that comes from none', And(0 <= CH(0), CH(0) < n, prev[CH(0)] < 0)),
               ('elements', forall([k], Imp(And(0 <= k, k < res.n), And(0 <= CH(k), CH(k) < n, 0 <= CH(k + 1), CH(k + 1) < n, prev[CH(k + 1)] == CH(k))), trig(k))),
               ('rows', forall([k], Imp(And(0 <= k, k < res.n), rows(res.el, k, ty, con, CH(k + 1))), trig(k))),
               ('labels', Imp(L[c.a(iidx)] >= 0, And(L[c.a(iidx)] == res.n, L[CH(0)] == 0, forall([k], Imp(And(0 <= k, k < res.n), L[CH(k + 1)] == k + 1), trig(k)))))]
        if root is not None:
            out.append(('root', c.an(root) == con[CH(0)]))
        return out
    return f


def collect_inv(ires, iidx, rows, root=None):
    def f(L):
        c = L.eng.ctx
        out = []
        if c.eng.target not in COLLECT:
            return out
        n, ty, con, prev, pl = el(c.o())
        res = L.eng.read_in(L.mem, c.args[ires])
        k = qi('k')
        trig = (lambda k: res.el[k]) if isz(res.el) else (lambda k: res.el.f['type'][k])
        for nm, v, l in L.values():
            if isz(v) and z3.is_int(v) and L.modified(l) and l.root not in [a.root for a in c.args if isinstance(a, Loc)]:
                # collected from the end: element k is the ancestor k
                at = If(v < 0, res.n + 1, res.n)
                out += [('at ' + nm, And(v >= -1, v < n, v == ANC[at], res.n >= 0, MK(res.n))),
                        ('last ' + nm, Imp(v < 0, And(0 <= ANC[res.n], ANC[res.n] < n, prev[ANC[res.n]] < 0))),
                        ('elements ' + nm, forall([k], Imp(And(0 <= k, k < res.n), And(0 <= ANC[k], ANC[k] < n, prev[ANC[k]] >= 0, ANC[k + 1] == prev[ANC[k]])), trig(k))),
                        ('rows ' + nm, forall([k], Imp(And(0 <= k, k < res.n), rows(res.el, k, ty, con, ANC[k])), trig(k))),
                        ('labels ' + nm, Imp(LAB[c.a(iidx)] >= 0, And(LAB[ANC[res.n]] == LAB[c.a(iidx)] - res.n, LAB[ANC[res.n]] >= 0,
                                                                    forall([k], Imp(And(0 <= k, k < res.n), LAB[ANC[k]] == LAB[c.a(iidx)] - k), trig(k))))),
                        ('inside ' + nm, And(0 <= ANC[res.n], ANC[res.n] < n))]
                if root is not None:
                    out.append(('root ' + nm, Imp(v < 0, L.eng.read_in(L.mem, c.args[root]) == con[ANC[res.n]])))
        return out
    return f


def chain_ghost(nm):
    return lambda c: [('ghost.' + nm, z3.Const(c.eng.freshname('chain'), AI))]


pair_rows = lambda e, k, ty, con, x: And(e.f['type'][k] == ty[x], e.f['constructor'][k] == con[x])
type_rows = lambda e, k, ty, con, x: e[k] == ty[x]
collectResult = Contract('ReduStack::collectResult', ST + '::collectResult', 2, setup=anc_setup(1), pre=collect_pre(0, 1), post=collect_post(0, 1, pair_rows, 'CHAIN'), argmods=(0,),
                         templates=[collect_inv(0, 1, pair_rows)], ghostmods=chain_ghost('CHAIN'))
collectConflict = Contract('ReduStack::collectConflictPath', ST + '::collectConflictPath', 2, setup=anc_setup(1), pre=collect_pre(0, 1), post=collect_post(0, 1, type_rows, 'CHAIN2'), argmods=(0,),
                           templates=[collect_inv(0, 1, type_rows)], ghostmods=chain_ghost('CHAIN2'))
collectRoot = Contract('ReduStack::collectResultWithRootIndex', ST + '::collectResultWithRootIndex', 3, setup=anc_setup(2), pre=collect_pre(1, 2), post=collect_post(1, 2, pair_rows, 'CHAIN', root=0), argmods=(0, 1),
                       templates=[collect_inv(1, 2, pair_rows, root=0)], ghostmods=chain_ghost('CHAIN'))
COLLECT += [collectResult, collectConflict, collectRoot]


# ------------------------------------------------------------------ the relations of a type
def rel_list(c):
    v, left = c.retv(), c.a(1)
    ok = And(c.a(0) == c.eng.ghosts['step'], c.a(2).f['m_mask'] == c.eng.ghosts['mask'])
    i, r = qi('i'), qi('r')
    f = v.el.f
    rt = f['m_right']
    val, tag, wgt = f['m_value'], f['m_tagval'], f['m_weight']
    rel = lambda t: forall([i], Imp(And(0 <= i, i < v.n), And(rt[i] >= 0, HAS(left, rt[i]), IDX(left, rt[i]) == i, val[i] == VAL(left, rt[i]), tag[i] == TAG(left, rt[i]), wgt[i] == WGT(left, rt[i]))), t)
    # triggers: no instance of the last claim may lead to another of the claims before
    return [('constructors', forall([i], Imp(And(0 <= i, i < v.n), val[i] >= 0), val[i])), ('tags', forall([i], Imp(And(0 <= i, i < v.n), And(tag[i] >= 0, tag[i] < 32)), tag[i])),
            ('weights', forall([i], Imp(And(0 <= i, i < v.n), wgt[i] >= 0), wgt[i])), ('relations', Imp(ok, And([rel(x[i]) for x in (val, tag, wgt)]))),
            ('all of them', Imp(ok, forall([r], Imp(HAS(left, r), And(0 <= IDX(left, r), IDX(left, r) < v.n, rt[IDX(left, r)] == r)), HAS(left, r))))]


rel_get = Contract('ScopedRelationMap::get', typedb.RELTAB + '::get', 4, trusted=True, post=rel_list)


# ------------------------------------------------------------------ the search
def ghost_roots(e):
    for nm, s in (('W', AR), ('C', AI), ('PFX', AI), ('CHAIN', AI), ('CHAIN2', AI)):
        e.mem['ghost.' + nm] = z3.Const('ghost.%s.0' % nm, s)


def path(first, last, lim):
    j, k = qi('j'), qi('k')
    step = And(HAS(PT[j], PT[j + 1]), PW[j + 1] == PW[j] + WGT(PT[j], PT[j + 1]), PC[j + 1] == PC[j] + counted(PT[j], PT[j + 1]))
    return Imp(PEX, And(PL >= 0, first, last, PW[0] == 0, PC[0] == 0, forall([j], And(MK(j), Imp(And(0 <= j, j < PL), step)), MK(j)),
                        forall([j], Imp(And(0 <= j, j <= PL), PINV[PT[j]] == j), PT[j]), forall([j], Imp(And(0 <= j, j <= PL), And(PC[j] <= lim, PW[j] <= PW[PL])), MK(j))))


MAXINT = (1 << 31) - 1


def limit(c):
    return If(c.a(5) == -1, MAXINT, c.a(5))


def derive_setup(e, this, args):
    typedb.setup()(e, this, args)
    ghost_roots(e)
    e.ghosts['step'] = args[0]
    e.ghosts['mask'] = e.read(args[3]).f['m_mask']
    e.pc.append(CNTMASK == e.read(args[4]).f['m_mask'])
    k = qi('k')
    e.pc.append(forall([k], MK(k), MK(k)))
    e.pc.append(path(PT[0] == args[2], PT[PL] == args[1], If(args[5] == -1, MAXINT, args[5])))


def steps(n, ty, con, start, W, C, CH):
    """ty[0..n) are the types after each step of a path of reductions, W and C of CH[k] weight and count of the first k steps"""
    k = qi('k')
    a, b = If(k == 0, start, ty[k - 1]), ty[k]
    f = And(HAS(a, b), W[CH[k + 1]] == W[CH[k]] + WGT(a, b))
    if C is not None:
        f = And(f, C[CH[k + 1]] == C[CH[k]] + counted(a, b))
    if con is not None:
        f = And(f, con[k] == VAL(a, b))
    return And(W[CH[0]] == 0, C[CH[0]] == 0 if C is not None else z3.BoolVal(True), forall([k], And(MK(k), Imp(And(0 <= k, k < n), f)), MK(k)))


def found(c, r):
    return r.f['defined'] if c.eng.target is derive else r.f['contextType'] >= 0


def no_conflict(c, r):
    return r.f['conflictPath'].n == 0 if c.eng.target is derive else r.f['conflictType'] == -1


def result_ok(c, mem, r):
    W, C, CH = (mem['ghost.' + x] for x in ('W', 'C', 'CHAIN'))
    red = r.f['reductions']
    ty, con = red.el.f['type'], red.el.f['constructor']
    one = c.eng.target is derive
    root = r.f.get('rootIndex')
    start = c.a(2) if one else contexts(c)[0][root - 1]
    end = If(red.n == 0, start, ty[red.n - 1])
    out = [('each step is a reduction, weights and counts add up', steps(red.n, ty, con, start, W, C if one else None, CH)), ('weight', W[CH[red.n]] == r.f['weightsum'])]
    if one:
        return out + [('ends with the type wanted', end == c.a(1)), ('counted steps', C[CH[red.n]] <= limit(c))]
    it = r.f['items']
    return out + [('starts with a type of the context', And(1 <= root, root <= contexts(c)[1])), ('ends with the context of the items', r.f['contextType'] == end), ('a definition of the name', MATCH(r.f['contextType']) > 0),
                  ('items are its definitions', ITEMS(it.n, it.el, MATCH(r.f['contextType'])))]


def is_P(c, r):
    red = r.f['reductions']
    k = qi('k')
    root = [] if c.eng.target is derive else [contexts(c)[0][r.f['rootIndex'] - 1] == PT[0]]
    return And([red.n == PL, forall([k], Imp(And(0 <= k, k < PL), red.el.f['type'][k] == PT[k + 1]), red.el.f['type'][k])] + root)


EPS = z3.Real('epsilon')


def derive_post(c):
    r = c.retv()
    W, C, CH2 = (c.eng.mem['ghost.' + x] for x in ('W', 'C', 'CHAIN2'))
    cp = r.f['conflictPath']
    valid = And(typedb.valid(c, c.a(2)), typedb.ctx_ok(c, c.a(1)), c.a(5) >= -1)
    return [('arguments valid', valid)] + [(nm, Imp(r.f['defined'], f)) for nm, f in result_ok(c, c.eng.mem, r)] + \
        [('a derivation is found if there is one', Imp(PEX, r.f['defined'])), ('no other path has less weight', Imp(PEX, r.f['weightsum'] <= PW[PL])),
         ('another path of the same weight is reported', Imp(PEX, Or(PW[PL] > r.f['weightsum'] + EPS, is_P(c, r), cp.n > 0))),
         ('only real paths are reported', Imp(cp.n > 0, And(r.f['defined'], steps(cp.n, cp.el, None, c.a(2), W, C, CH2), cp.el[cp.n - 1] == c.a(1), C[CH2[cp.n]] <= limit(c)))),
         ('only paths of the same weight are reported', Imp(cp.n > 0, And(W[CH2[cp.n]] <= r.f['weightsum'] + EPS, W[CH2[cp.n]] >= r.f['weightsum'])))]


def roles(L):
    d = dict(stack=[], queue=[], rt=[], qe=[], rel=[], it=[], flag=[])
    for nm, v, l in L.values():
        if isinstance(v, Rec) and 'm_ar' in v.f:
            d['stack'].append((nm, v, l))
        elif isinstance(v, Vec) and isinstance(v.el, Rec) and v.el.t == 'slot':
            d['queue'].append((nm, v, l))
        elif isinstance(v, Rec) and 'reductions' in v.f:
            d['rt'].append((nm, v, l))
        elif isinstance(v, Rec) and set(v.f) == {'weight', 'index'}:
            d['qe'].append((nm, v, l))
        elif isinstance(v, VIt):
            d['it'].append((nm, v, l))
        elif isz(v) and z3.is_bool(v):
            d['flag'].append((nm, v, l))
    return d


def search_inv(L):
    c, mem = L.eng.ctx, L.mem
    out = []
    if c.eng.target not in SEARCH:
        return out
    one = c.eng.target is derive
    P, W, C, CH = (mem['ghost.' + x] for x in ('PFX', 'W', 'C', 'CHAIN'))
    d = roles(L)
    i, q = qi('i'), qi('q')
    for sn, st, sl in d['stack']:
        n, ty, con, prev, pl = el(st)
        al = lambda f: forall([i], Imp(And(0 <= i, i < n), f), prev[i])
        if one:
            lim = limit(c)
            out += [('start', And(n >= 1, ty[0] == c.a(2), W[0] == 0, C[0] == 0)), ('one start', al((prev[i] < 0) == (i == 0))), ('counts', al(And(pl[i] == C[i], C[i] <= lim))), ('a beginning at the start', Imp(PEX, P[0] == 0))]
            cnt = lambda i: C[i] == C[prev[i]] + counted(ty[prev[i]], ty[i])
        else:
            ar, size = contexts(c)
            last = [v for nm, v, l in L.values() if isz(v) and z3.is_int(v) and L.modified(l)]
            starts = lambda up: al(Imp(prev[i] < 0, And(1 <= con[i], con[i] <= up, ty[i] == ar[con[i] - 1], W[i] == 0)))
            out += [('start', n >= 0), ('starts', starts(size)), ('reached', al(RCH(ty[i], W[i])))] + [('starts up to the context', And(0 <= v, v <= size, starts(v), al(prev[i] < 0))) for v in last]
            out.append(('types', al(ty[i] >= 0)))
            for v in last or [size]:
                out.append(('handles of the context', forall([i], Imp(And(0 <= i, i < v), typedb.ctx_ok(c, ar[i])), ar[i])))
            cnt = lambda i: z3.BoolVal(True)
        out += linked(st) + [('each element is a step', al(Imp(prev[i] >= 0, And(HAS(ty[prev[i]], ty[i]), con[i] == VAL(ty[prev[i]], ty[i]), W[i] == W[prev[i]] + WGT(ty[prev[i]], ty[i]), cnt(i))))),
                             ('beginnings of the path', al(And(P[i] >= -1, Imp(P[i] >= 0, And(PEX, P[i] <= PL, MK(P[i])))))), ('their types', al(Imp(P[i] >= 0, ty[i] == PT[P[i]]))),
                             ('their weights', al(Imp(P[i] >= 0, W[i] == PW[P[i]]))), ('their counts', al(Imp(P[i] >= 0, C[i] == PC[P[i]])) if one else z3.BoolVal(True)),
                             ('their beginnings', al(Imp(P[i] >= 0, If(prev[i] < 0, P[i] == 0, And(P[i] >= 1, P[prev[i]] == P[i] - 1)))))]
        e = el(L.read(sl, L.entry))
        out.append(('kept elements', And(n >= e[0], forall([i], Imp(And(0 <= i, i < e[0]), And(ty[i] == e[1][i], prev[i] == e[3][i], pl[i] == e[4][i])), prev[i]))))
        for qn, pq, _ in d['queue']:
            w, ix, live = pq.el.f['v'].f['weight'], pq.el.f['v'].f['index'], pq.el.f['live']
            aq = lambda f: forall([q], Imp(And(0 <= q, q < pq.n, live[q]), f), ix[q])
            waiting = Exists([q], And(0 <= q, q < pq.n, live[q], P[ix[q]] >= 0))
            out.append(('queued', And(pq.n >= 0, aq(And(0 <= ix[q], ix[q] < n, w[q] == W[ix[q]])))))
            if not one:
                out += [('a start waits', Imp(And(PEX, PR < v), waiting)) for v in last]
            for rn, rt, _ in d['rt']:
                ws = rt.f['weightsum']
                out.append(('no conflict yet', no_conflict(c, rt)))
                for fn, alt, fl in d['flag']:
                    k = qi('k')
                    red = rt.f['reductions']
                    out.append(('flag ' + fn, And(alt == found(c, rt), Imp(Not(alt), red.n == 0))))
                    if not one:
                        out.append(('no items ' + fn, Imp(Not(alt), And(rt.f['items'].n == 0, rt.f['contextType'] == -1))))
                    if one:
                        out.append(('start is first ' + fn, aq(Imp(ix[q] == 0, And(q == 0, n == 1, pq.n == 1, Not(alt))))))
                    out += [('result %s: %s' % (fn, nm), Imp(alt, f)) for nm, f in result_ok(c, mem, rt)]
                    out += [('result elements ' + fn, Imp(alt, And(0 <= CH[red.n], CH[red.n] < n, forall([k], And(MK(k), Imp(And(0 <= k, k < red.n), And(0 <= CH[k], CH[k] < n, 0 <= CH[k + 1], CH[k + 1] < n))), MK(k))))),
                            ('not above the path ' + fn, Imp(And(alt, PEX), ws <= PW[PL])), ('not above the queue ' + fn, Imp(alt, aq(w[q] >= ws)))]
                    if any(L.modified(tl) for _, _, tl in d['it']):
                        if one:
                            out.append(('start is done', aq(ix[q] > 0)))
                    elif one or not last:
                        out.append(('a beginning waits ' + fn, Imp(PEX, Or(waiting, And(alt, is_P(c, rt))))))
                    for en, qe, _ in d['qe']:
                        x = qe.f['index']
                        for tn, it, tl in d['it']:
                            if L.modified(tl):
                                out.append(('a beginning waits or comes %s %s %s' % (fn, en, tn), Imp(PEX, Or(waiting, And(alt, is_P(c, rt)), And(P[x] >= 0, P[x] < PL, it.idx <= IDX(PT[P[x]], PT[P[x] + 1]))))))
            for en, qe, _ in d['qe']:
                x = qe.f['index']
                out += [('taken ' + en, And(0 <= x, x < n, qe.f['weight'] == W[x])), ('weights above ' + en, aq(w[q] >= qe.f['weight']))]
    return out


derive = Contract('TypeDatabase::deriveType', Q + '::deriveType', 7, setup=derive_setup, post=derive_post, templates=[search_inv], argmods=(6,),
                  on_queue=lambda e, v: [('ghost.W', z3.Store(e.mem['ghost.W'], v.f['index'], v.f['weight']))],
                  throws=lambda c: [('refused', Or(And(c.code == errcode(c, 'InvalidHandle'), Not(And(typedb.valid(c, c.a(2)), typedb.ctx_ok(c, c.a(1))))), And(c.code == errcode(c, 'InvalidBoundary'), c.a(5) < -1)))])
STACK = ('elements come', 'start', 'reached', 'types', 'one start', 'counts', 'each element', 'beginnings of', 'their ', 'kept', 'a beginning at', 'taken', 'queued', 'weights above')


def focus(name):
    """claims about the elements of the stack follow from claims about them"""
    if name.startswith(STACK):
        return lambda inv: inv.startswith(STACK) or inv.startswith('start is')
    if name.startswith('result'):
        return lambda inv: not inv.startswith(('beginnings', 'their', 'a beginning'))
    if name.startswith('a beginning waits'):
        return lambda inv: not inv.startswith(('result', 'each element', 'not above', 'weights above', 'their weights'))
    return None


derive.focus = focus
SEARCH = [derive]
derive.invbudget = (500, 0, 0, 700, 15)
derive.budget = (1000, 3000, 8, 700, 19)

# ------------------------------------------------------------------ the search for a definition of a name
MATCH = z3.Function('definition.of.the.name.in', I, I)
ITEMS = z3.Function('definitions.listed', I, AI, I, B)
RCH = z3.Function('reached.with.weight', I, R, B)
LOOKUP = z3.Function('identifier.known', I, AI, I)
PR = z3.Int('ghost.context.of.the.path')
ident_lookup = Contract('IdentMap::lookup', 'mewa::IdentMap::lookup', 1, trusted=True, post=lambda c: [('identifier of the name or none', And(c.ret == LOOKUP(c.a(0).n, c.a(0).el), c.ret >= 0))])
tab_get = Contract('ScopedMap::get', typedb.TAB + '::get', 2, trusted=True,
                   post=lambda c: [('definition of the name in the context at the step', Imp(And(c.a(0) == c.eng.ghosts['step'], c.a(1).f['ident'] == c.eng.ghosts['nameid']), And(c.ret == MATCH(c.a(1).f['contextType']), c.ret >= 0)))])
items = Contract('TypeDatabase::collectResultItems', Q + '::collectResultItems', 2, trusted=True, argmods=(0,),
                 post=lambda c: [('definitions of the list (collectResultItems is proved for C06)', Imp(c.a(0).n == 0, ITEMS(c.an(0).n, c.an(0).el, c.a(1))))])


def contexts(c):
    p = c.a(1)
    v = c.eng.read_in(c.old, Loc(p.loc.root, p.loc.path[:-1]))
    return v.el, c.a(2)


def resolve_setup(e, this, args):
    typedb.setup()(e, this, args)
    ghost_roots(e)
    e.ghosts['step'] = args[0]
    e.ghosts['mask'] = e.read(args[4]).f['m_mask']
    nm = e.read(args[3])
    e.ghosts['nameid'] = LOOKUP(nm.n, nm.el)
    p = args[1]
    r = e.newroot('contexts', e.build(('vec', ('int', 32, True)), 'contexts'), ('vec', ('int', 32, True)))
    e.mem[r] = Vec(args[2], e.mem[r].el)
    args[1] = Ptr(Loc(r, (('i', z3.IntVal(0)),)), p.null)
    ar = e.mem[r].el
    e.pc.append(And(args[2] >= 0, args[2] < MAXINT, Imp(args[2] > 0, Not(p.null))))
    k, j, i = qi('k'), qi('j'), qi('i')
    w = z3.FreshConst(R, 'w')
    e.pc.append(forall([k], MK(k), MK(k)))
    step = And(HAS(PT[j], PT[j + 1]), PW[j + 1] == PW[j] + WGT(PT[j], PT[j + 1]))
    e.pc.append(Imp(PEX, And(PL >= 0, 0 <= PR, PR < args[2], ar[PR] == PT[0], forall([i], Imp(And(0 <= i, i < PR), ar[i] != PT[0]), ar[i]), PW[0] == 0, MATCH(PT[PL]) > 0, forall([j], And(MK(j), Imp(And(0 <= j, j < PL), step)), MK(j)),
                             forall([j], Imp(And(0 <= j, j <= PL), PINV[PT[j]] == j), PT[j]), forall([j], Imp(And(0 <= j, j <= PL), PW[j] <= PW[PL]), MK(j)))))
    # reached: any predicate that holds for the types of the context and is closed under reductions
    e.pc.append(forall([i], Imp(And(0 <= i, i < args[2]), RCH(ar[i], 0)), ar[i]))
    e.pc.append(forall([i, j, w], Imp(And(RCH(i, w), HAS(i, j)), RCH(j, w + WGT(i, j))), RCH(i, w), HAS(i, j)))


def resolve_post(c):
    r = c.retv()
    ar, size = contexts(c)
    i = qi('i')
    ok, known = found(c, r), c.eng.ghosts['nameid'] > 0
    w = z3.FreshConst(R, 'w')
    return [('contexts valid', Imp(known, forall([i], Imp(And(0 <= i, i < size), typedb.ctx_ok(c, ar[i])), ar[i]))), ('nothing for an unknown name', Imp(Not(known), Not(ok))),
            ('nothing', Imp(Not(ok), And(r.f['contextType'] == -1, r.f['conflictType'] == -1, r.f['reductions'].n == 0, r.f['items'].n == 0)))] + [(nm, Imp(ok, f)) for nm, f in result_ok(c, c.eng.mem, r)] + \
        [('a definition is found if one is reached', Imp(And(PEX, known), ok)), ('no other path has less weight', Imp(And(PEX, known), r.f['weightsum'] <= PW[PL])),
         ('another path of the same weight is reported', Imp(And(PEX, known), Or(PW[PL] > r.f['weightsum'] + EPS, is_P(c, r), r.f['conflictType'] >= 0))),
         ('conflict or none', r.f['conflictType'] >= -1),
         ('only types reached with the same weight are reported', Imp(r.f['conflictType'] >= 0, And(ok, MATCH(r.f['conflictType']) > 0, Exists([w], And(RCH(r.f['conflictType'], w), r.f['weightsum'] <= w, w <= r.f['weightsum'] + EPS)))))]


resolve = Contract('TypeDatabase::resolveType_', Q + '::resolveType_', 6, setup=resolve_setup, post=resolve_post, templates=[search_inv], argmods=(5,),
                   on_queue=lambda e, v: [('ghost.W', z3.Store(e.mem['ghost.W'], v.f['index'], v.f['weight']))],
                   throws=lambda c: resolve_throws(c))


def resolve_throws(c):
    ar, size = contexts(c)
    i = qi('i')
    return [('refused', And(c.code == errcode(c, 'InvalidHandle'), Exists([i], And(0 <= i, i < size, Not(typedb.ctx_ok(c, ar[i]))))))]


resolve.invbudget, resolve.budget, resolve.focus = derive.invbudget, derive.budget, focus
SEARCH.append(resolve)


# ------------------------------------------------------------------ the two forms with a list of contexts and one context
def call_noted(c):
    c.eng.ghosts['call'] = (c.args, c.a(2))
    return []


resolve_call = Contract('TypeDatabase::resolveType_', Q + '::resolveType_', 6, trusted=True, post=call_noted)


def passed(how):
    def f(c):
        if 'call' not in c.eng.ghosts:
            return [('the search is called', z3.BoolVal(False))]
        a, n = c.eng.ghosts['call']
        p = a[1]
        rd = lambda x: c.eng.read_in(c.old, x) if isinstance(x, Loc) else x
        return [('step', a[0] == c.a(0)), ('contexts', how(c, p, n)), ('name', veq(rd(a[3]), rd(c.args[2]))), ('tags', rd(a[4]).f['m_mask'] == rd(c.args[3]).f['m_mask'])]
    return f


def whole_list(c, p, n):
    v = c.a(1)
    return And(n == v.n, Imp(v.n > 0, And(z3.BoolVal(p.loc is not None and p.loc.root == c.args[1].root), p.loc.path[-1][1] == 0)))


def one_type(c, p, n):
    return And(n == 1, z3.BoolVal(p.loc is not None), c.eng.read(p.loc) == c.a(1) if p.loc is not None else z3.BoolVal(False))


def second(nm):
    return lambda fn, ps: ('vector' in tyof(ps[1])) == (nm == 'list')


resolve_list = Contract('TypeDatabase::resolveType(list)', Q + '::resolveType', 5, pred=second('list'), setup=typedb.setup(), post=passed(whole_list), throws=lambda c: [], argmods=(4,))
resolve_one = Contract('TypeDatabase::resolveType(one)', Q + '::resolveType', 5, pred=second('one'), setup=typedb.setup(), post=passed(one_type), throws=lambda c: [], argmods=(4,))
ALL = ['pushStart', 'pushIfNew', 'collectResult', 'collectConflict', 'derive']
ALL_RESOLVE = ['pushStart', 'pushIfNew', 'collectRoot', 'resolve_list', 'resolve_one', 'resolve']


def USE(c):
    return [pushStart, pushIfNew, collectResult, collectConflict, collectRoot, rel_get, typedb.tag_matches, ident_lookup, tab_get, items] if c in SEARCH else [resolve_call] if c in (resolve_list, resolve_one) else []
