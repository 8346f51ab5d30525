"""Resolution of conflicts in the action table (src/automaton.cpp): insertAction, getReductionDef, getReduceFollow, isAcceptState.
The fields of a packed item are the abstract functions PI, PP, PF (TransitionItem::unpack is the inverse of packed(), proved in contracts/packing.py)."""
import z3
from vf.spec import *
from vf.values import qforall, VIt, MapV, Vec, Rec
from contracts import flatset as fs
And, Or, Not, Imp, Exists, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.Exists, z3.If
forall = qforall
DRIVER = '''#include "automaton.cpp"
'''
ASSUMPTIONS = ['texts of messages are not verified', 'TransitionItem::unpack is a function of the packed item (its fields: C12)']
I = z3.IntSort()
PI, PP, PF = [z3.Function('item.' + n, I, I) for n in ('prodindex', 'prodpos', 'follow')]
SHIFT, UNDEF, LEFT, RIGHT = 0, 0, 1, 2


def qi(name='i'):
    return z3.FreshConst(I, name)


def at(a, q):
    for x in q:
        a = a[x]
    return a


# ------------------------------------------------------------------ trusted helpers
def tname(nm, n):
    return Contract(nm, nm, n, trusted=True)


unpack = Contract('TransitionItem::unpack', 'mewa::TransitionItem::unpack', 1, trusted=True,
                  post=lambda c: [('fields of the item', And(c.ret.f['prodindex'] == PI(c.a(0)), c.ret.f['prodpos'] == PP(c.a(0)), c.ret.f['follow'] == PF(c.a(0))))])
stateString = Contract('getStateTransitionString', 'getStateTransitionString', 5, trusted=True)
prodString = Contract('ProductionDef::tostring', 'mewa::ProductionDef::tostring', 0, trusted=True)
prioString = Contract('Priority::tostring', 'mewa::Priority::tostring', 0, trusted=True)
followString = Contract('FollowMap::follow2String', 'FollowMap::follow2String', 2, trusted=True)
solved = Contract('SolvedConflictMap::insert', 'SolvedConflictMap::insert', 1, trusted=True, modifies=('*',))


# ------------------------------------------------------------------ insertAction
def acts(m, q):
    return [at(a, q) for n, a in sorted(m.v.f.items())]


def act(v):
    return [v.f[n] for n in sorted(v.f)]


def prio(m, q):
    return at(m.v.f['value'], q), at(m.v.f['assoziativity'], q)


def eqs(a, b):
    return And([x == y for x, y in zip(a, b)])


def ins_args(c):
    k = c.a(7)
    q = (k.f['m_state'], k.f['m_terminal'])
    return c.a(0), c.a(2), q, c.a(8), c.a(9), c.a(10)


def ins_pre(c):
    P, A, q, a, p, w = ins_args(c)
    s, t = qi('s'), qi('t')
    return [('each action entered has its priority, the accept action none', forall([s, t], Imp(P.p[s][t], A.p[s][t]), P.p[s][t])),
            ('associativity', And(UNDEF <= p.f['assoziativity'], p.f['assoziativity'] <= RIGHT)),
            ('shift or reduction', And(0 <= a.f['m_type'], a.f['m_type'] <= 1))]


def ins_post(c):
    P, A, q, a, p, w = ins_args(c)
    P1, A1, w1 = c.an(0), c.an(2), c.an(10)
    known = And(at(A.p, q), at(P.p, q))
    old, new = acts(A, q), act(a)
    pv, pa = p.f['value'], p.f['assoziativity']
    ov, oa = prio(P, q)
    isshift = a.f['m_type'] == SHIFT
    kind = isshift == (at(A.v.f['m_type'], q) == SHIFT)
    pdef, odef = Or(pv != 0, pa != UNDEF), Or(ov != 0, oa != UNDEF)
    open_ = Or(pdef != odef, And(pv == ov, Or(pa != oa, pa == UNDEF)))     # nothing decides between shift and reduction
    wins = And(Not(open_), Or(pv > ov, And(pv == ov, pa == If(isshift, z3.IntVal(RIGHT), z3.IntVal(LEFT)))))
    newp = And(eqs(prio(P1, q), (pv, pa)))
    s, t = qi('s'), qi('t')
    warn = w1.n - w.n
    conflict = And(known, Not(kind))
    i = qi()
    other = Or(s != q[0], t != q[1])
    return [('the key has an action and a priority', And(at(A1.p, q), at(P1.p, q))),
            ('the first action is entered', Imp(Not(at(A.p, q)), And(eqs(acts(A1, q), new), newp, warn == 0))),
            ('an action without priority stays and takes the priority', Imp(And(at(A.p, q), Not(at(P.p, q))), And(eqs(acts(A1, q), old), newp, warn == 0))),
            ('two shifts or two reductions: the first one stays', Imp(And(known, kind), And(eqs(acts(A1, q), old), eqs(prio(P1, q), (ov, oa)), warn == If(eqs(old, new), 0, 1)))),
            ('shift and reduction not decided by priorities: the first one stays with a warning', Imp(And(conflict, open_), And(eqs(acts(A1, q), old), eqs(prio(P1, q), (ov, oa)), warn == 1))),
            ('the stronger one is taken without a warning', Imp(And(conflict, wins), And(eqs(acts(A1, q), new), newp, warn == 0))),
            ('the weaker one is dropped without a warning', Imp(And(conflict, Not(open_), Not(wins)), And(eqs(acts(A1, q), old), eqs(prio(P1, q), (ov, oa)), warn == 0))),
            ('warnings given before are kept', forall([i], Imp(And(0 <= i, i < w.n), w1.el.f['m_code'][i] == w.el.f['m_code'][i]), w1.el.f['m_code'][i])),
            ('other keys unchanged', forall([s, t], Imp(other, And(A1.p[s][t] == A.p[s][t], P1.p[s][t] == P.p[s][t], eqs(acts(A1, (s, t)), acts(A, (s, t))), eqs(prio(P1, (s, t)), prio(P, (s, t))))), A1.p[s][t])),
            ('kind of the warning', Imp(warn == 1, w1.el.f['m_code'][w.n] == If(Not(kind), errc(c, 'ShiftReduceConflictInGrammarDef'), If(isshift, errc(c, 'ShiftShiftConflictInGrammarDef'), errc(c, 'ReduceReduceConflictInGrammarDef')))))]


def errc(c, nm):
    from contracts.typedb import errcode
    return errcode(c, nm)


insert = Contract('insertAction', 'insertAction', 12, pre=ins_pre, post=ins_post, argmods=(0, 1, 2, 10))


# ------------------------------------------------------------------ the items of a state
class S:
    def __init__(self, c, plist):
        v = c.a(0)
        while isinstance(v, Rec):
            v = list(v.f.values())[0]
        self.n, self.el = v.n, v.el
        p = c.a(plist)
        self.pn, f = p.n, p.el.f
        self.left, self.rn, self.call = f['left'].f['m_index'], f['right'].n, f['callidx']
        self.pv, self.pa = f['priority'].f['value'], f['priority'].f['assoziativity']
        self.scope = f['scope']

    def complete(self, i):
        return PP(self.el[i]) == self.rn[PI(self.el[i])]

    def to(self, i, follow):
        return And(self.complete(i), PF(self.el[i]) == follow)


def items_pre(plist):
    def f(c):
        s = S(c, plist)
        i, p = qi(), qi('p')
        return [('the items are positions of productions', forall([i], Imp(And(0 <= i, i < s.n), And(0 <= PI(s.el[i]), PI(s.el[i]) < s.pn)), s.el[i])),
                ('length of the productions', forall([p], Imp(And(0 <= p, p < s.pn), And(0 <= s.rn[p], s.rn[p] < 1 << 31)), s.rn[p]))]
    return f


def walk(L):
    """index reached in the items of the state (argument 0)"""
    root = L.eng.ctx.args[0].root
    return [(nm, v.idx) for nm, v, l in L.values() if isinstance(v, VIt) and v.loc.root == root]


def flat(v):
    while isinstance(v, Rec):
        v = list(v.f.values())[0]
    return v


def follows(s, V, n):
    i, m = qi(), qi('m')
    return [('contains', forall([i], Imp(And(0 <= i, i < n, s.complete(i)), fs.mem(V, PF(s.el[i]))), s.el[i])),
            ('only', forall([m], Imp(fs.dom(V, m), Exists([i], And(0 <= i, i < n, s.to(i, V.el[m])))), V.el[m]))]


def follow_inv(L):
    s = S(L.eng.ctx, 1)
    out = []
    for nm, i in walk(L):
        out.append(('range:' + nm, And(0 <= i, i <= s.n)))
        for n2, v, l in L.values():
            V = flat(v)
            if isinstance(V, Vec) and n2 != nm and not isinstance(V.el, Rec) and L.modified(l):
                out.append(('sorted:' + n2, fs.sorted_(V)))
                for k, f in follows(s, V, i):
                    out.append(('%s:%s,%s' % (k, n2, nm), f))
    return out


def follow_post(c):
    s, V = S(c, 1), flat(c.ret)
    return [('sorted without duplicates', fs.sorted_(V))] + [(k + ' the lookahead sets of the complete items', f) for k, f in follows(s, V, s.n)]


reduFollow = Contract('getReduceFollow', 'getReduceFollow', 2, pre=items_pre(1), post=follow_post, templates=[follow_inv])


def accept_inv(L):
    s = S(L.eng.ctx, 1)
    out = []
    i = qi()
    for nm, iv in walk(L):
        out += [('range:' + nm, And(0 <= iv, iv <= s.n)), ('none before:' + nm, forall([i], Imp(And(0 <= i, i < iv), Not(accept_item(s, i))), s.el[i]))]
    return out


def accept_item(s, i):
    return And(PI(s.el[i]) == 0, PP(s.el[i]) == s.rn[0], PF(s.el[i]) == 0)


def accept_post(c):
    s = S(c, 1)
    i = qi()
    return [('exactly with the complete start production and the end of the input as lookahead', c.ret == Exists([i], And(0 <= i, i < s.n, accept_item(s, i))))]


isAccept = Contract('isAcceptState', 'isAcceptState', 2, pre=lambda c: items_pre(1)(c) + [('a start production', S(c, 1).pn > 0)], post=accept_post, templates=[accept_inv])


def same_redu(s, i, j):
    p, q = PI(s.el[i]), PI(s.el[j])
    return And(s.left[p] == s.left[q], s.rn[p] == s.rn[q], s.call[p] == s.call[q])


def same_prio(s, i, j):
    p, q = PI(s.el[i]), PI(s.el[j])
    return And(s.pv[p] == s.pv[q], s.pa[p] == s.pa[q])


def is_redu(s, r, i):
    p = PI(s.el[i])
    f = r.f
    return And(f['head'] == s.left[p], f['count'] == s.rn[p], f['callidx'] == s.call[p], f['prodindex'] == p, f['scope'] == s.scope[p],
               f['priority'].f['value'] == s.pv[p], f['priority'].f['assoziativity'] == s.pa[p])


def first_at(s, fo, r, n):
    """r is the reduction of the first complete item with this lookahead among the first n"""
    i, j = qi(), qi('j')
    return Exists([i], And(0 <= i, i < n, s.to(i, fo), is_redu(s, r, i), forall([j], Imp(And(0 <= j, j < i), Not(s.to(j, fo))), s.el[j])))


def differs(s, fo, r, j):
    p = PI(s.el[j])
    return And(s.to(j, fo), Or(r.f['head'] != s.left[p], r.f['count'] != s.rn[p], r.f['callidx'] != s.call[p], r.f['priority'].f['value'] != s.pv[p], r.f['priority'].f['assoziativity'] != s.pa[p]))


def none(s, fo, n):
    j = qi('j')
    return forall([j], Imp(And(0 <= j, j < n), Not(s.to(j, fo))), s.el[j])


def redudef_post(c):
    s, fo, r = S(c, 2), c.a(1), c.ret
    w, w1 = c.a(5), c.an(5)
    j = qi('j')
    some = Not(none(s, fo, s.n))
    return [('the reduction of the first complete item with this lookahead', Imp(some, first_at(s, fo, r, s.n))),
            ('no reduction', Imp(Not(some), And(r.f['head'] == -1, r.f['count'] == -1, w1.n == w.n))),
            ('a warning if and only if another complete item demands something else', Imp(some, (w1.n > w.n) == Exists([j], And(0 <= j, j < s.n, differs(s, fo, r, j))))),
            ('no warning removed', w1.n >= w.n)]


def redudef_inv(L):
    c = L.eng.ctx
    s, fo, w = S(c, 2), c.a(1), c.a(5)
    w1 = L.read(c.args[5])
    out = [('warnings', w1.n >= w.n)]
    vals = L.values()
    recs = [(nm, v) for nm, v, l in vals if isinstance(v, Rec) and 'prodindex' in v.f and 'head' in v.f]
    ints = [(nm, v) for nm, v, l in vals if isz(v) and z3.is_int(v) and L.modified(l)]
    j = qi('j')
    for nm, iv in walk(L):
        out.append(('range:' + nm, And(0 <= iv, iv <= s.n)))
        for rn, r in recs:
            unset = And(r.f['head'] == -1, r.f['count'] == -1)
            for kn, k in ints:
                out.append(('first:%s,%s,%s' % (nm, rn, kn), Imp(k != -1, And(first_at(s, fo, r, iv), k == r.f['prodindex']))))
                out.append(('none yet:%s,%s,%s' % (nm, rn, kn), Imp(k == -1, And(none(s, fo, iv), unset, w1.n == w.n))))
                out.append(('index:' + kn, And(k >= -1, k < s.pn)))
                out.append(('warned:%s,%s,%s' % (nm, rn, kn), Imp(And(k != -1, w1.n > w.n), Exists([j], And(0 <= j, j < iv, differs(s, fo, r, j))))))
                out.append(('not warned:%s,%s,%s' % (nm, rn, kn), Imp(And(k != -1, w1.n == w.n), forall([j], Imp(And(0 <= j, j < iv), Not(differs(s, fo, r, j))), s.el[j]))))
    return out


reduDef = Contract('getReductionDef', 'getReductionDef', 6, pre=items_pre(2), post=redudef_post, templates=[redudef_inv], argmods=(5,))

ALL = ['insert', 'reduFollow', 'isAccept', 'reduDef']


def USE(c):
    return ([stateString, solved] if c is insert else [stateString, solved, unpack, prodString, prioString, followString, fs.insertInOrder, fs.reserveSize])
