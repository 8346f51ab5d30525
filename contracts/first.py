"""Nullable nonterminals and FIRST sets (src/automaton.cpp): both are the smallest solutions of their equations over the productions.
NULLABLE and FIRST stand for any solution of the equations (any relation closed under the productions): the sets computed are contained
in each of them and are solutions themselves, hence they are the smallest ones."""
import z3
from vf.spec import *
from vf.values import qforall, VIt, MapV, MIt, Vec, Rec
And, Or, Not, Imp, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.Exists
forall = qforall
DRIVER = '''#include "automaton.cpp"
'''
ASSUMPTIONS = ['the nodes of a production are terminals or nonterminals (type Unresolved is refused by the grammar loader before)']
NUL = z3.Function('nullable', z3.IntSort(), z3.BoolSort())
FIRST = z3.Function('first', z3.IntSort(), z3.IntSort(), z3.BoolSort())
NT, T = 1, 2


def qi(name='i'):
    return z3.FreshConst(z3.IntSort(), name)


class G:
    """the productions, argument i"""
    def __init__(self, c, mem=None, i=0):
        l = c.args[i]
        v = c.eng.read_in(mem if mem is not None else c.old, l)
        self.n = v.n
        f = v.el.f
        self.left = f['left'].f['m_index']
        self.rn = f['right'].n
        self.rt = f['right'].el.f['m_type']
        self.ri = f['right'].el.f['m_index']


def kinds(c):
    e = c.eng.db.enumval if hasattr(c.eng.db, 'enumval') else None
    return e


def nonterm(g, p, q):
    return g.rt[p][q] == NT


def ok(c):
    g = G(c)
    p, q = qi('p'), qi('q')
    return [('node types', forall([p, q], Imp(And(0 <= p, p < g.n, 0 <= q, q < g.rn[p]), Or(g.rt[p][q] == NT, g.rt[p][q] == T)), g.rt[p][q])),
            ('lengths', forall([p], Imp(And(0 <= p, p < g.n), 0 <= g.rn[p]), g.rn[p]))]


def prefix_in(g, p, n, member):
    """the first n nodes of production p are nonterminals with member()"""
    q = qi('q')
    return forall([q], Imp(And(0 <= q, q < n), And(nonterm(g, p, q), member(g.ri[p][q]))), g.ri[p][q])


def closed(g, p, member):
    return Imp(prefix_in(g, p, g.rn[p], member), member(g.left[p]))


def closed_all(g, n, member):
    p = qi('p')
    return forall([p], Imp(And(0 <= p, p < n), closed(g, p, member)), g.left[p])


def null_pre(c):
    g = G(c)
    return ok(c) + [('any solution of the equations', closed_all(g, g.n, lambda x: NUL(x)))]


def null_post(c):
    g = G(c)
    r = c.ret
    x = qi('x')
    return [('contained in every solution', forall([x], Imp(r.p[x], NUL(x)), r.p[x])),
            ('a solution', closed_all(g, g.n, lambda x: r.p[x])),
            ('each nullable has a production that makes it one', supported(g, lambda x: r.p[x]))]


def supported(g, member):
    x, p = qi('x'), qi('p')
    return forall([x], Imp(member(x), Exists([p], And(0 <= p, p < g.n, g.left[p] == x, prefix_in(g, p, g.rn[p], member)))), member(x))


def positions(L, c):
    """iterators over the productions: (name, index); iterators over the nodes of a production: (name, production, index)"""
    base = c.args[0]
    outer, inner = [], []
    for nm, v, l in L.values():
        if isinstance(v, VIt) and v.loc.root == base.root:
            if v.loc.path == base.path:
                outer.append((nm, v.idx))
            elif len(v.loc.path) == len(base.path) + 2:
                inner.append((nm, v.loc.path[-2][1], v.idx))
        elif isz(v) and z3.is_int(v):
            outer.append((nm, v))
    return outer, inner


def null_inv(L):
    c = L.eng.ctx
    g = G(c, L.mem)
    out = []
    vals = L.values()
    sets = [(nm, v) for nm, v, l in vals if isinstance(v, MapV)]
    bools = [(nm, v) for nm, v, l in vals if isz(v) and z3.is_bool(v)]
    outer, inner = positions(L, c)
    for nm, s in sets:
        x = qi('x')
        mem = lambda x, s=s: s.p[x]
        out.append(('sound:' + nm, forall([x], Imp(s.p[x], NUL(x)), s.p[x])))
        out.append(('supported:' + nm, supported(g, mem)))
        for b, bv in bools:
            out.append(('stable:%s,%s' % (nm, b), Imp(Not(bv), closed_all(g, g.n, mem))))
            for i, iv in outer:
                out.append(('stable until:%s,%s,%s' % (nm, b, i), Imp(Not(bv), closed_all(g, iv, mem))))
        for j, pv, jv in inner:
            out.append(('prefix:%s,%s' % (nm, j), prefix_in(g, pv, jv, mem)))
    for i, iv in outer:
        out.append(('range:' + i, And(0 <= iv, iv <= g.n)))
    return out


nullable = Contract('getNullableNonterminalSet', 'getNullableNonterminalSet', 1, pre=null_pre, post=null_post, templates=[null_inv])


# ------------------------------------------------------------------ FIRST sets
def ghosts(e, this, args):
    A = z3.ArraySort(z3.IntSort(), z3.IntSort())
    e.ghosts['np'] = z3.Const('ghost.nullable.prefix', A)
    e.ghosts['sup'] = z3.Const('ghost.production.that.makes.nullable', A)


def nset(c, mem=None):
    return c.eng.read_in(mem if mem is not None else c.old, c.args[1])


def first_closed(g, NP, n, F):
    """the equations of FIRST for the first n productions"""
    p, q, t = qi('p'), qi('q'), qi('t')
    dom = And(0 <= p, p < n, 0 <= q, q <= NP[p], q < g.rn[p])
    return [('terminals', forall([p, q], Imp(And(dom, g.rt[p][q] == T), F(g.left[p], g.ri[p][q])), g.ri[p][q])),
            ('nonterminals', z3.ForAll([p, q, t], Imp(And(dom, g.rt[p][q] == NT, t != 0, F(g.ri[p][q], t)), F(g.left[p], t)), patterns=[z3.MultiPattern(g.ri[p][q], F(g.left[p], t))] if False else []))]


def first_pre(c):
    g = G(c)
    N, NP, SUP = nset(c), c.eng.ghosts['np'], c.eng.ghosts['sup']
    p, q, x = qi('p'), qi('q'), qi('x')
    return ok(c) + [
        ('terminals are not zero', forall([p, q], Imp(And(0 <= p, p < g.n, 0 <= q, q < g.rn[p], g.rt[p][q] == T), g.ri[p][q] != 0), g.ri[p][q])),
        ('definition of the nullable prefix', forall([p], Imp(And(0 <= p, p < g.n), And(0 <= NP[p], NP[p] <= g.rn[p], Imp(NP[p] < g.rn[p], Not(And(nonterm(g, p, NP[p]), N.p[g.ri[p][NP[p]]]))))), NP[p])),
        ('nodes of the nullable prefix', forall([p, q], Imp(And(0 <= p, p < g.n, 0 <= q, q < NP[p]), And(nonterm(g, p, q), N.p[g.ri[p][q]])), g.ri[p][q])),
        ('the nullable set is a solution', forall([p], Imp(And(0 <= p, p < g.n, NP[p] == g.rn[p]), N.p[g.left[p]]), g.left[p])),
        ('each nullable has a production that makes it one', forall([x], Imp(N.p[x], And(0 <= SUP[x], SUP[x] < g.n, g.left[SUP[x]] == x, NP[SUP[x]] == g.rn[SUP[x]])), N.p[x]))] + \
        [('any solution: ' + nm, f) for nm, f in first_closed(g, NP, g.n, lambda n, t: FIRST(n, t))]


def member(m):
    return lambda n, t: And(m.p[n], m.v.p[n][t])


def zeros(g, NP, n, F):
    p = qi('p')
    return forall([p], Imp(And(0 <= p, p < n, NP[p] == g.rn[p]), F(g.left[p], z3.IntVal(0))), g.left[p])


def first_post(c):
    g = G(c)
    r, NP = c.ret, c.eng.ghosts['np']
    F = member(r)
    n, t = qi('n'), qi('t')
    return [('contained in every solution', forall([n, t], Imp(And(F(n, t), t != 0), FIRST(n, t)), r.v.p[n][t]))] + \
        [('a solution: ' + nm, f) for nm, f in first_closed(g, NP, g.n, F)] + [('the end mark for the nullable ones', zeros(g, NP, g.n, F))]


def first_inv(L):
    c = L.eng.ctx
    g = G(c, L.mem)
    N, NP = nset(c), c.eng.ghosts['np']
    out = []
    vals = L.values()
    maps = [(nm, v) for nm, v, l in vals if isinstance(v, MapV) and isinstance(v.v, MapV)]
    sets = [(nm, v) for nm, v, l in vals if isinstance(v, MapV) and not isinstance(v.v, MapV)]
    bools = [(nm, v) for nm, v, l in vals if isz(v) and z3.is_bool(v)]
    outer, inner = positions(L, c)
    for nm, m in maps:
        n, t = qi('n'), qi('t')
        F = member(m)
        out.append(('sound:' + nm, forall([n, t], Imp(And(F(n, t), t != 0), FIRST(n, t)), m.v.p[n][t])))
        for b, bv in bools:
            for i, iv in [('all', g.n)] + outer:
                for k, f in first_closed(g, NP, iv, F) + [('end mark', zeros(g, NP, iv, F))]:
                    out.append(('stable until:%s,%s,%s,%s' % (nm, b, i, k), Imp(Not(bv), f)))
            for j, pv, jv in inner:
                q = qi('q')
                out.append(('nodes until:%s,%s,%s' % (nm, b, j), Imp(Not(bv), forall([q, t], Imp(And(0 <= q, q < jv, t != 0, F(g.ri[pv][q], t)), F(g.left[pv], t)), g.ri[pv][q], m.v.p[g.left[pv]][t]))))
    for nm, s in sets:
        x, p = qi('x'), qi('p')
        out.append(('verify sound:' + nm, forall([x], Imp(s.p[x], N.p[x]), s.p[x])))
        full = lambda n: forall([p], Imp(And(0 <= p, p < n, NP[p] == g.rn[p]), s.p[g.left[p]]), g.left[p])
        for i, iv in outer:
            out.append(('verify until:%s,%s' % (nm, i), full(iv)))
        for b, bv in bools:
            out.append(('verify:%s,%s' % (nm, b), Imp(Not(bv), full(g.n))))
    for j, pv, jv in inner:
        out.append(('prefix:' + j, And(0 <= jv, jv <= NP[pv])))
    for i, iv in outer:
        out.append(('range:' + i, And(0 <= iv, iv <= g.n)))
    return out


first = Contract('getNonTerminalFirstSetMap', 'getNonTerminalFirstSetMap', 2, setup=ghosts, pre=first_pre, post=first_post, templates=[first_inv])


# ------------------------------------------------------------------ FIRST of the rest of a production
from contracts import flatset as fs


class P:
    def __init__(self, c):
        v = c.a(0).f['right']
        self.n, self.rt, self.ri = v.n, v.el.f['m_type'], v.el.f['m_index']
        self.pos = c.a(1)


def lr1_ghosts(e, this, args):
    e.ghosts['end'] = z3.Int('ghost.end.of.nullable.prefix')


def lr1_pre(c):
    g, F, N, END = P(c), c.a(2), c.a(3), c.eng.ghosts['end']
    q = qi('q')
    return [('node types', forall([q], Imp(And(0 <= q, q < g.n), Or(g.rt[q] == NT, g.rt[q] == T)), g.rt[q])),
            ('position in the production', And(0 <= g.pos, g.pos <= g.n)),
            ('each nonterminal has a FIRST set', forall([q], Imp(And(0 <= q, q < g.n, g.rt[q] == NT), F.p[g.ri[q]]), g.ri[q])),
            ('definition of the nullable prefix of the rest', And(g.pos <= END, END <= g.n, Imp(END < g.n, Not(And(g.rt[END] == NT, N.p[g.ri[END]]))))),
            ('nodes of the nullable prefix', forall([q], Imp(And(g.pos <= q, q < END), And(g.rt[q] == NT, N.p[g.ri[q]])), g.ri[q]))]


def inode(g, F, q, t):
    return Or(And(g.rt[q] == T, g.ri[q] == t), And(g.rt[q] == NT, F.v.p[g.ri[q]][t]))


def of_nodes(g, F, V, end):
    # all symbols of FIRST of the nodes before end are in V
    q, t = qi('q'), qi('t')
    return [('terminals', forall([q], Imp(And(g.pos <= q, q < end, q < g.n, g.rt[q] == T), fs.mem(V, g.ri[q])), g.ri[q])),
            ('nonterminals', forall([q, t], Imp(And(g.pos <= q, q < end, q < g.n, g.rt[q] == NT, F.v.p[g.ri[q]][t]), fs.mem(V, t)), F.v.p[g.ri[q]][t]))]


def only_nodes(g, F, V, end):
    i, q = qi('i'), qi('q')
    return forall([i], Imp(fs.dom(V, i), Exists([q], And(g.pos <= q, q <= end, q < g.n, inode(g, F, q, V.el[i])))), V.el[i])


def lr1_post(c):
    g, F, END = P(c), c.a(2), c.eng.ghosts['end']
    r = c.ret
    V = flat(r.f['first'])
    return [('the rest is nullable if and only if all its nodes are', r.f['second'] == (END == g.n)), ('sorted without duplicates', fs.sorted_(V)),
            ('nothing but FIRST of the rest', only_nodes(g, F, V, END))] + [('contains FIRST of the rest: ' + nm, f) for nm, f in of_nodes(g, F, V, END + 1)]


def flat(v):
    while isinstance(v, Rec):
        v = list(v.f.values())[0]
    return v


def lr1_inv(L):
    c = L.eng.ctx
    g, F, END = P(c), c.a(2), c.eng.ghosts['end']
    out = []
    vals = L.values(outer=True)
    ints = [(nm, v) for nm, v, l in vals if isz(v) and z3.is_int(v)]
    its = [(nm, v) for nm, v, l in vals if isinstance(v, MIt)]
    vecs = [('rt', flat(v.f['first'])) for nm, v, l in vals if isinstance(v, Rec) and 'first' in v.f and 'second' in v.f and isinstance(flat(v.f['first']), Vec)]
    for nm, i in ints:
        out.append(('range:' + nm, And(g.pos <= i, i <= END)))
    for vn, V in vecs:
        out.append(('sorted:' + vn, fs.sorted_(V)))
        out.append(('size:' + vn, V.n >= 0))
        for nm, i in ints:
            out.append(('only before:%s' % nm, only_nodes(g, F, V, i - 1)))
            out.append(('only until:%s' % nm, only_nodes(g, F, V, i)))
            for k, f in of_nodes(g, F, V, i):
                out.append(('contains:%s,%s,%s' % (vn, nm, k), f))
        for n2, it in its:
            k = qi('k')
            try:
                S = L.read(it.loc)
            except Exception:
                continue
            if not isinstance(S, MapV) or isinstance(S.v, MapV):
                continue
            out.append(('elements before:%s,%s' % (vn, n2), forall([k], Imp(And(S.p[k], Or(it.end, k < it.key)), fs.mem(V, k)), S.p[k])))
    return out


lr1 = Contract('getLr1FirstSet', 'getLr1FirstSet', 4, setup=lr1_ghosts, pre=lr1_pre, post=lr1_post, templates=[lr1_inv])


def USE(c):
    return [fs.insertInOrder, fs.reserveSize] if c is lr1 else []


ALL = ['nullable', 'first', 'lr1']
