"""Contracts of the scoped containers (src/scope.hpp)."""
import z3
from vf.spec import *

MAXI = (1 << 31) - 1
And, Or, Not, Imp, ForAll, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll, z3.Exists
forall = qforall

DRIVER = '''#include "scope.hpp"
template class mewa::ScopedInstance<int>;
template class mewa::ScopedMap<int,int>;
template class mewa::ScopedRelationMap<int,int>;
'''


def qi(name='i'):
    return z3.FreshInt(name)


class Tree:
    """the arrays behind a ScopedUpValueInvTree value; G: ghost array giving the key an entry belongs to (None: one key only)"""
    def __init__(self, rec, G=None):
        ar = rec.f['m_ar']
        el = ar.el
        self.n = ar.n
        self.s = el.f['scope'].f['m_start']
        self.e = el.f['scope'].f['m_end']
        self.v = el.f['value']
        self.p = el.f['prev']
        self.null = rec.f['m_nullval']
        self.G = G

    def g(self, i, j):
        return self.G[i] == self.G[j] if self.G is not None else z3.BoolVal(True)

    def key(self, i, k):
        return self.G[i] == k if self.G is not None else z3.BoolVal(True)

    def dom(self, i):
        return And(0 <= i, i < self.n)

    def cont(self, j, i):
        """entry j's scope contains entry i's scope"""
        return And(self.s[j] <= self.s[i], self.e[i] <= self.e[j])

    def conts(self, j, a, b):
        return And(self.s[j] <= a, b <= self.e[j])

    def ins(self, i, a, b):
        return And(a <= self.s[i], self.e[i] <= b)

    def same(self, i, a, b):
        return And(self.s[i] == a, self.e[i] == b)

    def atstep(self, i, t):
        return And(self.s[i] <= t, t < self.e[i])

    def lam(self, i, a, b):
        return Or(self.e[i] <= a, b <= self.s[i], self.conts(i, a, b), self.ins(i, a, b))


def fa(T, body, pat=None, name='i'):
    i = qi(name)
    return forall([i], Imp(T.dom(i), body(i)), (pat if pat is not None else T.s)[i])


def fa2(T, body, pat=None):
    i, j = qi('i'), qi('j')
    return forall([i, j], Imp(And(T.dom(i), T.dom(j)), body(i, j)), (pat if pat is not None else T.s)[i], T.s[j])


def laminar(T):
    g = T.g
    return [('scopes-nonempty', fa(T, lambda i: And(0 <= T.s[i], T.s[i] < T.e[i]))),
            ('scopes-laminar', fa2(T, lambda i, j: Imp(g(i, j), Or(T.e[i] <= T.s[j], T.e[j] <= T.s[i], T.cont(i, j), T.cont(j, i))))),
            ('scopes-distinct', fa2(T, lambda i, j: Imp(And(g(i, j), i != j), Or(T.s[i] != T.s[j], T.e[i] != T.e[j]))))]


def links(T):
    """prev of an entry is the index of the smallest scope of the same key strictly containing it, -1 if there is none"""
    g = T.g
    return [('prev-range', fa(T, lambda i: And(-1 <= T.p[i], T.p[i] < T.n), T.p)),
            ('prev-contains', fa(T, lambda i: Imp(T.p[i] >= 0, And(T.p[i] != i, T.cont(T.p[i], i), g(T.p[i], i))), T.p)),
            ('prev-smallest', fa2(T, lambda i, j: Imp(And(i != j, g(i, j), T.cont(j, i)), And(T.p[i] >= 0, T.cont(j, T.p[i]))), T.p))]


def idx(M, T, i):
    """map slot of entry i: (present, index)"""
    ks = ([T.G[i]] if T.G is not None else []) + [T.e[i]]
    return ks


def msel(a, ks):
    for k in ks:
        a = a[k]
    return a


def rep(o, G=None):
    """representation invariant of ScopedInstance / ScopedMap"""
    T, M = Tree(o.f['m_invtree'], G), o.f['m_map']
    if G is None:
        k = qi('k')
        ks = [k]
        i, k2 = qi('i'), qi('k')
        ks2 = [k2]
        own = And(T.e[i] == k2)
        at = lambda j: T.e[j] == k
    else:
        kk, k = qi('key'), qi('k')
        ks = [kk, k]
        i, kk2, k2 = qi('i'), qi('key'), qi('k')
        ks2 = [kk2, k2]
        own = And(G[i] == kk2, T.e[i] == k2)
        at = lambda j: And(T.e[j] == k, G[j] == kk)
    mv, mv2 = msel(M.v, ks), msel(M.v, ks2)
    return laminar(T) + links(T) + [
        ('map-index', forall(ks, Imp(msel(M.p, ks), And(0 <= mv, mv < T.n, at(mv))), mv)),
        ('map-has', fa(T, lambda i: msel(M.p, idx(M, T, i)))),
        ('map-innermost', forall([i] + ks2, Imp(And(T.dom(i), own), T.s[i] <= T.s[mv2]), T.e[i], mv2))]


def innermost(T, t, ret, g=None):
    g = g or (lambda i: z3.BoolVal(True))
    i = qi('w')
    hit = Exists([i], And(T.dom(i), g(i), T.atstep(i, t), T.v[i] == ret, fa(T, lambda j: Imp(And(g(j), T.atstep(j, t)), T.cont(j, i)))))
    miss = And(ret == T.null, fa(T, lambda j: Not(And(g(j), T.atstep(j, t)))))
    return Or(hit, miss)


def exact(T, a, b, ret, g=None):
    g = g or (lambda i: z3.BoolVal(True))
    i = qi('w')
    hit = Exists([i], And(T.dom(i), g(i), T.same(i, a, b), T.v[i] == ret))
    miss = And(ret == T.null, fa(T, lambda j: Not(And(g(j), T.same(j, a, b)))))
    return Or(hit, miss)


def scope_ok(sc):
    a, b = sc.f['m_start'], sc.f['m_end']
    return And(0 <= a, a < b, b <= MAXI)


def ghost(eng):
    return eng.ghosts.get('G')


def intvars(L):
    """modified local integer variables (name, value, value at loop entry)"""
    out = []
    for name, v, l in L.values():
        if isz(v) and v.sort() == z3.IntSort() and L.modified(l):
            try:
                out.append((name, v, L.eng.read_in(L.entry, l)))
            except Exception:
                pass
    return out


class Chain:
    """invariant candidates for walks along the containment chain and for the relinking loop; used for the methods of the
    tree itself and for the containers that own one (tree: path from the object to the tree)"""
    def __init__(self, tree=(), scopearg=None, steparg=None, keyarg=None, mapfield=None):
        self.tree, self.scopearg, self.steparg, self.keyarg, self.mapfield = tree, scopearg, steparg, keyarg, mapfield

    def __call__(self, L):
        eng, c = L.eng, L.eng.ctx
        G = ghost(eng)
        tl = c.this
        for p in self.tree:
            tl = tl.f(p)
        T, T0 = Tree(eng.read_in(L.mem, tl), G), Tree(eng.read_in(c.old, tl), G)
        key = c.a(self.keyarg) if self.keyarg is not None else None
        g = (lambda i: T.key(i, key)) if key is not None and G is not None else (lambda i: z3.BoolVal(True))
        if key is None and G is not None and 'gkey' in eng.ghosts:
            g = lambda i: T.key(i, eng.ghosts['gkey'])
        out = []
        ivs = intvars(L)
        for nm, v, v0 in ivs:
            out.append(('range:' + nm, And(-1 <= v, v < T.n)))
            if G is not None:
                out.append(('group:' + nm, Imp(v >= 0, g(v))))
            if self.steparg is not None:
                t = c.a(self.steparg)
                out.append(('covers-step:' + nm, fa(T, lambda j: Imp(And(g(j), T.atstep(j, t)), And(v >= 0, T.cont(j, v))))))
                out.append(('above-step:' + nm, Imp(v >= 0, T.e[v] > t)))
        if self.scopearg is None:
            return out
        sc = c.a(self.scopearg)
        a, b = sc.f['m_start'], sc.f['m_end']
        for nm, v, v0 in ivs:
            out.append(('covers-exact:' + nm, fa(T, lambda j: Imp(And(g(j), T.same(j, a, b)), And(v >= 0, T.cont(j, v))))))
            out.append(('end-ge:' + nm, Imp(v >= 0, T.e[v] >= b)))
            out.append(('covers-right:' + nm, fa(T, lambda j: Imp(And(g(j), T.conts(j, a, b), T.e[j] > b), And(v >= 0, T.cont(j, v))))))
            out.append(('chain-covers:' + nm, fa(T, lambda j: Imp(And(g(j), v0 >= 0, T.cont(j, v0), T.conts(j, a, b)), And(v >= 0, T.cont(j, v))))))
            out.append(('on-chain:' + nm, Imp(v >= 0, And(v0 >= 0, T.cont(v, v0)))))
            for nm2, w, w0 in ivs:
                if nm2 == nm:
                    continue
                out.append(('pred:%s,%s' % (nm, nm2), Or(w == -1, And(v0 >= 0, T.dom(w), g(w), T.ins(w, a, b), Not(T.same(w, a, b)), T.p[w] == v, T.cont(w, v0)))))
                out.append(('start:%s,%s' % (nm, nm2), Imp(w == -1, v == v0)))
                out.append(('chain:%s,%s' % (nm, nm2), fa(T0, lambda j: Imp(And(v0 >= 0, g(j), T.cont(j, v0)), Or(And(w >= 0, T.cont(w, j)), And(v >= 0, T.cont(j, v)))), T.s, 'j')))
                out.append(('chain-in:%s,%s' % (nm, nm2), fa(T0, lambda j: Imp(And(v0 >= 0, g(j), T.cont(j, v0), T.ins(j, a, b), Not(T.same(j, a, b))), Or(And(w >= 0, T.cont(w, j)), And(v >= 0, T.cont(j, v)))), T.s, 'j')))
        its = [(name, v) for name, v, l in L.values() if isinstance(v, MIt) and L.modified(l)]
        # relinking loop: iterator over the map of scope ends
        pmod = any(any(x == ('f', 'prev') for x in p) for _, p in L.mods)
        if pmod and its:
            n0 = T0.n
            def K(i):
                return And(0 <= i, i < n0, g(i), T0.ins(i, a, b), Or(T0.p[i] < 0, Not(T0.ins(T0.p[i], a, b))))
            i = qi('i')
            out.append(('relink-others', forall([i], Imp(And(0 <= i, i < n0, Not(K(i))), T.p[i] == T0.p[i]), T.p[i])))
            i = qi('i')
            out.append(('relink-either', forall([i], Imp(K(i), Or(T.p[i] == T0.p[i], T.p[i] == n0)), T.p[i])))
            i = qi('i')
            out.append(('relink-same-end', forall([i], Imp(And(K(i), T0.e[i] == b), T.p[i] == n0), T.p[i])))
            pe = Tree(eng.read_in(L.entry, tl), G).p
            out.append(('relink-new', T.p[n0] == pe[n0]))
            for nm, it in its:
                kk = it.key if isz(it.key) else it.key.f['m_end']
                i = qi('i')
                out.append(('relink-done:' + nm, forall([i], Imp(And(K(i), T0.e[i] < kk), T.p[i] == n0), T.p[i])))
        for nm, it in its:
            kk = it.key if isz(it.key) else it.key.f['m_end']
            out.append(('it-range:' + nm, And(Not(it.end), a < kk, kk <= b)))
            if not isz(it.key) and key is not None:
                out.append(('it-key:' + nm, it.key.f['m_key'] == key))
        return out


# ------------------------------------------------------------------ ScopedUpValueInvTree
TREE = 'mewa::ScopedUpValueInvTree<int>'


def tree_setup(e, this, args):
    e.ghosts['G'] = z3.Const('ghost.key', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    # key of the chain the walk starts on
    v = args[0]
    v = e.read(v) if isinstance(v, Loc) else v
    e.ghosts['gkey'] = e.ghosts['G'][v]


def tt(c, mem):
    return Tree(c.eng.read_in(mem, c.this), ghost(c.eng))


def onchain(T, j, index):
    return And(index >= 0, T.g(j, index), T.cont(j, index))


def up_pre(c):
    T = tt(c, c.old)
    return laminar(T) + links(T) + [('index', And(-1 <= c.a(0), c.a(0) < T.n)), ('scope', scope_ok(c.a(1)))]


def up_post(c):
    T, x, r = tt(c, c.old), c.a(0), c.ret
    a, b = c.a(1).f['m_start'], c.a(1).f['m_end']
    return [('range', And(-1 <= r, r < T.n)), ('container on the chain', Imp(r >= 0, And(onchain(T, r, x), T.conts(r, a, b)))),
            ('smallest container', fa(T, lambda j: Imp(And(onchain(T, j, x), T.conts(j, a, b)), And(r >= 0, T.cont(j, r)))))]


tree_up = Contract('ScopedUpValueInvTree::rightNeighborUpLink', TREE + '::rightNeighborUpLink', 2, pre=up_pre, post=up_post,
                   templates=[Chain(scopearg=1)], setup=tree_setup)


def left_pre(c):
    T, x, new = tt(c, c.old), c.a(0), c.a(2)
    a, b = c.a(1).f['m_start'], c.a(1).f['m_end']
    l = dict(links(T))
    return [('prev-range', l['prev-range']), ('prev-contains', l['prev-contains']), dict_item(laminar(T), 'scopes-distinct'), dict_item(laminar(T), 'scopes-nonempty'),
            ('prev-smallest inside', fa2(T, lambda i, j: Imp(And(i != j, T.g(i, j), T.cont(j, i), T.ins(j, a, b), Not(T.same(j, a, b))), And(T.p[i] >= 0, T.cont(j, T.p[i]))), T.p)),
            ('index', And(-1 <= x, x < T.n, 0 <= new, new < T.n)), ('scope', scope_ok(c.a(1)))]


def dict_item(l, k):
    return [x for x in l if x[0] == k][0]


def left_post(c):
    T0, T1, x, new = tt(c, c.old), tt(c, c.new), c.a(0), c.a(2)
    a, b = c.a(1).f['m_start'], c.a(1).f['m_end']
    def ch(i):
        return And(onchain(T0, i, x), T0.ins(i, a, b), Not(T0.same(i, a, b)), Or(T0.p[i] < 0, Not(T0.ins(T0.p[i], a, b))))
    return [('outermost scope inside is linked', fa(T0, lambda i: Imp(ch(i), T1.p[i] == new), T1.p)),
            ('other links kept', fa(T0, lambda i: Imp(Not(ch(i)), T1.p[i] == T0.p[i]), T1.p))]


tree_left = Contract('ScopedUpValueInvTree::linkLeftNeighbours', TREE + '::linkLeftNeighbours', 3, pre=left_pre, post=left_post,
                     modifies=(('m_ar', '[]', 'prev'),), templates=[Chain(scopearg=1)], setup=tree_setup)


def ins_pre(c):
    T = tt(c, c.old)
    a, b = c.a(1).f['m_start'], c.a(1).f['m_end']
    return laminar(T) + links(T) + [('index', And(0 <= c.a(0), c.a(0) < T.n)), ('scope', scope_ok(c.a(1))), ('size', T.n < MAXI),
                                    ('chain ends', T.e[c.a(0)] == b),
                                    ('uplink', And(-1 <= c.a(3), c.a(3) < T.n)),
                                    ('scope nests', fa(T, lambda i: Imp(onchain(T, i, c.a(0)), T.lam(i, a, b))))]


def ins_post(c):
    T0, T1, x, val, upl = tt(c, c.old), tt(c, c.new), c.a(0), c.a(2), c.a(3)
    a, b = c.a(1).f['m_start'], c.a(1).f['m_end']
    x1, r = c.an(0), c.ret
    op = c.args[4]
    if isinstance(op, Ptr) and op.loc is not None:
        isnull = op.null if isz(op.null) else z3.BoolVal(bool(op.null))
        o0, o1 = c.eng.read_in(c.old, op.loc), c.eng.read_in(c.new, op.loc)
    else:
        isnull, o0, o1 = z3.BoolVal(True), z3.IntVal(0), z3.IntVal(0)
    w = qi('w')
    n0 = T0.n
    known = [('known scope: value returned or replaced', Exists([w], And(T0.dom(w), onchain(T0, w, x), T0.same(w, a, b),
                                Or(And(Not(isnull), o1 == T0.v[w]), And(isnull, T1.v[w] == val))))),
             ('known scope: other values kept', fa(T0, lambda i: Or(And(onchain(T0, i, x), T0.same(i, a, b), isnull), T1.v[i] == T0.v[i]), T1.v)),
             ('known scope: index kept', x1 == x)]
    up = T1.p[n0]
    cover = lambda j: And(onchain(T0, j, x), T0.conts(j, a, b))
    kin = lambda i: And(onchain(T0, i, x), T0.ins(i, a, b))
    top = lambda i: And(kin(i), Or(T0.p[i] < 0, Not(T0.ins(T0.p[i], a, b))))
    new = [('new scope: entry not known', fa(T0, lambda i: Not(And(onchain(T0, i, x), T0.same(i, a, b))))),
           ('new scope: uplink range', And(-1 <= up, up < n0)),
           ('new scope: uplink contains', Or(up == upl, And(up >= 0, cover(up)))),
           ('new scope: uplink smallest', fa(T0, lambda j: Imp(cover(j), And(up >= 0, cover(up), T0.cont(j, up))))),
           ('new scope: old value untouched', Imp(Not(isnull), o1 == o0)),
           ('new scope: outermost inside linked', fa(T0, lambda i: Imp(top(i), T1.p[i] == n0), T1.p)),
           ('new scope: other links kept', fa(T0, lambda i: Imp(Not(top(i)), T1.p[i] == T0.p[i]), T1.p)),
           ('new scope: index is the innermost', Or(And(x1 == n0, Not(T0.ins(x, a, b))), And(x1 == x, T0.ins(x, a, b))))]
    return [('result', Or(r == -1, r == n0))] + [(nm, Imp(r == -1, f)) for nm, f in known] + [(nm, Imp(r != -1, f)) for nm, f in new]


def ins_effects(c):
    """array updates that are stated as terms: size, scopes, and the values (new entry) or links (known entry)"""
    T0, r = tt(c, c.old), c.ret
    a, b = c.a(1).f['m_start'], c.a(1).f['m_end']
    M = ('m_ar', '[]')
    n0 = T0.n
    new = r >= 0
    eff = [(('m_ar', '#'), n0 + 1, n0), (M + ('scope', 'm_start'), sto1(T0.s, n0, a), T0.s), (M + ('scope', 'm_end'), sto1(T0.e, n0, b), T0.e),
           (M + ('value',), sto1(T0.v, n0, c.a(2)), None), (M + ('prev',), None, T0.p)]
    out = []
    for p, x, y in eff:
        # under a decided result only one of the two remains
        k = True if c.eng.known(new) else False if c.eng.known(Not(new)) else None
        if k is None:
            if x is not None and y is not None:
                out.append((p, z3.If(new, x, y)))
        elif (x if k else y) is not None:
            out.append((p, x if k else y))
    return out


def sto1(a, i, v):
    return z3.Store(a, i, v)


def known_same(T, x, a, b):
    w = qi('w')
    return Exists([w], And(T.dom(w), onchain(T, w, x), T.same(w, a, b)))


tree_ins = Contract('ScopedUpValueInvTree::insertUpValue', TREE + '::insertUpValue', 5, pre=ins_pre, post=ins_post,
                    modifies=(('m_ar',),), argmods=(0, 4), templates=[Chain(scopearg=1)], setup=tree_setup,
                    effects=ins_effects, case=lambda c: [c.ret >= 0])


# ------------------------------------------------------------------ ScopedInstance
INST = 'mewa::ScopedInstance<int>'


def treeof(c, mem):
    return Tree(c.eng.read_in(mem, c.loc('m_invtree')), ghost(c.eng))


def rep_o(c):
    return rep(c.o(), ghost(c.eng))


def rep_n(c):
    return [('inv ' + n, f) for n, f in rep(c.n(), ghost(c.eng))]


def set_pre(c, si=0):
    sc = c.a(si)
    T = treeof(c, c.old)
    G = ghost(c.eng)
    g = (lambda i: T.key(i, c.a(1))) if G is not None else (lambda i: z3.BoolVal(True))
    return rep_o(c) + [('scope valid', scope_ok(sc)), ('size', T.n < MAXI),
                       ('scope nests with the defined ones', fa(T, lambda i: Imp(g(i), T.lam(i, sc.f['m_start'], sc.f['m_end']))))] + \
        ([('ghost key of the next entry', G[T.n] == c.a(1))] if G is not None else [])


def set_post(c):
    sc, val = c.a(0), c.a(1)
    a, b = sc.f['m_start'], sc.f['m_end']
    T0, T1 = treeof(c, c.old), treeof(c, c.new)
    upd = And(T1.n == T0.n, fa(T0, lambda i: And(T1.s[i] == T0.s[i], T1.e[i] == T0.e[i], T1.v[i] == z3.If(T0.same(i, a, b), val, T0.v[i])), T1.s),
              Not(fa(T0, lambda i: Not(T0.same(i, a, b)))))
    return [('definition set or replaced, all others kept', Or(upd, inserted(T0, T1, a, b, val))), ('default value kept', T1.null == T0.null)] + rep_n(c)


def inserted(T0, T1, a, b, val, g=None):
    g = g or (lambda i: z3.BoolVal(True))
    return And(T1.n == T0.n + 1, fa(T0, lambda i: And(T1.s[i] == T0.s[i], T1.e[i] == T0.e[i], T1.v[i] == T0.v[i], Not(And(g(i), T0.same(i, a, b)))), T1.s),
               T1.same(T0.n, a, b), T1.v[T0.n] == val)


def kept(T0, T1):
    return And(T1.n == T0.n, fa(T0, lambda i: And(T1.s[i] == T0.s[i], T1.e[i] == T0.e[i], T1.v[i] == T0.v[i]), T1.s))


def left_lemmas(tree, si, ki=None):
    def f(c, cc):
        """c: the caller, cc: the call of linkLeftNeighbours"""
        eng, G = c.eng, ghost(c.eng)
        tl = c.this
        for p in tree:
            tl = tl.f(p)
        T0, T1 = Tree(eng.read_in(c.old, tl), G), Tree(eng.read_in(cc.new, tl), G)
        sc = c.a(si)
        a, b = sc.f['m_start'], sc.f['m_end']
        x = cc.a(0)
        g = (lambda i: T0.key(i, c.a(ki))) if G is not None and ki is not None else (lambda i: z3.BoolVal(True))
        n0 = T0.n
        K = lambda i: And(0 <= i, i < n0, g(i), T0.ins(i, a, b), Or(T0.p[i] < 0, Not(T0.ins(T0.p[i], a, b))))
        i, j = qi('i'), qi('i')
        return [('innermost of its end', And(0 <= x, x < n0, forall([i], Imp(And(0 <= i, i < n0, g(i), T0.e[i] == T0.e[x]), T0.s[i] <= T0.s[x]), T0.s[i]))),
                ('scopes with this end linked', forall([j], Imp(And(K(j), T0.e[j] == T0.e[x]), T1.p[j] == n0), T1.p[j]))]
    return f


inst_get = Contract('ScopedInstance::get', INST + '::get', 1, pre=rep_o,
                    post=lambda c: [('innermost scope containing the step wins', innermost(treeof(c, c.old), c.a(0), c.ret))],
                    templates=[Chain(tree=('m_invtree',), steparg=0)])
inst_getThis = Contract('ScopedInstance::getThis', INST + '::getThis', 1, pre=lambda c: rep_o(c) + [('scope', scope_ok(c.a(0)))],
                        post=lambda c: [('exact scope lookup', exact(treeof(c, c.old), c.a(0).f['m_start'], c.a(0).f['m_end'], c.ret))],
                        templates=[Chain(tree=('m_invtree',), scopearg=0)])
inst_set = Contract('ScopedInstance::set', INST + '::set', 2, pre=set_pre, post=set_post, splits=lambda c: [treeof(c, c.old).n], after_call={'ScopedUpValueInvTree::linkLeftNeighbours': left_lemmas(('m_invtree',), 0)}, modifies=(('m_map',), ('m_invtree', 'm_ar')),
                    templates=[Chain(tree=('m_invtree',), scopearg=0)])
inst_ctor = Contract('ScopedInstance::ScopedInstance', INST + '::ScopedInstance', 3,
                     post=lambda c: [('empty', Tree(c.n().f['m_invtree']).n == 0), ('null', Tree(c.n().f['m_invtree']).null == c.a(1))] + rep(c.n()))

# ------------------------------------------------------------------ ScopedMap
MAP = 'mewa::ScopedMap<int, int>'


def map_setup(e, this, args):
    e.ghosts['G'] = z3.Const('ghost.key', z3.ArraySort(z3.IntSort(), z3.IntSort()))


def gk(c, i):
    T = treeof(c, c.old)
    return lambda j: T.key(j, c.a(i))


def mset_post(c, keep_ret):
    sc, key, val = c.a(0), c.a(1), c.a(2)
    a, b = sc.f['m_start'], sc.f['m_end']
    T0, T1 = treeof(c, c.old), treeof(c, c.new)
    g = lambda i: T0.key(i, key)
    w = qi('w')
    exists = Exists([w], And(T0.dom(w), g(w), T0.same(w, a, b), keep_ret(T0, w)))
    return exists, kept(T0, T1), inserted(T0, T1, a, b, val, g), T1.null == T0.null


def map_set_post(c):
    ex, kp, ins, nul = mset_post(c, lambda T, w: z3.BoolVal(True))
    return [('new definition stored, existing one reported and kept', Or(And(Not(c.ret), ex, kp), And(c.ret, ins))), ('default value kept', nul)] + rep_n(c)


def map_getorset_post(c):
    ex, kp, ins, nul = mset_post(c, lambda T, w: T.v[w] == c.ret)
    return [('existing value returned or new definition stored', Or(And(ex, kp), And(c.ret == treeof(c, c.old).null, ins))), ('default value kept', nul)] + rep_n(c)


MT = dict(tree=('m_invtree',), keyarg=1)
map_set = Contract('ScopedMap::set', MAP + '::set', 3, pre=set_pre, splits=lambda c: [treeof(c, c.old).n], after_call={'ScopedUpValueInvTree::linkLeftNeighbours': left_lemmas(('m_invtree',), 0, 1)}, post=map_set_post, modifies=(('m_map',), ('m_invtree', 'm_ar')),
                   templates=[Chain(scopearg=0, **MT)], setup=map_setup)
map_getOrSet = Contract('ScopedMap::getOrSet', MAP + '::getOrSet', 3, pre=set_pre, splits=lambda c: [treeof(c, c.old).n], after_call={'ScopedUpValueInvTree::linkLeftNeighbours': left_lemmas(('m_invtree',), 0, 1)}, post=map_getorset_post, modifies=(('m_map',), ('m_invtree', 'm_ar')),
                        templates=[Chain(scopearg=0, **MT)], setup=map_setup)
map_get = Contract('ScopedMap::get', MAP + '::get', 2, pre=rep_o, setup=map_setup,
                   post=lambda c: [('innermost scope of the key containing the step wins', innermost(treeof(c, c.old), c.a(0), c.ret, gk(c, 1)))],
                   templates=[Chain(steparg=0, **MT)])
map_getDef = Contract('ScopedMap::getDef', MAP + '::getDef', 2, pre=lambda c: rep_o(c) + [('scope', scope_ok(c.a(0)))], setup=map_setup,
                      post=lambda c: [('exact scope lookup', exact(treeof(c, c.old), c.a(0).f['m_start'], c.a(0).f['m_end'], c.ret, gk(c, 1)))],
                      templates=[Chain(scopearg=0, **MT)])


HELPERS = [tree_up, tree_left, tree_ins]


def USE(c):
    return HELPERS if c in (inst_set, map_set, map_getOrSet) else []
