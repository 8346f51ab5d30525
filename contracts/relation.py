"""Contracts of ScopedRelationMap (src/scope.hpp): lists of relations per scope entry, on top of the contracts of ScopedMap."""
import copy
import z3
from vf.spec import *
from . import scope as S
from .scope import qi, fa, Tree, laminar, links, rep, scope_ok, DRIVER, forall, And, Or, Not, Imp, Exists, MAXI

REL = 'mewa::ScopedRelationMap<int, int>'
AR = z3.ArraySort(z3.IntSort(), z3.IntSort())
HASTAG = z3.Function('tag.in.set', z3.IntSort(), z3.IntSort(), z3.BoolSort())


class List:
    """the list elements; own: ghost array giving the scope entry an element belongs to"""
    def __init__(self, rec, own):
        self.n = rec.n
        el = rec.el.f
        self.related, self.value, self.weight, self.next, self.tag = el['related'], el['value'], el['weight'], el['next'], el['tagval']
        self.own = own

    def dom(self, k):
        return And(0 <= k, k < self.n)


def setup(e, this, args):
    e.ghosts['G'] = z3.Const('ghost.key', AR)
    e.ghosts['own'] = z3.Const('ghost.own', AR)


def parts(c, mem):
    if 'own' not in c.eng.ghosts:
        setup(c.eng, None, None)
    G, own = c.eng.ghosts['G'], c.eng.ghosts['own']
    return Tree(c.eng.read_in(mem, c.loc('m_map', 'm_invtree')), G), List(c.eng.read_in(mem, c.loc('m_list')), own)


def fl(L, body, pat=None, name='k'):
    k = qi(name)
    return forall([k], Imp(L.dom(k), body(k)), (pat if pat is not None else L.next)[k])


def fl2(L, body, pat=None):
    k, j = qi('k'), qi('j')
    return forall([k, j], Imp(And(L.dom(k), L.dom(j)), body(k, j)), L.own[k], L.own[j])


def listinv(T, L):
    """each scope entry has the list of its relations, linked in the order of definition"""
    return [('head', fa(T, lambda i: And(L.dom(T.v[i]), L.own[T.v[i]] == i), T.v)),
            ('owner', fl(L, lambda k: And(0 <= L.own[k], L.own[k] < T.n), L.own)),
            ('head-first', fl(L, lambda k: T.v[L.own[k]] <= k, L.own)),
            ('next', fl(L, lambda k: Or(L.next[k] == -1, And(k < L.next[k], L.next[k] < L.n, L.own[L.next[k]] == L.own[k])))),
            ('next-successor', fl2(L, lambda k, j: Imp(And(L.own[k] == L.own[j], k < j), And(L.next[k] != -1, L.next[k] <= j)))),
            ('relations-distinct', fl2(L, lambda k, j: Imp(And(L.own[k] == L.own[j], k < j), Not(And(L.related[k] == L.related[j], L.tag[k] == L.tag[j]))))),
            ('tags', fl(L, lambda k: And(0 <= L.tag[k], L.tag[k] < 32), L.tag))]


def inv(c, mem, c2=None):
    T, L = parts(c, mem)
    return rep(c.eng.read_in(mem, c.loc('m_map')), c.eng.ghosts['G']) + listinv(T, L) + [('null', T.null == -1)]


def is_at(T, i, a, b, left):
    return And(T.dom(i), T.same(i, a, b), T.key(i, left))


def set_pre(c):
    T, L = parts(c, c.old)
    sc, left = c.a(0), c.a(1)
    a, b = sc.f['m_start'], sc.f['m_end']
    w = qi('w')
    return inv(c, c.old) + [('scope valid', scope_ok(sc)), ('size', And(T.n < MAXI, L.n < MAXI)),
                            ('scope nests with the defined ones', fa(T, lambda i: Imp(T.key(i, left), T.lam(i, a, b)))),
                            ('ghost key of the next entry', c.eng.ghosts['G'][T.n] == left),
                            ('ghost owner of the next element', forall([w], Imp(And(0 <= w, w <= T.n), (L.own[L.n] == w) == Or(is_at(T, w, a, b, left), And(w == T.n, fa(T, lambda i: Not(And(T.same(i, a, b), T.key(i, left))))))), T.s[w]))]


def mapkept(T0, T1):
    return And(T1.n == T0.n, fa(T0, lambda i: And(T1.s[i] == T0.s[i], T1.e[i] == T0.e[i], T1.v[i] == T0.v[i]), T1.s))


def listkept(L0, L1, nxt=True):
    return fl(L0, lambda k: And(L1.related[k] == L0.related[k], L1.value[k] == L0.value[k], L1.weight[k] == L0.weight[k], L1.tag[k] == L0.tag[k], *([L1.next[k] == L0.next[k]] if nxt else [])), L1.related)


def found(c, equal):
    T, L = parts(c, c.old)
    sc, left, right, value, tag = c.a(0), c.a(1), c.a(2), c.a(3), c.a(4)
    k = qi('k')
    return Exists([k], And(L.dom(k), is_at(T, L.own[k], sc.f['m_start'], sc.f['m_end'], left), L.related[k] == right, L.tag[k] == tag - 1,
                           L.value[k] == value if equal else L.value[k] != value))


def unchanged(c):
    T0, L0 = parts(c, c.old)
    T1, L1 = parts(c, c.new)
    return And(mapkept(T0, T1), L1.n == L0.n, listkept(L0, L1))


def set_post(c):
    T0, L0 = parts(c, c.old)
    T1, L1 = parts(c, c.new)
    sc, left, right, value, tag, weight = (c.a(i) for i in range(6))
    a, b = sc.f['m_start'], sc.f['m_end']
    n = L0.n
    added = And(L1.n == n + 1, listkept(L0, L1, False), L1.related[n] == right, L1.value[n] == value, L1.tag[n] == tag - 1, L1.weight[n] == weight,
                is_at(T1, L1.own[n], a, b, left),
                fl(L0, lambda k: Not(And(is_at(T0, L0.own[k], a, b, left), L0.related[k] == right, L0.tag[k] == tag - 1)), L0.own),
                Or(mapkept(T0, T1), And(T1.n == T0.n + 1, fa(T0, lambda i: And(T1.s[i] == T0.s[i], T1.e[i] == T0.e[i], T1.v[i] == T0.v[i]), T1.s), is_at(T1, T0.n, a, b, left))))
    return [('tag and weight in range', And(1 <= tag, tag <= 32, weight >= 0)),
            ('relation added or an equal one is there and nothing changed', Or(And(L1.n == n, found(c, True), unchanged(c)), And(L1.n == n + 1, added)))] + \
           [('inv ' + nm, f) for nm, f in inv(c, c.new)]


def set_throws(c):
    tag, weight = c.a(4), c.a(5)
    return [('refused for tag, weight or another value of the same relation', Or(
                And(c.code == errcode(c, 'BadRelationTag'), Not(And(1 <= tag, tag <= 32))),
                And(c.code == errcode(c, 'BadRelationWeight'), weight < 0),
                And(c.code == errcode(c, 'DuplicateDefinition'), found(c, False)))),
            ('nothing changed', unchanged(c))] + [('inv ' + nm, f) for nm, f in inv(c, c.new)]


class Walk:
    """invariant candidates for the walk along the list of an entry"""
    def __call__(self, L):
        eng, c = L.eng, L.eng.ctx
        T, LL = parts(c, L.mem)
        out = []
        right, tag = c.a(2), c.a(4)
        for nm, v, v0 in S.intvars(L):
            out.append(('range:' + nm, And(-1 <= v, v < LL.n)))
            for nm2, w, w0 in S.intvars(L):
                if nm2 == nm:
                    continue
                out.append(('pred:%s,%s' % (nm, nm2), Or(And(w == -1, v == v0), And(LL.dom(w), LL.next[w] == v, v0 >= 0, LL.own[w] == LL.own[v0]))))
                out.append(('own:%s,%s' % (nm, nm2), Imp(v >= 0, And(v0 >= 0, LL.own[v] == LL.own[v0]))))
                out.append(('none-before:%s,%s' % (nm, nm2), Imp(v0 >= 0, fl(LL, lambda k: Imp(And(LL.own[k] == LL.own[v0], k <= w), Not(And(LL.related[k] == right, LL.tag[k] == tag - 1))), LL.own))))
        return out


def getorset_lemmas(c, cc):
    T0, L = parts(c, c.old)
    T1 = Tree(c.eng.read_in(cc.new, c.loc('m_map', 'm_invtree')), c.eng.ghosts['G'])
    sc, left = c.a(0), c.a(1)
    r, o = cc.ret, L.own[L.n]
    return [('entry of the new element', is_at(T1, o, sc.f['m_start'], sc.f['m_end'], left)),
            ('known scope', Imp(r >= 0, And(0 <= o, o < T0.n, T1.n == T0.n, T1.v[o] == r, T0.v[o] == r, L.own[r] == o))),
            ('new scope', Imp(r < 0, And(r == -1, o == T0.n, T1.n == T0.n + 1, T1.v[T0.n] == L.n))),
            ('heads of the known ones', fa(T0, lambda i: And(T1.v[i] == T0.v[i], T1.v[i] < L.n), T1.v))]


matches = Contract('TagMask::matches', 'mewa::TagMask::matches', 1, pre=lambda c: [('tag value', And(0 <= c.a(0), c.a(0) < 32))],
                   post=lambda c: [('contains the tag', c.ret == HASTAG(c.o('m_mask'), c.a(0)))], trusted=True)
rel_set = Contract('ScopedRelationMap::set', REL + '::set', 6, pre=set_pre, post=set_post, throws=set_throws, setup=setup,
                   modifies=(('m_list',), ('m_map', 'm_map'), ('m_map', 'm_invtree', 'm_ar')), templates=[Walk()], after_call={'ScopedMap::getOrSet': getorset_lemmas}, splits=lambda c: [parts(c, c.old)[0].n, parts(c, c.old)[1].n])

# ------------------------------------------------------------------ get
def vis(T, i, step, key):
    return And(T.dom(i), T.key(i, key), T.atstep(i, step))


class View:
    def __init__(self, c, mem=None):
        self.c = c
        self.T, self.L = parts(c, mem if mem is not None else c.old)
        self.step, self.key, self.mask = c.a(0), c.a(1), c.a(2).f['m_mask']
        self.first = z3.Const('ghost.first', AR)

    def hit(self, k):
        """element k is visible at the step and has a selected tag"""
        L = self.L
        return And(L.dom(k), vis(self.T, L.own[k], self.step, self.key), HASTAG(self.mask, L.tag[k]))

    def before(self, k, j):
        L, T = self.L, self.T
        return Or(And(L.own[k] != L.own[j], T.cont(L.own[j], L.own[k])), And(L.own[k] == L.own[j], k < j))


def get_pre(c):
    V = View(c)
    L, T = V.L, V.T
    r, k = qi('r'), qi('k')
    f = V.first
    return inv(c, c.old) + [('size', L.n < MAXI),
        # definition of the ghost: first[r] is the first visible selected definition of a relation to r, -1 if there is none
        ('ghost first is one', forall([r], Or(f[r] == -1, And(V.hit(f[r]), L.related[f[r]] == r)), f[r])),
        ('ghost first is the first', fl(L, lambda k: Imp(V.hit(k), And(f[L.related[k]] >= 0, Or(f[L.related[k]] == k, V.before(f[L.related[k]], k)))), L.related))]


def res(v):
    el = v.el.f
    return v.n, el['m_right'], el['m_value'], el['m_weight'], el['m_tagval']


def get_post(c):
    V = View(c)
    L, T, f = V.L, V.T, V.first
    n, right, value, weight, tag = res(c.retv())
    i, j, k = qi('i'), qi('j'), qi('k')
    dom = lambda x: And(0 <= x, x < n)
    return [('each result is the first visible selected definition of its relation', forall([i], Imp(dom(i), And(f[right[i]] >= 0, V.hit(f[right[i]]), value[i] == L.value[f[right[i]]], weight[i] == L.weight[f[right[i]]], tag[i] == L.tag[f[right[i]]])), right[i])),
            ('each related item once', forall([i, j], Imp(And(dom(i), dom(j), i < j), right[i] != right[j]), right[i], right[j])),
            ('inner scopes first', forall([i, j], Imp(And(dom(i), dom(j), i < j), V.before(f[right[i]], f[right[j]])), right[i], right[j])),
            ('every visible selected relation is in the result', fl(L, lambda k: Imp(V.hit(k), Exists([i], And(dom(i), right[i] == L.related[k]))), L.related))]


class Collect:
    """invariant candidates of the loops collecting the relations; roles by type: result vector, map of candidates, iterator along the
    chain of scopes and integer walking the list"""
    def __call__(self, L):
        eng, c = L.eng, L.eng.ctx
        V = View(c, L.mem)
        T, LL, f = V.T, V.L, V.first
        vals = list(L.values())
        rs = [(nm, v) for nm, v, l in vals if isinstance(v, Vec) and isinstance(v.el, Rec) and 'm_right' in v.el.f]
        ms = [(nm, v) for nm, v, l in vals if isinstance(v, MapV)]
        its = [(nm, v.f['m_index']) for nm, v, l in vals if isinstance(v, Rec) and 'm_index' in v.f]
        lis = [(nm, v) for nm, v, v0 in S.intvars(L)]
        out = []
        here = lambda x: vis(T, x, V.step, V.key)
        for nm, x in its:
            out.append(('at:' + nm, Or(x == -1, here(x))))
            out.append(('on:' + nm, here(x)))
        for nm, li in lis:
            out.append(('list:' + nm, Or(li == -1, LL.dom(li))))
            for nm2, x in its:
                out.append(('list-of:%s,%s' % (nm, nm2), Imp(li >= 0, LL.own[li] == x)))
        procs = [('outer:' + nm, (lambda x: lambda k: Or(x == -1, And(LL.own[k] != x, T.cont(x, LL.own[k]))))(x)) for nm, x in its]
        procs += [('inner:%s,%s' % (nm, nm2), (lambda x, li: lambda k: Or(And(LL.own[k] != x, T.cont(x, LL.own[k])), And(LL.own[k] == x, Or(li == -1, k < li))))(x, li))
                  for nm, x in its for nm2, li in lis]
        for rn, rv in rs:
            n, right, value, weight, tag = res(rv)
            dom = lambda x: And(0 <= x, x < n)
            i, j, r = qi('i'), qi('j'), qi('r')
            out.append(('result:' + rn, forall([i], Imp(dom(i), And(f[right[i]] >= 0, V.hit(f[right[i]]), LL.related[f[right[i]]] == right[i], value[i] == LL.value[f[right[i]]], weight[i] == LL.weight[f[right[i]]], tag[i] == LL.tag[f[right[i]]])), right[i])))
            out.append(('result-distinct:' + rn, forall([i, j], Imp(And(dom(i), dom(j), i < j), right[i] != right[j]), right[i], right[j])))
            out.append(('result-order:' + rn, forall([i, j], Imp(And(dom(i), dom(j), i < j), V.before(f[right[i]], f[right[j]])), right[i], right[j])))
            for pn, p in procs:
                out.append(('result-in:%s,%s' % (rn, pn), forall([i], Imp(dom(i), p(f[right[i]])), right[i])))
            for mn, m in ms:
                out.append(('cand-res:%s,%s' % (mn, rn), forall([r], Imp(m.p[r], And(0 <= m.v[r], m.v[r] < n, right[m.v[r]] == r)), m.p[r])))
                out.append(('res-cand:%s,%s' % (mn, rn), forall([i], Imp(dom(i), m.p[right[i]]), right[i])))
        for mn, m in ms:
            for pn, p in procs:
                out.append(('cand:%s,%s' % (mn, pn), fl(LL, lambda k: Imp(And(V.hit(k), p(k)), m.p[LL.related[k]]), LL.related)))
        return out


CHAIN = S.Chain(tree=('m_map', 'm_invtree'), steparg=0, keyarg=1)


def tree_walk(L):
    """walk along the chain of scopes before anything is collected"""
    if any(isinstance(v, Vec) and L.modified(l) for nm, v, l in L.values()):
        return []
    return CHAIN(L)


def hooks(eng):
    orig = eng.construct

    def construct(ctor, recname, args, node=None):
        if recname.endswith('monotonic_buffer_resource'):
            eng.trusted.add('a memory resource only determines where containers allocate')
            return Rec(recname, {})
        return orig(ctor, recname, args, node)
    eng.construct = construct


rel_get = Contract('ScopedRelationMap::get', REL + '::get', 4, pre=get_pre, post=get_post, setup=setup, templates=[tree_walk, Collect()])


# the verified contract of getOrSet, used at the call site with a case distinction on its result
getOrSet_use = copy.copy(S.map_getOrSet)
getOrSet_use.case = lambda c: [c.ret >= 0]

rel_ctor = Contract('ScopedRelationMap::ScopedRelationMap', REL + '::ScopedRelationMap', 2, post=lambda c: [('inv ' + nm, f) for nm, f in inv(c, c.new)] + [('empty', And(parts(c, c.new)[0].n == 0, parts(c, c.new)[1].n == 0))],
                    setup=setup)
ALL = ['rel_set', 'rel_get', 'rel_ctor']


def USE(c):
    return [getOrSet_use] if c is rel_set else [matches] if c is rel_get else []
