"""Contracts of the type definitions of TypeDatabase (src/typedb.cpp).  The type table (a ScopedMap keyed by context and name, proved
for C02) is seen as a map from scope, context and name to a handle, the identifier map (C05) as a pair of functions."""
import z3
from vf.spec import *
from vf.values import qforall
And, Or, Not, Imp, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.Exists
forall = qforall
MAXI = (1 << 31) - 1
MAXP = 1 << 15
DRIVER = '''#include "typedb.cpp"
namespace vfl { struct Key { int start; int end; int contextType; int ident; }; typedef std::map<Key,int> Table; Table table; }
'''
Q = 'mewa::TypeDatabase'
TAB = 'mewa::ScopedMap<mewa::TypeDatabase::TypeDef, int>'
RELTAB = 'mewa::ScopedRelationMap<int, int>'
ABSTRACT = {TAB: [('tab', 'std::map<vfl::Key, int>', {})], 'mewa::IdentMap': [], 'mewa::ScopedInstance<int>': [], RELTAB: [('defs', 'int', {}), ('start', 'int', {}), ('end', 'int', {}), ('left', 'int', {}), ('right', 'int', {}), ('value', 'int', {}), ('tag', 'int', {}), ('weight', 'float', {})],
            Q + '::Memory': [], Q + '::MemoryBlock': []}
CH = z3.ArraySort(z3.IntSort(), z3.IntSort())
IDENT = z3.Function('identifier.of', z3.IntSort(), CH, z3.IntSort())
NAMELEN = z3.Function('name.length', z3.IntSort(), z3.IntSort())
NAMECH = z3.Function('name.chars', z3.IntSort(), CH)
ASSUMPTIONS = ['the type table behaves like the scoped map proved for int keys (C02), with scope, context type and name as key',
               'the identifier map yields one identifier per string and the string of an identifier (C05)',
               'scopes nest with the scopes defined before (the callers\' obligation)']


def qi(name='i'):
    return z3.FreshConst(z3.IntSort(), name)


def hooks(eng):
    db = eng.db
    if not hasattr(db, 'vf_fields'):
        db.vf_fields = db.fields
        db.fields = lambda name: ABSTRACT[name] if name in ABSTRACT else db.vf_fields(name)
    eng.types.memo['mewa::IdentMap'] = ('rec', 'mewa::IdentMap')
    eng.types.memo['IdentMap'] = ('rec', 'mewa::IdentMap')

    orig = eng.construct

    def construct(ctor, recname, args, node=None):
        if recname.endswith('monotonic_buffer_resource'):
            eng.trusted.add('a memory resource only determines where containers allocate')
            return Rec(recname, {})
        return orig(ctor, recname, args, node)
    eng.construct = construct


class View:
    """the state of the type definitions; lim: number of records that are considered (the last one may not be linked yet)"""
    def __init__(self, c, mem, lim=None):
        e = c.eng
        r = e.read_in(mem, c.loc('m_typerecMap'))
        p = e.read_in(mem, c.loc('m_parameterMap'))
        t = e.read_in(mem, c.loc('m_typeTable'))
        f = r.el.f
        self.n, self.pn = (r.n if lim is None else lim), p.n
        self.size = r.n
        self.s, self.e = f['scope'].f['m_start'], f['scope'].f['m_end']
        self.constructor, self.plen, self.par, self.next = f['constructor'], f['parameterlen'], f['parameter'], f['next']
        self.ctx, self.ident = f['inv'].f['contextType'], f['inv'].f['ident']
        self.ptype, self.pcon = p.el.f['type'], p.el.f['constructor']
        self.tab = t.f['*'].f['tab']
        self.acc, self.sig = e.ghosts['acc'], e.ghosts['sig']

    def dom(self, k):
        return And(0 <= k, k < self.n)

    def same(self, k, j):
        return And(self.s[k] == self.s[j], self.e[k] == self.e[j], self.ctx[k] == self.ctx[j], self.ident[k] == self.ident[j])

    def key(self, k, q):
        return And(self.s[k] == q[0], self.e[k] == q[1], self.ctx[k] == q[2], self.ident[k] == q[3])

    def keyof(self, k):
        return (self.s[k], self.e[k], self.ctx[k], self.ident[k])

    def has(self, q):
        return at(self.tab.p, q)

    def val(self, q):
        return at(self.tab.v, q)

    def all(self, body, pat=None):
        k = qi('k')
        return forall([k], Imp(self.dom(k), body(k)), (pat if pat is not None else self.next)[k])

    def all2(self, body):
        k, j = qi('k'), qi('j')
        return forall([k, j], Imp(And(self.dom(k), self.dom(j), self.acc[k], self.acc[j], self.same(k, j), k < j), body(k, j)), self.acc[k], self.acc[j])


def at(a, q):
    for x in q:
        a = a[x]
    return a


def sto4(a, q, v):
    return z3.Store(a, q[0], v if len(q) == 1 else sto4(a[q[0]], q[1:], v))


def inv(V):
    q = [qi(x) for x in ('s', 'e', 'c', 'i')]
    return [('parameter slices', V.all(lambda k: And(0 <= V.plen[k], V.plen[k] < MAXP, Imp(V.plen[k] == 0, V.par[k] == 0), Imp(V.plen[k] > 0, And(V.par[k] >= 1, V.par[k] + V.plen[k] - 1 <= V.pn))), V.par)),
            ('contexts', V.all(lambda k: And(0 <= V.ctx[k], V.ctx[k] <= k), V.ctx)),
            ('next', V.all(lambda k: Or(V.next[k] == 0, And(k + 1 < V.next[k], V.next[k] <= V.n, V.same(k, V.next[k] - 1), V.acc[k], V.acc[V.next[k] - 1])))),
            ('next-successor', V.all2(lambda k, j: And(V.next[k] != 0, V.next[k] <= j + 1))),
            ('definitions distinct', V.all2(lambda k, j: V.sig[k] != V.sig[j])),
            ('table', forall(q, Imp(V.has(q), And(1 <= V.val(q), V.val(q) <= V.n, V.acc[V.val(q) - 1])), V.val(q))),
            ('first of a list', V.all(lambda k: Imp(V.acc[k], And(V.has(V.keyof(k)), V.val(V.keyof(k)) <= k + 1, V.same(V.val(V.keyof(k)) - 1, k))), V.acc))]


def plist(c, i):
    """(size, types, constructors) of the parameter list given as argument i"""
    v = c.a(i)
    arr = c.eng.read_in(c.old, Loc(v.f['ar'].loc.root, v.f['ar'].loc.path[:-1]))
    el = arr.el
    return (v.f['arsize'], el.f['type'], el.f['constructor']) if isinstance(el, Rec) else (v.f['arsize'], el, None)


def sigdef(c, V, pl):
    """definition of the ghost signature: a record has the signature of the argument if and only if its parameters are the same"""
    n, ty, _ = pl
    k, p = qi('k'), qi('p')
    g = c.eng.ghosts['argsig']
    return forall([k], Imp(V.dom(k), (V.sig[k] == g) == And(V.plen[k] == n, forall([p], Imp(And(0 <= p, p < n), V.ptype[V.par[k] + p - 1] == ty[p]), ty[p]))), V.sig[k])


def setup(*plargs, find=False):
    def f(e, this, args):
        e.ghosts['acc'] = z3.Const('ghost.accepted', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
        e.ghosts['sig'] = z3.Const('ghost.signature', CH)
        e.ghosts['argsig'] = z3.Const('ghost.signature.of.argument', z3.IntSort())
        e.ghosts['lim'] = e.read(this.f('m_typerecMap')).n if not find else z3.Const('ghost.records.considered', z3.IntSort())
        for i in plargs:
            # the elements are an array of this size
            l = args[i]
            v = e.read(l)
            p = v.f['ar']
            et = e.mem[p.loc.root]
            t = ('rec', Q + '::TypeConstructorPair') if isinstance(et, Rec) else ('int', 32, True)
            r = e.newroot('parameters', e.build(('vec', t), 'parameters'), ('vec', t))
            e.mem[r] = Vec(v.f['arsize'], e.mem[r].el)
            e.mem[l.root] = Rec(v.t, {**v.f, 'ar': Ptr(Loc(r, (('i', z3.IntVal(0)),)), p.null)})
            e.pc.append(z3.And(v.f['arsize'] >= 0, v.f['arsize'] < (1 << 31), z3.Implies(v.f['arsize'] > 0, z3.Not(p.null))))
            e.zterm.append((r, ()))
    return f


def old(c):
    return View(c, c.old)


def new(c):
    return View(c, c.new)


def valid(c, t):
    return And(1 <= t, t <= old(c).n)


def bad_handle(c, t):
    return [('refused for a handle that denotes no type', And(c.code == errcode(c, 'InvalidHandle'), Or(t < 0, t > old(c).n)))]


def accessor(name, post, zero):
    return Contract('TypeDatabase::' + name, Q + '::' + name, 1, setup=setup(), pre=lambda c: inv(old(c)),
                    post=lambda c: [('handle valid', And(0 <= c.a(0), c.a(0) <= old(c).n)), ('no type', Imp(c.a(0) == 0, zero(c, c.retv()))),
                                    ('as defined', Imp(c.a(0) > 0, post(c, old(c), c.a(0) - 1, c.retv())))],
                    throws=lambda c: bad_handle(c, c.a(0)))


typeContext = accessor('typeContext', lambda c, V, k, r: r == V.ctx[k], lambda c, r: r == 0)
typeConstructor = accessor('typeConstructor', lambda c, V, k, r: r == V.constructor[k], lambda c, r: r == 0)
typeScope = accessor('typeScope', lambda c, V, k, r: And(r.f['m_start'] == V.s[k], r.f['m_end'] == V.e[k]), lambda c, r: True)
typeName = accessor('typeName', lambda c, V, k, r: And(r.n == NAMELEN(V.ident[k]), r.el == NAMECH(V.ident[k])), lambda c, r: r.n == 0)


def slice_post(c, V, k, r):
    l = r.f['ar'].loc
    p = qi('p')
    if l is None:
        return And(r.f['arsize'] == 0, V.plen[k] == 0)
    return And(r.f['arsize'] == V.plen[k], Imp(V.plen[k] > 0, l.path[-1][1] == V.par[k] - 1), z3.BoolVal(sameplace(c, l)))


def sameplace(c, l):
    return l.root == c.this.root and l.path[:-1] == c.loc('m_parameterMap').path


typeParameters = accessor('typeParameters', slice_post, lambda c, r: r.f['arsize'] == 0)

# ------------------------------------------------------------------ dependencies
ident_get = Contract('IdentMap::get', 'mewa::IdentMap::get', 1, post=lambda c: [('identifier of the name', c.ret == IDENT(c.a(0).n, c.a(0).el)), ('positive', c.ret > 0)], trusted=True)
ident_inv = Contract('IdentMap::inv', 'mewa::IdentMap::inv', 1, post=lambda c: [('name of the identifier', And(c.ret.n == NAMELEN(c.a(0)), c.ret.el == NAMECH(c.a(0))))], trusted=True)


def tkey(c):
    sc, k = c.a(0), c.a(1)
    return (sc.f['m_start'], sc.f['m_end'], k.f['contextType'], k.f['ident'])


def tab_effect(valarg):
    def f(c):
        m = c.o('tab')
        q = tkey(c)
        p, v = at(m.p, q), at(m.v, q)
        return [(('tab',), MapV(sto4(m.p, q, z3.BoolVal(True)), sto4(m.v, q, z3.If(p, v, c.a(valarg))), m.kt, m.ordered, m.cmp))]
    return f


tab_getOrSet = Contract('ScopedMap::getOrSet', TAB + '::getOrSet', 3, modifies=('tab',), effects=tab_effect(2), trusted=True, case=lambda c: [at(c.o('tab').p, tkey(c))],
                        post=lambda c: [('existing value or none', c.ret == z3.If(at(c.o('tab').p, tkey(c)), at(c.o('tab').v, tkey(c)), 0))])
tab_set = Contract('ScopedMap::set', TAB + '::set', 3, modifies=('tab',), effects=tab_effect(2), trusted=True,
                   post=lambda c: [('true if it was not there', c.ret == Not(at(c.o('tab').p, tkey(c))))])
tab_getDef = Contract('ScopedMap::getDef', TAB + '::getDef', 2, trusted=True,
                      post=lambda c: [('value or none', c.ret == z3.If(at(c.o('tab').p, tkey(c)), at(c.o('tab').v, tkey(c)), 0))])


# ------------------------------------------------------------------ search in the list of overloads
def isT(i, nm):
    return lambda fn, ps: nm in tyof(ps[i]) + ' '


def slice_ok(c):
    V = old(c)
    p2, l2 = c.a(1), c.a(2)
    return [('slice', And(0 <= l2, l2 < MAXP, Imp(l2 > 0, And(p2 >= 1, p2 + l2 - 1 <= V.pn))))]


def cmp_post(c):
    V = old(c)
    n, ty, _ = plist(c, 0)
    p = qi('p')
    return [('true if and only if the parameters are equal', c.ret == And(n == c.a(2), forall([p], Imp(And(0 <= p, p < n), V.ptype[c.a(1) + p - 1] == ty[p]), ty[p])))]


def equal_so_far(L):
    c = L.eng.ctx
    if len(c.args) < 3:
        return []
    n, ty, _ = plist(c, 0)
    V = View(c, L.mem)
    out = []
    for nm, v, l in L.values():
        if isz(v) and z3.is_int(v):
            p = qi('p')
            out.append(('equal:' + nm, forall([p], Imp(And(0 <= p, p < v), V.ptype[c.a(1) + p - 1] == ty[p]), ty[p])))
            out.append(('range:' + nm, And(0 <= v, Or(v <= n, v == 0))))
    return out


def cmpc(which):
    return Contract('TypeDatabase::compareParameterSignature(%s)' % which, Q + '::compareParameterSignature', 3, pred=isT(0, '::' + which + ' '), pre=slice_ok, post=cmp_post, setup=setup(0), templates=[equal_so_far])


cmp_pairs = cmpc('TypeConstructorPairList')
cmp_types = cmpc('TypeList')


def limited(c, mem):
    return View(c, mem, c.eng.ghosts['lim'])


def find_pre(c):
    V = limited(c, c.old)
    t = c.a(0)
    return [('records considered', And(0 <= V.n, V.n <= V.size))] + inv(V) + [('definition of the signature', sigdef(c, V, plist(c, 1))), ('start of the search', Or(t == 0, And(1 <= t, t <= V.n, V.acc[t - 1])))]


def find_post(c, last=None):
    V = limited(c, c.old)
    t, r, g = c.a(0), c.ret, c.eng.ghosts['argsig']
    k = qi('k')
    out = [('found: a definition of the list with the signature', Imp(r != 0, And(t >= 1, t <= r, r <= V.n, V.acc[r - 1], V.same(r - 1, t - 1), V.sig[r - 1] == g))),
           ('not found: none of the list has it', Imp(And(r == 0, t > 0), V.all(lambda k: Imp(And(V.acc[k], V.same(k, t - 1), k + 1 >= t), V.sig[k] != g), V.sig)))]
    if last is not None:
        l = c.an(last)
        out.append(('last of the list', Imp(And(r == 0, t > 0), And(t <= l, l <= V.n, V.acc[l - 1], V.same(l - 1, t - 1), V.next[l - 1] == 0))))
    return out


def walk(L):
    """walk along the list of overloads"""
    c = L.eng.ctx
    V = limited(c, L.mem)
    g = c.eng.ghosts['argsig']
    t = c.a(0)
    out = []
    iv = [(nm, v) for nm, v, l in L.values() if isz(v) and z3.is_int(v)]
    if not isz(t):
        return []
    for nm, v in iv:
        if v is t or v.eq(t):
            continue
        out.append(('on:' + nm, Or(v == 0, And(t >= 1, t <= v, v <= V.n, V.acc[v - 1], V.same(v - 1, t - 1)))))
        out.append(('none before:' + nm, Imp(t > 0, V.all(lambda k: Imp(And(V.acc[k], V.same(k, t - 1), k + 1 >= t, Or(v == 0, k + 1 < v)), V.sig[k] != g), V.sig))))
        for nm2, w in iv:
            if nm2 != nm and not w.eq(t):
                out.append(('link:%s,%s' % (nm, nm2), Imp(t > 0, Or(And(w == 0, v == t), And(1 <= w, t <= w, w <= V.n, V.acc[w - 1], V.same(w - 1, t - 1), V.next[w - 1] == v)))))
        out.append(('none:' + nm, Imp(t == 0, v == 0)))
    return out


find3 = Contract('TypeDatabase::findTypeWithSignature(pairs)', Q + '::findTypeWithSignature', 3, pre=find_pre, post=lambda c: find_post(c, 2), setup=setup(1, find=True), argmods=(2,), templates=[walk])
find2 = Contract('TypeDatabase::findTypeWithSignature(types)', Q + '::findTypeWithSignature', 2, pre=find_pre, post=find_post, setup=setup(1, find=True), templates=[walk])


# ------------------------------------------------------------------ lookup
def akey(c):
    """key made of the arguments scope, context, name"""
    sc, nm = c.a(0), c.a(2)
    return (sc.f['m_start'], sc.f['m_end'], c.a(1), IDENT(nm.n, nm.el))


def ctx_ok(c, x):
    return And(0 <= x, x <= old(c).n)


def get_post(c):
    V = old(c)
    q = akey(c)
    r, g = c.ret, c.eng.ghosts['argsig']
    h = V.val(q)
    return [('context valid', ctx_ok(c, c.a(1))), ('nothing there', Imp(Not(V.has(q)), r == 0)),
            ('found: the definition with the parameters', Imp(And(V.has(q), r != 0), And(1 <= r, r <= V.n, V.acc[r - 1], V.same(r - 1, h - 1), V.sig[r - 1] == g))),
            ('not found: no definition with the parameters', Imp(r == 0, V.all(lambda k: Imp(And(V.acc[k], V.key(k, q)), V.sig[k] != g), V.sig))),
            ('not found: a synonym of something else', Imp(And(r == 0, V.has(q)), V.sig[h - 1] != g))]


getType = Contract('TypeDatabase::getType', Q + '::getType', 4, setup=setup(3), pre=lambda c: inv(old(c)) + [('definition of the signature', sigdef(c, old(c), plist(c, 3)))],
                   post=get_post, throws=lambda c: bad_handle(c, c.a(1)))


# ------------------------------------------------------------------ definition
def willaccept(c, V, q):
    k = qi('k')
    g = c.eng.ghosts['argsig']
    h = V.val(q)
    return Or(Not(V.has(q)), And(V.key(h - 1, q), V.all(lambda k: Imp(And(V.acc[k], V.key(k, q)), V.sig[k] != g), V.sig)))


def def_pre(c):
    V = old(c)
    q = akey(c)
    pl = plist(c, 4)
    return inv(V) + [('size', And(V.n < MAXI - 1, V.pn + MAXP < MAXI)), ('definition of the signature', sigdef(c, V, pl)),
                     ('ghost signature of the next record', V.sig[V.n] == c.eng.ghosts['argsig']), ('ghost: the next record is accepted if there is no conflict', V.acc[V.n] == willaccept(c, V, q))]


def defs_kept(V0, V1):
    p = qi('p')
    return [('definitions kept', V0.all(lambda k: And(V1.s[k] == V0.s[k], V1.e[k] == V0.e[k], V1.constructor[k] == V0.constructor[k], V1.plen[k] == V0.plen[k], V1.par[k] == V0.par[k], V1.ctx[k] == V0.ctx[k], V1.ident[k] == V0.ident[k]), V1.s)),
            ('parameters kept', And(V1.pn >= V0.pn, forall([p], Imp(And(0 <= p, p < V0.pn), And(V1.ptype[p] == V0.ptype[p], V1.pcon[p] == V0.pcon[p])), V1.ptype[p])))]


def def_post(c):
    V0, V1 = old(c), new(c)
    q = akey(c)
    n, ty, con = plist(c, 4)
    k, p = V0.n, qi('p')
    return [('arguments in range', And(n < MAXP, c.a(3) >= 0, ctx_ok(c, c.a(1)))),
            ('a new handle or refused', c.ret == z3.If(willaccept(c, V0, q), V0.n + 1, -1)),
            ('one record more', V1.n == V0.n + 1),
            ('name, context and scope', And(V1.key(k, q))), ('constructor', V1.constructor[k] == c.a(3)), ('number of parameters', V1.plen[k] == n),
            ('parameters', forall([p], Imp(And(0 <= p, p < n), And(V1.ptype[V1.par[k] + p - 1] == ty[p], V1.pcon[V1.par[k] + p - 1] == con[p])), ty[p]))] + \
        defs_kept(V0, V1) + [('inv ' + nm, f) for nm, f in inv(V1)]


def unchanged(c):
    V0, V1 = old(c), new(c)
    return [('nothing changed', And(V1.n == V0.n, V1.pn == V0.pn))] + defs_kept(V0, V1) + [('inv ' + nm, f) for nm, f in inv(V1)]


def def_throws(c):
    n = plist(c, 4)[0]
    return [('refused for its arguments', Or(And(c.code == errcode(c, 'TooManyTypeArguments'), n >= MAXP), And(c.code == errcode(c, 'InvalidHandle'), Or(c.a(3) < 0, Not(ctx_ok(c, c.a(1)))))))] + unchanged(c)


defineType = Contract('TypeDatabase::defineType', Q + '::defineType', 5, setup=setup(4), pre=def_pre, post=def_post, throws=def_throws,
                      modifies=('m_typerecMap', 'm_parameterMap', ('m_typeTable', '*', 'tab')))


def as_post(c):
    V0, V1 = old(c), new(c)
    q = akey(c)
    t = c.a(3)
    return [('arguments valid', And(ctx_ok(c, c.a(1)), valid(c, t))), ('the handle or refused', c.ret == z3.If(V0.has(q), 0, t)),
            ('stands for the type', Imp(c.ret != 0, And(V1.has(q), V1.val(q) == t))), ('no record more', V1.n == V0.n)] + defs_kept(V0, V1) + [('inv ' + nm, f) for nm, f in inv(V1)]


defineTypeAs = Contract('TypeDatabase::defineTypeAs', Q + '::defineTypeAs', 4, setup=setup(), pre=lambda c: inv(old(c)) + [('the type was accepted', Imp(valid(c, c.a(3)), old(c).acc[c.a(3) - 1]))], post=as_post,
                        throws=lambda c: [('refused for a handle that denotes no type', And(c.code == errcode(c, 'InvalidHandle'), Or(Not(ctx_ok(c, c.a(1))), Not(valid(c, c.a(3))))))] + unchanged(c),
                        modifies=(('m_typeTable', '*', 'tab'),))


# ------------------------------------------------------------------ lists of definitions
def listed(V, h, k):
    """record k belongs to the list from handle h on"""
    return And(h > 0, V.dom(k), V.acc[k], V.same(k, h - 1), k + 1 >= h)


def exact_list(V, h, n0, n, el, upto=None):
    """el[n0..n) are the definitions of the list from h on (those before handle upto), ascending"""
    i, j, k = qi('i'), qi('j'), qi('k')
    before = lambda x: BoolT if upto is None else Or(upto == 0, x < upto)
    return [('of the list', forall([i], Imp(And(n0 <= i, i < n), And(listed(V, h, el[i] - 1), before(el[i]))), el[i])),
            ('ascending', forall([i, j], Imp(And(n0 <= i, i < j, j < n), el[i] < el[j]), el[i], el[j])),
            ('all of them', V.all(lambda k: Imp(And(listed(V, h, k), before(k + 1)), Exists([i], And(n0 <= i, i < n, el[i] == k + 1))), V.acc))]


BoolT = z3.BoolVal(True)


def types_post(c):
    V, h = old(c), z3.Const('ghost.first', z3.IntSort())
    r = c.retv().f['types']
    return [('context valid', ctx_ok(c, c.a(1)))] + exact_list(V, h, 0, r.n, r.el)


def collect(start, first):
    def f(L):
        c = L.eng.ctx
        V = View(c, L.mem)
        h, n0, el0 = start(c), first(c)[0], first(c)[1]
        out = []
        vals = [(nm, v, l) for nm, v, l in L.values() if L.modified(l)]
        vs = [(nm, v if isinstance(v, Vec) else v.f['types']) for nm, v, l in vals if isinstance(v, Vec) and z3.is_array(v.el) and 'buf' not in nm or isinstance(v, Rec) and 'types' in v.f]
        for nm, t in [(nm, v) for nm, v, l in vals if isz(v) and z3.is_int(v)]:
            out.append(('on:' + nm, Or(t == 0, listed(V, h, t - 1))))
            for vn, v in vs:
                out += [('%s:%s,%s' % (x, vn, nm), f) for x, f in exact_list(V, h, n0, v.n, v.el, t)]
        for vn, v in vs:
            p = qi('p')
            out.append(('size:' + vn, v.n >= n0))
            if el0 is not None:
                out.append(('before:' + vn, forall([p], Imp(And(0 <= p, p < n0), v.el[p] == el0[p]), v.el[p])))
        return out
    return f


getTypes = Contract('TypeDatabase::getTypes', Q + '::getTypes', 4, setup=setup(), pre=lambda c: inv(old(c)) + [('first of the list (definition)', z3.Const('ghost.first', z3.IntSort()) == z3.If(old(c).has(akey(c)), old(c).val(akey(c)), 0))], post=types_post, throws=lambda c: bad_handle(c, c.a(1)),
                    templates=[collect(lambda c: z3.Const('ghost.first', z3.IntSort()), lambda c: (z3.IntVal(0), None))], argmods=(3,))


def items_post(c):
    V = old(c)
    v0, v1 = c.a(0), c.an(0)
    p = qi('p')
    return [('kept', And(v1.n >= v0.n, forall([p], Imp(And(0 <= p, p < v0.n), v1.el[p] == v0.el[p]), v1.el[p])))] + exact_list(V, c.a(1), v0.n, v1.n, v1.el)


collectResultItems = Contract('TypeDatabase::collectResultItems', Q + '::collectResultItems', 2, setup=setup(), pre=lambda c: inv(old(c)) + [('start', Or(c.a(1) == 0, And(1 <= c.a(1), c.a(1) <= old(c).n, old(c).acc[c.a(1) - 1])))],
                              post=items_post, argmods=(0,), templates=[collect(lambda c: c.a(1), lambda c: (c.a(0).n, c.a(0).el))])


# ------------------------------------------------------------------ reductions
HASTAG = z3.Function('tag.in.set', z3.IntSort(), z3.IntSort(), z3.BoolSort())
RELFIELDS = ('defs', 'start', 'end', 'left', 'right', 'value', 'tag', 'weight')


def relcall(c):
    sc = c.a(0)
    return [c.o('defs') + 1, sc.f['m_start'], sc.f['m_end'], c.a(1), c.a(2), c.a(3), c.a(4), c.a(5)]


def rel_refused(c):
    return Or(c.code == errcode(c, 'BadRelationTag'), c.code == errcode(c, 'BadRelationWeight'), c.code == errcode(c, 'DuplicateDefinition'))


rel_set = Contract('ScopedRelationMap::set', RELTAB + '::set', 6, trusted=True, modifies=RELFIELDS, post=lambda c: [('defined with these arguments', And([c.n(f) == v for f, v in zip(RELFIELDS, relcall(c))]))],
                   throws=lambda c: [('refused', rel_refused(c)), ('not defined', And([c.n(f) == c.o(f) for f in RELFIELDS]))])


def rel_list(c):
    v = c.retv()
    c.eng.ghosts['redulist'] = (v, [c.a(i) if not isinstance(c.a(i), Rec) else c.a(i).f['m_mask'] for i in range(3)])
    i, j = qi('i'), qi('j')
    el = v.el.f
    return [('each related item once', forall([i, j], Imp(And(0 <= i, i < j, j < v.n), el['m_right'][i] != el['m_right'][j]), el['m_right'][i], el['m_right'][j])),
            ('constructors', forall([i], Imp(And(0 <= i, i < v.n), And(el['m_value'][i] >= 0, el['m_tagval'][i] >= 0, el['m_tagval'][i] < 32)), el['m_value'][i]))]


rel_get = Contract('ScopedRelationMap::get', RELTAB + '::get', 4, trusted=True, post=rel_list)
tag_matches = Contract('TagMask::matches', 'mewa::TagMask::matches', 1, pre=lambda c: [('tag value', And(0 <= c.a(0), c.a(0) < 32))],
                       post=lambda c: [('contains the tag', c.ret == HASTAG(c.o('m_mask'), c.a(0)))], trusted=True)
debugString = Contract('TypeDatabase::debugTypeToString', Q + '::debugTypeToString', 2, trusted=True)


def redu_post(c):
    r = c.loc('m_reduTable')
    R0, R1 = c.eng.read_in(c.old, r).f['*'].f, c.eng.read_in(c.new, r).f['*'].f
    sc = c.a(0)
    want = [R0['defs'] + 1, sc.f['m_start'], sc.f['m_end'], c.a(2), c.a(1), c.a(3), c.a(4), c.a(5)]
    return [('arguments valid', And(c.a(3) >= 0, valid(c, c.a(2)), ctx_ok(c, c.a(1)), c.a(1) != c.a(2)))] + \
        [('defined in the table: ' + f, R1[f] == v) for f, v in zip(RELFIELDS, want)]


def redu_throws(c):
    r = c.loc('m_reduTable')
    R0, R1 = c.eng.read_in(c.old, r).f['*'].f, c.eng.read_in(c.new, r).f['*'].f
    ok = And(c.a(3) >= 0, valid(c, c.a(2)), ctx_ok(c, c.a(1)))
    return [('refused', Or(And(c.code == errcode(c, 'InvalidHandle'), Not(ok)), And(c.code == errcode(c, 'InvalidReductionDefinition'), ok, c.a(1) == c.a(2)), And(rel_refused(c), ok, c.a(1) != c.a(2)))),
            ('nothing defined', And([R1[f] == R0[f] for f in RELFIELDS]))]


defineReduction = Contract('TypeDatabase::defineReduction', Q + '::defineReduction', 6, setup=setup(), pre=lambda c: inv(old(c)), post=redu_post, throws=redu_throws, modifies=(('m_reduTable', '*'),))


def asked(c, frm):
    """the list the relations of the type at the step were asked for"""
    v, (step, left, mask) = c.eng.ghosts['redulist']
    return v, And(step == c.a(0), left == c.a(frm), mask == c.a(frm + 1).f['m_mask'])


def row(r, i):
    el = r.el.f
    return el['type'][i], el['constructor'][i], el['weight'][i], el['count'][i]


def same_rows(c, r, n, lst):
    i = qi('i')
    el = lst.el.f
    t, k, w, b = row(r, i)
    return forall([i], Imp(And(0 <= i, i < n), And(t == el['m_right'][i], k == el['m_value'][i], w == el['m_weight'][i], b == HASTAG(c.a(3).f['m_mask'], el['m_tagval'][i]))), t)


def redus_post(c):
    lst, ok = asked(c, 1)
    r = c.retv().f['reductions']
    return [('handle valid', valid(c, c.a(1))), ('relations of the type at the step with the tags', ok), ('all of them in order', And(r.n == lst.n, same_rows(c, r, lst.n, lst)))]


def redus_inv(L):
    c = L.eng.ctx
    if 'redulist' not in c.eng.ghosts:
        return []
    lst = c.eng.ghosts['redulist'][0]
    out = []
    for nm, v, l in L.values():
        if isinstance(v, Rec) and 'reductions' in v.f:
            r = v.f['reductions']
            for n2, w, l2 in L.values():
                if isinstance(w, VIt):
                    out += [('rows:%s,%s' % (nm, n2), And(r.n == w.idx, same_rows(c, r, w.idx, lst))), ('range:%s,%s' % (nm, n2), And(0 <= w.idx, w.idx <= lst.n))]
    return out


getReductions = Contract('TypeDatabase::getReductions', Q + '::getReductions', 5, setup=setup(), pre=lambda c: inv(old(c)), post=redus_post, throws=lambda c: [('refused for a handle that denotes no type', And(c.code == errcode(c, 'InvalidHandle'), Not(valid(c, c.a(1)))))],
                         templates=[redus_inv], argmods=(4,))


def redu1_post(c):
    lst, ok = asked(c, 2)
    el = lst.el.f
    r = c.retv().f
    i = qi('i')
    return [('handles valid', And(valid(c, c.a(2)), ctx_ok(c, c.a(1)))), ('relations of the type at the step with the tags', ok),
            ('none', Imp(r['constructor'] < 0, forall([i], Imp(And(0 <= i, i < lst.n), el['m_right'][i] != c.a(1)), el['m_right'][i]))),
            ('the one to the type', Imp(r['constructor'] >= 0, Exists([i], And(0 <= i, i < lst.n, el['m_right'][i] == c.a(1), el['m_value'][i] == r['constructor'], el['m_weight'][i] == r['weight']))))]


def redu1_inv(L):
    c = L.eng.ctx
    if 'redulist' not in c.eng.ghosts:
        return []
    lst = c.eng.ghosts['redulist'][0]
    el = lst.el.f
    out = []
    for n2, w, l2 in L.values():
        if isinstance(w, VIt):
            out.append(('range:' + n2, And(0 <= w.idx, w.idx <= lst.n)))
            for nm, v, l in L.values():
                if isinstance(v, Rec) and set(v.f) == {'weight', 'constructor'}:
                    i = qi('i')
                    r = v.f
                    out.append(('none:%s,%s' % (nm, n2), Imp(r['constructor'] < 0, forall([i], Imp(And(0 <= i, i < w.idx), el['m_right'][i] != c.a(1)), el['m_right'][i]))))
                    out.append(('one:%s,%s' % (nm, n2), Imp(r['constructor'] >= 0, Exists([i], And(0 <= i, i < w.idx, el['m_right'][i] == c.a(1), el['m_value'][i] == r['constructor'], el['m_weight'][i] == r['weight'])))))
    return out


getReduction = Contract('TypeDatabase::getReduction', Q + '::getReduction', 4, setup=setup(), pre=lambda c: inv(old(c)), post=redu1_post, templates=[redu1_inv],
                        throws=lambda c: [('refused for a handle that denotes no type', And(c.code == errcode(c, 'InvalidHandle'), Not(And(valid(c, c.a(2)), ctx_ok(c, c.a(1))))))])
toString = Contract('TypeDatabase::typeToString', Q + '::typeToString', 3, trusted=True)

ALL = ['typeContext', 'typeConstructor', 'typeScope', 'typeName', 'typeParameters', 'cmp_pairs', 'cmp_types', 'find3', 'find2', 'getType', 'defineType', 'defineTypeAs', 'getTypes', 'collectResultItems', 'defineReduction']
REDU = ['getReductions', 'getReduction']


def USE(c):
    return [ident_get, ident_inv, tab_getOrSet, tab_set, tab_getDef, cmp_pairs, cmp_types, find3, find2, rel_set, rel_get, tag_matches, debugString, toString]
