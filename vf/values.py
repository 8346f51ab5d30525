"""Symbolic values.  Leaves are z3 terms; containers are lifted leaf-wise into z3 arrays."""
import z3


class Rec:
    __slots__ = ('t', 'f')
    def __init__(self, t, f):
        self.t, self.f = t, f
    def __repr__(self):
        return 'Rec(%s,%s)' % (self.t, self.f)


class Vec:
    """a sequence: length term and lifted element"""
    __slots__ = ('n', 'el')
    def __init__(self, n, el):
        self.n, self.el = n, el
    def __repr__(self):
        return 'Vec(%s,%s)' % (self.n, self.el)


class MapV:
    __slots__ = ('p', 'v', 'kt', 'ordered', 'cmp')
    def __init__(self, p, v, kt, ordered, cmp):
        self.p, self.v, self.kt, self.ordered, self.cmp = p, v, kt, ordered, cmp
    def __repr__(self):
        return 'MapV(%s,%s)' % (self.p, self.v)


class Unit:
    def __repr__(self):
        return 'Unit'
UNIT = Unit()


class Loc:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root, self.path = root, path
    def f(self, name):
        return Loc(self.root, self.path + (('f', name),))
    def i(self, idx):
        return Loc(self.root, self.path + (('i', idx),))
    def k(self, keyval):
        return Loc(self.root, self.path + (('k', keyval),))
    def kv(self, keyval):
        return Loc(self.root, self.path + (('kv', keyval),))
    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)


class Ptr:
    """pointer: to a location (None = null constant); null: z3 Bool or bool"""
    __slots__ = ('loc', 'null')
    def __init__(self, loc, null=False):
        self.loc, self.null = loc, null
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.loc, self.null)


class VIt:
    __slots__ = ('loc', 'idx')
    def __init__(self, loc, idx):
        self.loc, self.idx = loc, idx


class MIt:
    __slots__ = ('loc', 'key', 'end')
    def __init__(self, loc, key, end):
        self.loc, self.key, self.end = loc, key, end


class Func:
    """callable value (function reference, lambda)"""
    __slots__ = ('node', 'env', 'this', 'kind')
    def __init__(self, node, env=None, this=None, kind='fn'):
        self.node, self.env, self.this, self.kind = node, env, this, kind


class StrLit:
    __slots__ = ('s',)
    def __init__(self, s):
        self.s = s


class Shape(Exception):
    pass


def vmap(fn, v, *o):
    if isinstance(v, z3.ExprRef):
        return fn(v, *o)
    if isinstance(v, Rec):
        return Rec(v.t, {k: vmap(fn, x, *[y.f[k] for y in o]) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(vmap(fn, v.n, *[y.n for y in o]), vmap(fn, v.el, *[y.el for y in o]))
    if isinstance(v, MapV):
        return MapV(vmap(fn, v.p, *[y.p for y in o]), vmap(fn, v.v, *[y.v for y in o]), v.kt, v.ordered, v.cmp)
    if v is UNIT:
        return UNIT
    raise Shape('vmap on %r' % (v,))


def leaves(v):
    out = []
    vmap(lambda x: (out.append(x), x)[1], v)
    return out


def sel(v, idx):
    return vmap(lambda a: z3.Select(a, idx), v)


def sto(v, idx, new):
    def st(a, n):
        if n.decl().kind() == z3.Z3_OP_SELECT and n.num_args() == 2 and n.arg(0).eq(a) and n.arg(1).eq(idx):
            return a
        return z3.Store(a, idx, n)
    return vmap(st, v, new)


def selk(v, key):
    for k in leaves(key):
        v = sel(v, k)
    return v


def stok(v, key, new):
    ks = leaves(key)
    def go(v, ks):
        if not ks:
            return new
        return sto(v, ks[0], go(sel(v, ks[0]), ks[1:]))
    return go(v, ks)


def ite(c, a, b):
    if c is True or (isinstance(c, z3.ExprRef) and z3.is_true(c)):
        return a
    if c is False or (isinstance(c, z3.ExprRef) and z3.is_false(c)):
        return b
    if isinstance(a, (MIt, VIt, Ptr)):
        return ite_it(c, a, b)
    return vmap(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)


def samepath(p, q):
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if a[0] != b[0]:
            return False
        if a[0] == 'f':
            if a[1] != b[1]:
                return False
        else:
            la, lb = leaves(a[1]), leaves(b[1])
            if len(la) != len(lb) or any(not x.eq(y) for x, y in zip(la, lb)):
                return False
    return True


def sameloc(a, b):
    return a.root == b.root and samepath(a.path, b.path)


def ite_it(c, a, b):
    if isinstance(a, MIt) and isinstance(b, MIt) and sameloc(a.loc, b.loc):
        return MIt(a.loc, ite(c, a.key, b.key), z3.If(c, a.end, b.end))
    if isinstance(a, VIt) and isinstance(b, VIt) and sameloc(a.loc, b.loc):
        return VIt(a.loc, z3.If(c, a.idx, b.idx))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        an = z3.BoolVal(a.null) if isinstance(a.null, bool) else a.null
        bn = z3.BoolVal(b.null) if isinstance(b.null, bool) else b.null
        if a.loc is None:
            return Ptr(b.loc, z3.If(c, True, bn))
        if b.loc is None:
            return Ptr(a.loc, z3.If(c, an, True))
        if sameloc(a.loc, b.loc):
            return Ptr(a.loc, z3.If(c, an, bn))
    raise Shape('cannot merge %r %r' % (a, b))


def veq(a, b):
    """equality of values as a z3 Bool; sequences compare element-wise below their length"""
    if isinstance(a, z3.ExprRef):
        return a == b
    if isinstance(a, Rec):
        return z3.And([veq(x, b.f[k]) for k, x in a.f.items()] or [z3.BoolVal(True)])
    if isinstance(a, Vec):
        i = z3.FreshInt('qi')
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), veq(sel(a.el, i), sel(b.el, i)))))
    if a is UNIT:
        return z3.BoolVal(True)
    raise Shape('veq %r' % (a,))


def basepats(t):
    """legal triggers for a select term: stores and conditionals are peeled off"""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT):
        return [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    idx = [t.arg(i) for i in range(1, t.num_args())]
    return [z3.Select(a, *idx) for a in basearrs(t.arg(0))]


def basearrs(a):
    k = a.decl().kind()
    if k == z3.Z3_OP_STORE:
        return basearrs(a.arg(0))
    if k == z3.Z3_OP_ITE:
        out = basearrs(a.arg(1))
        for x in basearrs(a.arg(2)):
            if not any(x.eq(y) for y in out):
                out.append(x)
        return out
    if k == z3.Z3_OP_CONST_ARRAY:
        return []
    if k == z3.Z3_OP_UNINTERPRETED:
        return [a]
    if k == z3.Z3_OP_SELECT:
        return basepats(a)
    return []


def qsimp(f):
    return z3.simplify(f, expand_select_store=True, expand_select_ite=True, push_ite_bv=False)


def qforall(vs, body, *pats):
    body = qsimp(body)
    alts = [[]]
    for p in pats:
        ps = basepats(p)
        if not ps:
            alts = None
            break
        alts = [a + [x] for a in alts for x in ps]
    if z3.is_true(body) or z3.is_false(body):
        return body
    if alts and alts[0]:
        try:
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*a) if len(a) > 1 else a[0] for a in alts[:6]])
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)
