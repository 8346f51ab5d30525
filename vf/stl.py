"""Contracts assumed for the C++ standard library (the trusted part of the encoding)."""
import z3
from .values import *
from . import astdb


def U(eng, msg, n=None):
    from .engine import Unsupported
    return Unsupported(msg + (' at ' + eng.where(n) if n is not None else ''))


def tr(eng, what):
    eng.trusted.add('std::' + what)


# ------------------------------------------------------------------ iterators
def deref(eng, it, n):
    if isinstance(it, VIt):
        v = eng.read(it.loc)
        return it.loc.i(eng.bound(it.idx, v.n, n))
    if isinstance(it, MIt):
        m = eng.read(it.loc)
        if eng.bounds:
            eng.check('iter', 'iterator dereferenceable', z3.And(z3.Not(it.end), selk(m.p, it.key)), n)
        if m.v is UNIT:
            return eng.temp(it.key)
        return it.loc.kv(it.key)
    if isinstance(it, Ptr):
        return eng.deref(it, n)
    raise U(eng, 'deref of %r' % (it,), n)


def keyvars(eng, m, hint='k'):
    k = eng.build(m.kt, eng.freshname('q' + hint))
    return k, leaves(k)


def lt(eng, m, a, b):
    """strict order of the container's keys"""
    kt = m.kt
    if not m.ordered:
        f = z3.Function('rank_%s' % '_'.join(str(s) for s in [l.sort() for l in leaves(a)]), *[l.sort() for l in leaves(a)], z3.IntSort())
        return f(*leaves(a)) < f(*leaves(b))
    c = m.cmp or ''
    if c and not c.startswith('std::less') and not c.startswith('std::allocator') and not c.startswith('std::pmr'):
        fns = eng.db.find(astdb.canon(c) + '::operator()', 2)
        if not fns:
            raise U(eng, 'comparator ' + c)
        cmpobj = Rec(c, {fn: eng.build(eng.ty(ft), 'cmp.' + fn) for fn, ft, _ in (eng.db.fields(astdb.canon(c)) or [])})
        return eng.merge_eval(lambda: eng.run(fns[0], eng.temp(cmpobj), [eng.temp(a), eng.temp(b)]))
    return ltt(eng, kt, a, b)


def ltt(eng, kt, a, b):
    if kt[0] in ('int', 'real'):
        return eng.cmp('<', a, b, kt)
    if kt[0] == 'bool':
        return z3.And(z3.Not(a), b)
    if kt[0] == 'pair':
        return z3.Or(ltt(eng, kt[1], a.f['first'], b.f['first']), z3.And(veq(a.f['first'], b.f['first']), ltt(eng, kt[2], a.f['second'], b.f['second'])))
    if kt[0] == 'rec':
        fns = eng.db.find(kt[1] + '::operator<', 1)
        if fns:
            return eng.merge_eval(lambda: eng.run(fns[0], eng.temp(a), [eng.temp(b)]))
    raise U(eng, 'key order of %r' % (kt,))


def kq(eng, m, body, hint='k'):
    """forall keys k: body(k), triggered on membership"""
    k, vs = keyvars(eng, m, hint)
    f = body(k)
    p = selk(m.p, k)
    return qforall(vs, f, p)


def bound_it(eng, loc, m, above, hint):
    """first key k with above(k)"""
    k = eng.fresh(m.kt, hint)
    e = eng.freshbool(hint + '.end')
    tr(eng, 'map/set ordered search and iteration')
    if m.kt[0] == 'int':
        eng.assume(eng.inrange(k, m.kt))
    eng.assume(z3.Implies(e, kq(eng, m, lambda j: z3.Implies(selk(m.p, j), z3.Not(above(j))))))
    eng.assume(z3.Implies(z3.Not(e), z3.And(selk(m.p, k), above(k), kq(eng, m, lambda j: z3.Implies(z3.And(selk(m.p, j), above(j)), z3.Not(lt(eng, m, j, k)))))))
    return MIt(loc, k, e)


def advance(eng, it, d, n):
    if isinstance(it, VIt):
        ni = z3.simplify(it.idx + d) if not (isinstance(d, int)) else z3.simplify(it.idx + d)
        if eng.bounds:
            v = eng.read(it.loc)
            eng.check('iter', 'iterator stays within the sequence', z3.And(ni >= 0, ni <= v.n), n)
        return VIt(it.loc, ni)
    m = eng.read(it.loc)
    if isinstance(d, z3.ExprRef):
        d = d.as_long()
    if d == 1:
        if eng.bounds:
            eng.check('iter', 'increment of a dereferenceable iterator', z3.Not(it.end), n)
        return bound_it(eng, it.loc, m, lambda j: lt(eng, m, it.key, j), 'next')
    if d == -1:
        k = eng.fresh(m.kt, 'prev')
        above = lambda j: z3.Or(it.end, lt(eng, m, j, it.key))
        eng.check('iter', 'decrement of an iterator that is not begin', z3.Not(kq(eng, m, lambda j: z3.Implies(selk(m.p, j), z3.Not(above(j))))), n)
        eng.assume(z3.And(selk(m.p, k), above(k), kq(eng, m, lambda j: z3.Implies(z3.And(selk(m.p, j), above(j)), z3.Not(lt(eng, m, k, j))))))
        return MIt(it.loc, k, z3.BoolVal(False))
    raise U(eng, 'iterator step', n)


def it_eq(a, b):
    if isinstance(a, VIt):
        return a.idx == b.idx
    return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), veq(a.key, b.key)))


# ------------------------------------------------------------------ construction
def is_move(n):
    from .engine import strip
    x = strip(n)
    if x['kind'] == 'CallExpr':
        c = strip(x['inner'][0])
        return c.get('referencedDecl', {}).get('name') == 'move'
    return False


def moved(eng, argn, loc):
    """state of a moved-from container is unspecified"""
    if is_move(argn) and isinstance(loc, Loc):
        v = eng.read(loc)
        if isinstance(v, (Vec, MapV)):
            f = eng.fresh_like(v, 'moved')
            eng.write(loc, f)
            if isinstance(f, Vec):
                eng.assume(f.n >= 0)


def construct(eng, t, args, n):
    k = t[0]
    real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if k == 'rec':
        ctor = eng.find_ctor(t[1], n)
        d = eng.db.func_of(ctor['id']) if ctor is not None else None
        if d is not None and not ctor.get('isImplicit') and not ctor.get('explicitlyDefaulted') and not d.get('explicitlyDefaulted'):
            av = eng.args_for(d, args)
            c = eng.contract_for(d)
            if c is not None:
                eng.usedcontracts.add(c.name)
                return c.apply(eng, d, None, eng.fill_defaults(d, av), n)
            if eng.nest or astdb.body(d) is None:
                return eng.construct(d, t[1], av, n)
            from .engine import contains_loop, has_throw
            if not contains_loop(astdb.body(d)) and not has_throw(astdb.body(d)):
                return eng.try_merge(lambda: eng.construct(d, t[1], av, n))
            return eng.construct(d, t[1], av, n)
        if len(real) == 1:
            l = eng.ev(real[0])
            v = eng.val(l)
            if isinstance(v, Rec):
                return v
        if not real:
            return eng.zero(t) if ctor is None or ctor.get('isImplicit') or ctor.get('explicitlyDefaulted') else eng.default_rec(t[1])
        raise U(eng, 'constructor of ' + t[1], n)
    if k in ('vec', 'pq'):
        if not real:
            return eng.zero(t)
        ft = eng.nty(real[0])
        if ft == t or (ft[0] == 'ref' and ft[1] == t):
            l = eng.ev(real[0])
            v = eng.val(l)
            moved(eng, real[0], l)
            return v
        vals = [eng.rv(a) for a in real]
        if isinstance(vals[0], Vec):
            return vals[0]
        if isinstance(vals[0], (VIt, Ptr)) and len(vals) >= 2 and isinstance(vals[1], (VIt, Ptr)):
            return range_copy(eng, vals[0], vals[1], t[1], n)
        if isz(vals[0]) and vals[0].sort() == z3.IntSort() and eng.nty(real[0])[0] == 'int':
            fill = vals[1] if len(vals) > 1 else eng.zero(t[1])
            if isinstance(fill, StrLit):
                fill = eng.strval(fill)
            try:
                return Vec(vals[0], vmap(lambda x: z3.K(eng.isort, x), fill))
            except Shape:
                pass
        return eng.zero(t)      # memory resource / allocator argument
    if k == 'map':
        if not real:
            return eng.zero(t)
        vals = [(a, eng.ev(a)) for a in real]
        for a, l in vals:
            v = eng.val(l)
            if isinstance(v, MapV):
                moved(eng, a, l)
                return v
            if isinstance(v, Vec):
                return map_from_list(eng, t, v, n)
        return eng.zero(t)
    if k == 'pair':
        if len(real) == 2:
            a, b = eng.rv(real[0]), eng.rv(real[1])
            return Rec('pair', {'first': conv(eng, a, t[1], eng.nty(real[0])), 'second': conv(eng, b, t[2], eng.nty(real[1]))})
        if len(real) == 1:
            v = eng.rv(real[0])
            st = eng.nty(real[0])
            st = st[1] if st[0] == 'ref' else st
            if isinstance(v, Rec) and st[0] == 'pair':
                return Rec('pair', {'first': conv(eng, v.f['first'], t[1], st[1]), 'second': conv(eng, v.f['second'], t[2], st[2])})
        if not real:
            return eng.zero(t)
    if k == 'str':
        if not real:
            return eng.zero(t)
        vals = [eng.ev(a) for a in real]
        v0 = eng.val(vals[0])
        if isinstance(v0, StrLit):
            return eng.strval(v0)
        if isinstance(v0, Vec):
            if len(vals) == 1 or not (isz(eng.val(vals[1]))):
                return v0
        if isinstance(v0, Ptr):
            return str_from_ptr(eng, v0, eng.val(vals[1]) if len(vals) > 1 and isz(eng.val(vals[1])) else None, n)
        if isinstance(v0, VIt) and len(vals) >= 2:
            return range_copy(eng, v0, eng.val(vals[1]), ('int', 8, True), n)
        if isz(v0) and len(vals) >= 2:      # string(n, ch)
            return Vec(v0, z3.K(eng.isort, eng.val(vals[1])))
        raise U(eng, 'string constructor', n)
    if k in ('mapit', 'setit', 'vecit', 'ptr', 'int', 'bool', 'real'):
        if len(real) == 1:
            return eng.rv(real[0])
        if not real:
            return eng.zero(t) if k in ('int', 'bool', 'real', 'ptr') else Ptr(None, True)
    if k == 'bitset':
        return eng.zero(t) if not real else eng.rv(real[0])
    if k == 'uptr':
        if len(real) == 1:
            v = eng.rv(real[0])
            if isinstance(v, Ptr):
                if v.loc is None:
                    return Rec('uptr', {'*': eng.build(t[1], eng.freshname('null'))})
                return Rec('uptr', {'*': eng.read(v.loc)})
            return v
        return Rec('uptr', {'*': eng.build(t[1], eng.freshname('null'))})
    if k == 'carr':
        return eng.zero(t)
    if k == 'fn' or k == 'opaque':
        vs = [eng.rv(a) for a in real]
        if len(vs) == 1 and isinstance(vs[0], Func):
            return vs[0]
        if len(vs) == 1 and isz(vs[0]) and k == 'opaque' and vs[0].sort() == eng.leafsort(t):
            return vs[0]
        return eng.build(t, eng.freshname('opq'))
    raise U(eng, 'construct %r' % (t,), n)


def conv(eng, v, t, st):
    if isinstance(v, StrLit) and t[0] == 'str':
        return eng.strval(v)
    if isinstance(v, Loc):
        v = eng.read(v)
    st = st[1] if st[0] == 'ref' else st
    if isz(v) and t[0] in ('int', 'real', 'bool') and st[0] in ('int', 'real', 'bool') and st != t:
        return eng.cast(v, st, t)
    return v


def isz(x):
    return isinstance(x, z3.ExprRef)


def seq_of(eng, it):
    """(vector value, index) of an iterator or pointer into a sequence"""
    if isinstance(it, VIt):
        return eng.read(it.loc), it.idx
    if isinstance(it, Ptr) and it.loc is not None and it.loc.path and it.loc.path[-1][0] == 'i':
        return eng.read(Loc(it.loc.root, it.loc.path[:-1])), it.loc.path[-1][1]
    if isinstance(it, Rec) and len(it.f) == 1 and isinstance(next(iter(it.f.values())), Ptr):
        # iterator class around a pointer
        tr(eng, it.t + ' walks like its pointer')
        return seq_of(eng, next(iter(it.f.values())))
    raise U(eng, 'not a sequence iterator: %r' % (it,))


def shift_copy(eng, el, off):
    """array a' with a'[i] = a[i+off]"""
    if z3.is_int_value(z3.simplify(off)) and z3.simplify(off).as_long() == 0:
        return el
    i = z3.Int('shl_i')
    def one(a):
        b = z3.Const(eng.freshname('sub'), a.sort())
        q = z3.Int(eng.freshname('qs'))
        eng.assume(qforall([q], b[q] == a[q + off], b[q]))
        return b
    return vmap(one, el)


def range_copy(eng, a, b, et, n):
    s, i = seq_of(eng, a)
    s2, j = seq_of(eng, b)
    if eng.bounds:
        eng.check('iter', 'valid range', z3.And(i >= 0, i <= j, j <= s.n), n)
    tr(eng, 'range construction')
    return Vec(z3.simplify(j - i), shift_copy(eng, s.el, i))


def str_from_ptr(eng, p, ln, n):
    s, i = seq_of(eng, p)
    tr(eng, 'string construction')
    if ln is None:
        # NUL-terminated
        m = eng.freshint('strlen')
        q = z3.Int(eng.freshname('q'))
        eng.assume(z3.And(m >= 0, s.el[i + m] == 0, qforall([q], z3.Implies(z3.And(i <= q, q < i + m), s.el[q] != 0), s.el[q])))
        ln = m
    elif eng.bounds:
        eng.check('bounds', 'string range within source', z3.And(ln >= 0, i >= 0, i + ln <= s.n), n)
    return Vec(ln, shift_copy(eng, s.el, i))


def map_from_list(eng, t, v, n):
    nv = z3.simplify(v.n)
    if not z3.is_int_value(nv):
        raise U(eng, 'map from list', n)
    m = eng.zero(t)
    for i in range(nv.as_long()):
        e = sel(v.el, z3.IntVal(i))
        if m.v is UNIT:
            m = MapV(stok(m.p, e, z3.BoolVal(True)), UNIT, m.kt, m.ordered, m.cmp)
        else:
            k, x = e.f['first'], e.f['second']
            had = selk(m.p, k)
            m = MapV(stok(m.p, k, z3.BoolVal(True)), stok(m.v, k, ite(had, selk(m.v, k), x)), m.kt, m.ordered, m.cmp)
    return m


# ------------------------------------------------------------------ methods
def method(eng, name, b, arrow, args, n, d):
    bt = eng.nty(b)
    if bt[0] == 'ref':
        bt = bt[1]
    if arrow:
        p = eng.rv(b)
        if bt[0] == 'ptr':
            bt = bt[1]
        loc = eng.deref(p, n) if isinstance(p, Ptr) else deref(eng, p, n)
    else:
        l = eng.ev(b)
        if isinstance(l, (StrLit,)):
            l = eng.strval(l)
        loc = l if isinstance(l, Loc) else eng.temp(l, bt)
    return method_on(eng, name, loc, bt, args, n, d)


def const_int(i):
    return z3.IntVal(i)


def method_on(eng, name, loc, bt, args, n, d=None):
    real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    obj = eng.read(loc)
    k = bt[0]
    A = lambda i: eng.rv(real[i])
    if name == 'operator=' or (k == 'rec' and name == 'operator='):
        v = A(0)
        eng.write(loc, v)
        return loc
    if isinstance(obj, Vec) and k == 'pq' and name != 'operator=':
        return pq_method(eng, name, loc, obj, bt, real, n)
    if isinstance(obj, Vec) and k in ('vec', 'str', 'carr', 'opaque'):
        r = vec_method(eng, name, loc, obj, bt, real, A, n)
        if r is not NotImplemented:
            return r
    if isinstance(obj, MapV):
        r = map_method(eng, name, loc, obj, bt, real, A, n)
        if r is not NotImplemented:
            return r
    if k == 'bitset':
        r = bitset_method(eng, name, loc, obj, bt, real, A, n)
        if r is not NotImplemented:
            return r
    if k == 'uptr':
        if name == 'get':
            return Ptr(loc.f('*'), False)
        if name == 'reset':
            v = construct(eng, bt, args, n)
            eng.write(loc, v)
            return None
    if k == 'rec':
        from .engine import strip
        # defaulted special members
        if name == 'operator=':
            eng.write(loc, A(0))
            return loc
    h = eng.extra_method(name, loc, obj, bt, real, A, n) if hasattr(eng, 'extra_method') else NotImplemented
    if h is not NotImplemented:
        return h
    raise U(eng, 'method %s of %r' % (name, bt), n)


def push(eng, loc, obj, v):
    if isinstance(v, StrLit):
        v = eng.strval(v)
    eng.write(loc, Vec(z3.simplify(obj.n + 1), sto(obj.el, obj.n, v)))


def pq_first(eng, loc, obj, bt, n):
    """position of the first element of a priority queue: no other one comes before it"""
    key = (loc.root, repr(loc.path))
    c = eng.pqtop.get(key)
    if c is not None and c[0] is obj:
        return c[1]
    tr(eng, 'std::priority_queue as a bag with a first element')
    t = eng.freshint('first')
    q = z3.Int(eng.freshname('q'))
    et = bt[1]
    a, b = sel(obj.el.f['v'], t), sel(obj.el.f['v'], q)
    great = 'greater' in bt[2]
    if et[0] in ('int', 'real'):
        f = eng.cmp('>', a, b, et) if great else eng.cmp('<', a, b, et)
    elif et[0] == 'rec':
        fns = eng.db.find(et[1] + ('::operator>' if great else '::operator<'), 1)
        if not fns:
            raise U(eng, 'order of a priority queue of ' + et[1], n)
        f = eng.merge_eval(lambda: eng.run(fns[0], eng.temp(a), [eng.temp(b)]))
    else:
        raise U(eng, 'order of a priority queue', n)
    live = obj.el.f['live']
    eng.assume(z3.And(0 <= t, t < obj.n, live[t]))
    eng.assume(qforall([q], z3.Implies(z3.And(0 <= q, q < obj.n, live[q]), z3.Not(f)), first_leaf(b)))
    eng.pqtop[key] = (obj, t)
    return t


def pq_method(eng, name, loc, obj, bt, real, n):
    live = obj.el.f['live']
    q = z3.Int(eng.freshname('q'))
    if name == 'empty':
        e, w = eng.freshbool('empty'), eng.freshint('element')
        eng.assume(z3.Implies(e, qforall([q], z3.Implies(z3.And(0 <= q, q < obj.n), z3.Not(live[q])), live[q])))
        eng.assume(z3.Implies(z3.Not(e), z3.And(0 <= w, w < obj.n, live[w])))
        return e
    if name in ('push', 'emplace'):
        if name == 'push':
            v = conv(eng, eng.rv(real[0]), bt[1], eng.nty(real[0]))
        else:
            v = emplace(eng, bt[1], real, n) if bt[1][0] == 'rec' else construct(eng, bt[1], real, n)
        push(eng, loc, eng.read(loc), Rec('slot', {'live': z3.BoolVal(True), 'v': v}))
        h = getattr(eng.target, 'on_queue', None)
        if h is not None:
            for root, val in h(eng, v):
                eng.setghost(root, val)
        return None
    if name not in ('top', 'pop'):
        raise U(eng, 'priority_queue::' + name, n)
    eng.check('bounds', name + ' of a non-empty queue', z3.Exists([q], z3.And(0 <= q, q < obj.n, live[q])), n, assume=False)
    t = pq_first(eng, loc, obj, bt, n)
    if name == 'top':
        return eng.temp(sel(obj.el.f['v'], t), bt[1])
    eng.write(loc, Vec(obj.n, Rec('slot', {'live': z3.Store(live, t, z3.BoolVal(False)), 'v': obj.el.f['v']})))
    return None


def leaves(v):
    if isinstance(v, Rec):
        return [x for y in v.f.values() for x in leaves(y)]
    if not isz(v):
        raise Unsupported('reverse of structured elements')
    return [v]


def first_leaf(v):
    return leaves(v)[0]


def vec_method(eng, name, loc, obj, bt, real, A, n):
    et = ('int', 8, True) if bt[0] == 'str' else bt[1] if len(bt) > 1 else None
    if name in ('size', 'length'):
        return obj.n
    if name == 'empty':
        return obj.n == 0
    if name in ('reserve', 'shrink_to_fit', 'capacity'):
        for i in range(len(real)):
            A(i)
        return None if name != 'capacity' else eng.freshint('cap')
    if name in ('push_back', 'push'):
        if name == 'push' and bt[0] == 'pq':
            return NotImplemented
        t0 = eng.nty(real[0])
        v = A(0)
        v = conv(eng, v, et, t0)
        push(eng, loc, eng.read(loc), v)
        return None
    if name == 'emplace_back':
        if et[0] == 'rec':
            v = emplace(eng, et, real, n)
        else:
            v = construct(eng, et, real, n)
        push(eng, loc, eng.read(loc), v)
        return loc.i(z3.simplify(eng.read(loc).n - 1))
    if name == 'pop_back':
        eng.check('bounds', 'pop_back on a non-empty sequence', obj.n > 0, n)
        eng.write(loc, Vec(z3.simplify(obj.n - 1), obj.el))
        return None
    if name == 'back':
        eng.check('bounds', 'back() of a non-empty sequence', obj.n > 0, n)
        return loc.i(z3.simplify(obj.n - 1))
    if name == 'front':
        eng.check('bounds', 'front() of a non-empty sequence', obj.n > 0, n)
        return loc.i(z3.IntVal(0))
    if name == 'at':
        i = A(0)
        if not eng.decide(z3.And(i >= 0, i < obj.n)):
            from .engine import Throw
            raise Throw(Rec('std::out_of_range', {'m_code': eng.freshint('code')}), n)
        return loc.i(i)
    if name in ('operator[]',):
        i = A(0)
        if bt[0] == 'str':
            i = eng.bound(i, obj.n + 1, n)
        else:
            i = eng.bound(i, obj.n, n)
        return loc.i(i)
    if name in ('begin', 'cbegin'):
        return VIt(loc, z3.IntVal(0))
    if name in ('end', 'cend'):
        return VIt(loc, obj.n)
    if name == 'clear':
        eng.write(loc, Vec(z3.IntVal(0), obj.el))
        return None
    if name in ('data', 'c_str'):
        return Ptr(loc.i(z3.IntVal(0)), False)
    if name == 'resize':
        m = A(0)
        fill = A(1) if len(real) > 1 else eng.zero(et)
        tr(eng, 'vector::resize')
        def one(a, f):
            b2 = z3.Const(eng.freshname('rs'), a.sort())
            q = z3.Int(eng.freshname('q'))
            eng.assume(qforall([q], b2[q] == z3.If(q < obj.n, a[q], f), b2[q]))
            return b2
        eng.write(loc, Vec(m, vmap(one, obj.el, fill)))
        return None
    if name in ('append', 'operator+=') and bt[0] == 'str':
        v = A(0)
        if isinstance(v, Ptr):
            v = str_from_ptr(eng, v, A(1) if len(real) > 1 else None, n)
        elif isz(v) and len(real) == 1:
            v = Vec(z3.IntVal(1), z3.K(eng.isort, v))
        elif isz(v):
            v = Vec(v, z3.K(eng.isort, A(1)))
        v = eng.strval(v)
        eng.write(loc, concat(eng, eng.read(loc), v))
        return loc
    if name == 'insert' and len(real) == 3:
        pos, a, b2 = A(0), A(1), A(2)
        s, i = seq_of(eng, a)
        _, j = seq_of(eng, b2)
        p = pos.idx
        ln = z3.simplify(j - i)
        tr(eng, 'vector::insert(range)')
        eng.check('iter', 'valid insertion range', z3.And(i >= 0, i <= j, j <= s.n, p >= 0, p <= obj.n), n)
        def one(x, y):
            r = z3.Const(eng.freshname('ins'), x.sort())
            q = z3.Int(eng.freshname('q'))
            eng.assume(qforall([q], r[q] == z3.If(q < p, x[q], z3.If(q < p + ln, y[q - p + i], x[q - ln])), r[q]))
            return r
        eng.write(loc, Vec(z3.simplify(obj.n + ln), vmap(one, obj.el, s.el)))
        return VIt(loc, p)
    if name == 'insert' and len(real) == 2:
        pos, v = A(0), A(1)
        p = pos.idx
        eng.check('iter', 'valid insertion position', z3.And(p >= 0, p <= obj.n), n)
        tr(eng, 'vector::insert')
        def one(x, y):
            r = z3.Const(eng.freshname('ins'), x.sort())
            q = z3.Int(eng.freshname('q'))
            eng.assume(qforall([q], r[q] == z3.If(q < p, x[q], z3.If(q == p, y, x[q - 1])), r[q]))
            eng.assume(qforall([q], z3.And(z3.Implies(q < p, r[q] == x[q]), z3.Implies(q >= p, r[q + 1] == x[q])), x[q]))
            eng.assume(r[p] == y)
            return r
        eng.write(loc, Vec(z3.simplify(obj.n + 1), vmap(one, obj.el, v)))
        return VIt(loc, p)
    if name == 'erase' and len(real) == 1:
        p = A(0).idx
        eng.check('iter', 'valid erase position', z3.And(p >= 0, p < obj.n), n)
        def one(x):
            r = z3.Const(eng.freshname('er'), x.sort())
            q = z3.Int(eng.freshname('q'))
            eng.assume(qforall([q], r[q] == z3.If(q < p, x[q], x[q + 1]), r[q]))
            return r
        eng.write(loc, Vec(z3.simplify(obj.n - 1), vmap(one, obj.el)))
        return VIt(loc, p)
    if name == 'compare' and bt[0] == 'str':
        v = eng.strval(A(0))
        r = eng.freshint('cmp')
        eng.assume((r == 0) == veq(obj, v))
        return r
    if name == 'substr' and bt[0] == 'str':
        p = A(0)
        ln = A(1) if len(real) > 1 else None
        from .engine import Throw
        if not eng.decide(p <= obj.n):
            raise Throw(Rec('std::out_of_range', {'m_code': eng.freshint('code')}), n)
        rest = obj.n - p
        m = rest if ln is None else z3.If(ln < rest, ln, rest)
        return Vec(z3.simplify(m), shift_copy(eng, obj.el, p))
    if name == 'swap':
        o = eng.ev(real[0])
        x = eng.read(o)
        eng.write(o, obj)
        eng.write(loc, x)
        return None
    return NotImplemented


def emplace(eng, et, real, n):
    """T(args...) for a record: the constructor is selected by arity and argument types"""
    rec = eng.db.record(et[1])
    cands = []
    for c in rec.get('inner', ()):
        if c.get('kind') == 'CXXConstructorDecl' and len(astdb.params(c)) == len(real):
            cands.append(c)
        if c.get('kind') == 'CXXConstructorDecl' and len(astdb.params(c)) > len(real) and all((c.get('mangledName'), i) in eng.db.defaults for i in range(len(real), len(astdb.params(c)))):
            cands.append(c)
    def ok(c):
        for p, a in zip(astdb.params(c), real):
            pt, at = eng.nty(p), eng.nty(a)
            pt = pt[1] if pt[0] == 'ref' else pt
            at = at[1] if at[0] == 'ref' else at
            if (pt[0] in ('int', 'bool', 'real')) != (at[0] in ('int', 'bool', 'real')):
                return False
            if pt[0] == 'rec' and pt != at:
                return False
        return True
    cands = [c for c in cands if ok(c)]
    if len(cands) != 1:
        raise U(eng, 'emplace of ' + et[1], n)
    d = eng.db.func_of(cands[0]['id'])
    av = []
    for p, a in zip(astdb.params(d), real):
        pt = eng.nty(p)
        v = eng.rv(a)
        v = conv(eng, v, pt[1] if pt[0] == 'ref' else pt, eng.nty(a))
        av.append(eng.temp(v) if pt[0] == 'ref' else v)
    av += [None] * (len(astdb.params(d)) - len(av))
    return eng.construct(d, et[1], av, n)


def concat(eng, a, b):
    tr(eng, 'string concatenation')
    def one(x, y):
        r = z3.Const(eng.freshname('cat'), x.sort())
        q = z3.Int(eng.freshname('q'))
        eng.assume(qforall([q], r[q] == z3.If(q < a.n, x[q], y[q - a.n]), r[q]))
        return r
    nb = z3.simplify(b.n)
    if z3.is_int_value(nb) and nb.as_long() <= 8:
        el = a.el
        for i in range(nb.as_long()):
            el = vmap(lambda x, y: z3.Store(x, a.n + i, y), el, sel(b.el, z3.IntVal(i)))
        return Vec(z3.simplify(a.n + b.n), el)
    return Vec(z3.simplify(a.n + b.n), vmap(one, a.el, b.el))


def map_insert(eng, loc, k, v, n, overwrite=False):
    m = eng.read(loc)
    had = selk(m.p, k)
    if eng.decide(had):
        return Rec('pair', {'first': MIt(loc, k, z3.BoolVal(False)), 'second': z3.BoolVal(False)})
    nv = m.v if m.v is UNIT else stok(m.v, k, v)
    eng.write(loc, MapV(stok(m.p, k, z3.BoolVal(True)), nv, m.kt, m.ordered, m.cmp))
    return Rec('pair', {'first': MIt(loc, k, z3.BoolVal(False)), 'second': z3.BoolVal(True)})


def map_method(eng, name, loc, m, bt, real, A, n):
    if name in ('find', 'count', 'contains'):
        kt = eng.nty(real[0])
        k = conv(eng, A(0), m.kt, kt)
        tr(eng, 'map/set::find')
        p = selk(m.p, k)
        if name == 'find':
            return MIt(loc, k, z3.Not(p))
        return z3.If(p, z3.IntVal(1), z3.IntVal(0)) if name == 'count' else p
    if name in ('insert', 'emplace'):
        tr(eng, 'map/set::insert')
        if name == 'insert' and len(real) == 2:
            a, b = A(0), A(1)
            if isinstance(a, MIt) and isinstance(b, MIt):
                return insert_range(eng, loc, m, a, b, n)
            if isinstance(a, (VIt, Ptr)):
                raise U(eng, 'range insert', n)
            if isinstance(a, MIt):
                return map_insert(eng, loc, *split_pair(m, b), n).f['first']
        if name == 'emplace' and len(real) == 2 and m.v is not UNIT:
            return map_insert(eng, loc, conv(eng, A(0), m.kt, eng.nty(real[0])), conv(eng, A(1), bt[2], eng.nty(real[1])), n)
        v = A(0)
        if m.v is UNIT:
            return map_insert(eng, loc, conv(eng, v, m.kt, eng.nty(real[0])), None, n)
        if isinstance(v, Rec) and v.t == 'pair':
            return map_insert(eng, loc, v.f['first'], v.f['second'], n)
        raise U(eng, 'map insert', n)
    if name in ('begin', 'cbegin'):
        return bound_it(eng, loc, m, lambda j: z3.BoolVal(True), 'begin')
    if name in ('end', 'cend'):
        return MIt(loc, eng.fresh(m.kt, 'endkey'), z3.BoolVal(True))
    if name == 'upper_bound':
        k = conv(eng, A(0), m.kt, eng.nty(real[0]))
        return bound_it(eng, loc, m, lambda j: lt(eng, m, k, j), 'ub')
    if name == 'lower_bound':
        k = conv(eng, A(0), m.kt, eng.nty(real[0]))
        return bound_it(eng, loc, m, lambda j: z3.Not(lt(eng, m, j, k)), 'lb')
    if name == 'empty':
        tr(eng, 'map/set::empty')
        w = eng.fresh(m.kt, 'wit')
        e = eng.freshbool('empty')
        eng.assume(z3.Implies(e, kq(eng, m, lambda j: z3.Not(selk(m.p, j)))))
        eng.assume(z3.Implies(z3.Not(e), selk(m.p, w)))
        return e
    if name == 'size':
        s = card(m) if len(leaves(eng.build(m.kt, 'k'))) == 1 else eng.freshint('size')
        tr(eng, 'map/set::size')
        eng.assume(s >= 0)
        w = eng.fresh(m.kt, 'wit')
        eng.assume(z3.Implies(s == 0, kq(eng, m, lambda j: z3.Not(selk(m.p, j)))))
        eng.assume(z3.Implies(s > 0, selk(m.p, w)))
        # exactly one element: any two members coincide
        eng.assume(z3.Implies(s == 1, kq(eng, m, lambda j: z3.Implies(selk(m.p, j), veq(j, w)))))
        w2 = eng.fresh(m.kt, 'wit')
        eng.assume(z3.Implies(s >= 2, z3.And(selk(m.p, w2), z3.Not(veq(w, w2)))))
        return s
    if name == 'clear':
        ks = [l.sort() for l in leaves(eng.build(m.kt, 'k'))]
        from .engine import lift_k
        eng.write(loc, MapV(lift_k(z3.BoolVal(False), ks), m.v, m.kt, m.ordered, m.cmp))
        return None
    if name == 'operator[]':
        k = conv(eng, A(0), m.kt, eng.nty(real[0]))
        had = selk(m.p, k)
        dv = eng.zero(bt[2])
        nv = stok(m.v, k, ite(had, selk(m.v, k), dv))
        tr(eng, 'map::operator[]')
        eng.write(loc, MapV(stok(m.p, k, z3.BoolVal(True)), nv, m.kt, m.ordered, m.cmp))
        return loc.k(k)
    if name == 'at':
        k = conv(eng, A(0), m.kt, eng.nty(real[0]))
        if not eng.decide(selk(m.p, k)):
            from .engine import Throw
            raise Throw(Rec('std::out_of_range', {'m_code': eng.freshint('code')}), n)
        return loc.k(k)
    if name == 'erase' and len(real) == 1:
        a = A(0)
        if isinstance(a, MIt):
            eng.write(loc, MapV(stok(m.p, a.key, z3.BoolVal(False)), m.v, m.kt, m.ordered, m.cmp))
            return advance(eng, a, 1, n)
        k = conv(eng, a, m.kt, eng.nty(real[0]))
        eng.write(loc, MapV(stok(m.p, k, z3.BoolVal(False)), m.v, m.kt, m.ordered, m.cmp))
        return z3.If(selk(m.p, k), z3.IntVal(1), z3.IntVal(0))
    return NotImplemented


def split_pair(m, b):
    if m.v is UNIT:
        return b, None
    return b.f['first'], b.f['second']


def card(m):
    """number of keys"""
    return z3.Function('card.%s' % m.p.sort().domain(), m.p.sort(), z3.IntSort())(m.p)


def insert_range(eng, loc, m, a, b, n):
    """set/map insert(first,last) of a complete other container"""
    o = eng.read(a.loc)
    e = z3.simplify(b.end)
    if not z3.is_true(e):
        raise U(eng, 'partial range insert', n)
    tr(eng, 'set::insert(range)')
    k, vs = keyvars(eng, m)
    np_ = z3.Const(eng.freshname('un'), m.p.sort())
    inr = lambda k: z3.And(selk(o.p, k), z3.Not(lt(eng, o, k, a.key)) if not z3.is_false(z3.simplify(a.end)) or True else True, z3.Not(a.end))
    eng.assume(qforall(vs, selk(np_, k) == z3.Or(selk(m.p, k), inr(k)), selk(np_, k)))
    eng.assume(qforall(vs, z3.Implies(z3.Or(selk(m.p, k), inr(k)), selk(np_, k)), selk(m.p, k)))
    eng.assume(qforall(vs, z3.Implies(inr(k), selk(np_, k)), selk(o.p, k)))
    if m.v is not UNIT:
        raise U(eng, 'map range insert', n)
    if len(vs) == 1:    # a superset of the same size is the same set
        old, new = card(m), card(MapV(np_, UNIT, m.kt, m.ordered, m.cmp))
        eng.assume(new >= old)
        eng.assume(z3.Implies(new <= old, qforall(vs, z3.Implies(selk(np_, k), selk(m.p, k)), selk(np_, k))))
    eng.write(loc, MapV(np_, UNIT, m.kt, m.ordered, m.cmp))
    return None


def bitset_method(eng, name, loc, obj, bt, real, A, n):
    if name in ('test', 'operator[]'):
        i = A(0)
        if name == 'test':
            if not eng.decide(z3.And(i >= 0, i < bt[1])):
                from .engine import Throw
                raise Throw(Rec('std::out_of_range', {'m_code': eng.freshint('code')}), n)
        else:
            i = eng.bound(i, z3.IntVal(bt[1]), n)
        return z3.Select(obj, i)
    if name in ('set', 'reset'):
        tr(eng, 'bitset')
        if not real:
            eng.write(loc, z3.K(z3.IntSort(), z3.BoolVal(name == 'set')))
            return loc
        i = A(0)
        if not eng.decide(z3.And(i >= 0, i < bt[1])):
            from .engine import Throw
            raise Throw(Rec('std::out_of_range', {'m_code': eng.freshint('code')}), n)
        v = A(1) if len(real) > 1 else z3.BoolVal(name == 'set')
        eng.write(loc, z3.Store(obj, i, v))
        return loc
    if name == 'flip' and not real:
        r = z3.Const(eng.freshname('flip'), obj.sort())
        q = z3.Int(eng.freshname('q'))
        eng.assume(qforall([q], r[q] == z3.Not(obj[q]), r[q]))
        eng.write(loc, r)
        return loc
    if name == 'size':
        return z3.IntVal(bt[1])
    return NotImplemented


# ------------------------------------------------------------------ operators
def operator(eng, name, args, n):
    t0 = eng.nty(args[0])
    t0 = t0[1] if t0[0] == 'ref' else t0
    if name == 'operator=':
        tv = eng.nty(args[1])
        r = eng.ev(args[1])
        v = eng.val(r)
        moved(eng, args[1], r)
        l = eng.ev(args[0])
        if isinstance(v, StrLit) and t0[0] == 'str':
            v = eng.strval(v)
        if isinstance(v, Ptr) and t0[0] == 'str':
            v = str_from_ptr(eng, v, None, n)
        if t0[0] == 'pair' and isinstance(v, Rec) and tv[0] == 'pair':
            v = Rec('pair', {'first': conv(eng, v.f['first'], t0[1], tv[1]), 'second': conv(eng, v.f['second'], t0[2], tv[2])})
        eng.write(l, v)
        return l
    if name in ('operator->', 'operator*') and len(args) == 1:
        it = eng.rv(args[0])
        if isinstance(it, Rec) and it.t == 'uptr':
            l = eng.ev(args[0])
            l = l if isinstance(l, Loc) else eng.temp(it)
            return Ptr(l.f('*'), False) if name == 'operator->' else l.f('*')
        l = deref(eng, it, n)
        return Ptr(l, False) if name == 'operator->' else l
    if name in ('operator++', 'operator--'):
        l = eng.ev(args[0])
        it = eng.read(l)
        if isinstance(it, Ptr):
            new = eng.padd(it, 1 if name == 'operator++' else -1, n)
        else:
            new = advance(eng, it, 1 if name == 'operator++' else -1, n)
        eng.write(l, new)
        return it if len(args) > 1 else l
    if name == 'operator[]':
        l = eng.ev(args[0])
        if not isinstance(l, Loc):
            l = eng.temp(l, t0)
        if isinstance(eng.read(l), Rec) and eng.read(l).t == 'uptr':
            return l.f('*').i(eng.rv(args[1]))
        return method_on(eng, name, l, t0, args[1:], n)
    if name in ('operator+=', 'operator-=') and t0[0] == 'str':
        l = eng.ev(args[0])
        return method_on(eng, 'operator+=', l, t0, args[1:], n)
    if len(args) == 2 and t0[0] not in ('rec',):
        a, b = eng.rv(args[0]), eng.rv(args[1])
        if name in ('operator==', 'operator!='):
            r = generic_eq(eng, a, b, n)
            return r if name == 'operator==' else z3.Not(r)
        if isinstance(a, VIt) and isz(b):
            if name == 'operator+':
                return advance(eng, a, b, n)
            if name == 'operator-':
                return advance(eng, a, -b, n)
            if name in ('operator+=', 'operator-='):
                l = eng.ev(args[0])
                eng.write(l, advance(eng, a, b if name == 'operator+=' else -b, n))
                return l
        if isinstance(a, VIt) and isinstance(b, VIt):
            if name == 'operator-':
                return a.idx - b.idx
            if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
                return eng.cmp(name[8:], a.idx, b.idx, ('int', 64, True))
        if name == 'operator+' and t0[0] in ('str', 'int', 'ptr', 'carr'):
            return concat(eng, as_str(eng, a, n), as_str(eng, b, n))
        if name == 'operator<' and isinstance(a, Rec) and a.t == 'pair':
            return ltt(eng, t0, a, b)
        if name == 'operator<' and t0[0] == 'str':
            tr(eng, 'string order (uninterpreted)')
            return eng.freshbool('strlt')
    if len(args) == 2 and name in ('operator==', 'operator!='):
        a, b = eng.rv(args[0]), eng.rv(args[1])
        r = generic_eq(eng, a, b, n)
        return r if name == 'operator==' else z3.Not(r)
    h = eng.extra_operator(name, args, n) if hasattr(eng, 'extra_operator') else NotImplemented
    if h is not NotImplemented:
        return h
    raise U(eng, 'operator %s on %r' % (name, t0), n)


def as_str(eng, v, n):
    if isinstance(v, StrLit):
        return eng.strval(v)
    if isinstance(v, Vec):
        return v
    if isinstance(v, Ptr):
        return str_from_ptr(eng, v, None, n)
    if isz(v):
        return Vec(z3.IntVal(1), z3.K(eng.isort, v))
    raise U(eng, 'string operand', n)


def generic_eq(eng, a, b, n):
    if isinstance(a, (VIt, MIt)) and isinstance(b, (VIt, MIt)):
        if not sameloc(a.loc, b.loc):
            raise U(eng, 'comparison of iterators of different containers', n)
        return it_eq(a, b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return eng.ptr_binary('==', a, b, n)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return veq(as_str(eng, a, n), as_str(eng, b, n))
    if isinstance(a, (Vec, StrLit)) and isinstance(b, (Vec, StrLit)):
        return str_eq(eng, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.t == 'pair':
        return z3.And(generic_eq(eng, a.f['first'], b.f['first'], n), generic_eq(eng, a.f['second'], b.f['second'], n))
    if isz(a) and isz(b):
        return a == b
    if isinstance(a, MapV) and isinstance(b, MapV) and a.v is UNIT and b.v is UNIT:
        tr(eng, 'set::operator==')
        e, w = eng.freshbool('seteq'), eng.fresh(a.kt, 'wit')
        eng.assume(z3.Implies(e, z3.And(kq(eng, a, lambda j: z3.Implies(selk(a.p, j), selk(b.p, j))), kq(eng, b, lambda j: z3.Implies(selk(b.p, j), selk(a.p, j))))))
        eng.assume(z3.Implies(z3.Not(e), selk(a.p, w) != selk(b.p, w)))
        return e
    raise U(eng, 'equality of %r %r' % (a, b), n)


def str_eq(eng, a, b):
    if isinstance(b, StrLit) or isinstance(a, StrLit):
        if isinstance(a, StrLit):
            a, b = b, a
        if isinstance(a, StrLit):
            return z3.BoolVal(a.s == b.s)
        by = b.s.encode('latin1', 'replace')
        return z3.And([a.n == len(by)] + [a.el[i] == (c if c < 128 else c - 256) for i, c in enumerate(by)])
    e = eng.freshbool('eq')
    full = veq(a, b)
    w = eng.freshint('diff')
    eng.assume(z3.Implies(e, full))
    eng.assume(z3.Implies(z3.Not(e), z3.Or(a.n != b.n, z3.And(0 <= w, w < a.n, z3.Not(veq(sel(a.el, w), sel(b.el, w)))))))
    return e


# ------------------------------------------------------------------ free functions
def function(eng, name, args, n, d):
    real = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if name in ('move', 'forward', 'addressof') and len(real) == 1:
        v = eng.ev(real[0])
        if name == 'addressof':
            return Ptr(v, False)
        return v
    if name in ('min', 'max') and len(real) == 2:
        a, b = eng.rv(real[0]), eng.rv(real[1])
        t = eng.nty(real[0])
        t = t[1] if t[0] == 'ref' else t
        return z3.If(eng.cmp('<', b, a, t), b, a) if name == 'min' else z3.If(eng.cmp('<', a, b, t), b, a)
    if name == 'epsilon' and not real:
        tr(eng, 'numeric_limits::epsilon is a small positive real')
        eng.assume(z3.And(z3.Real('epsilon') > 0, z3.Real('epsilon') < 1))
        return z3.Real('epsilon')
    if name in ('max', 'min') and not real:
        t = eng.nty(n)
        lo, hi = eng.rng(t) if t[0] == 'int' else (None, None)
        if t[0] == 'int':
            return eng.num(hi if name == 'max' else lo, t)
        return z3.Real('float_' + name)
    if name == 'make_pair':
        t = eng.nty(n)
        a, b = eng.rv(real[0]), eng.rv(real[1])
        return Rec('pair', {'first': conv(eng, a, t[1], eng.nty(real[0])), 'second': conv(eng, b, t[2], eng.nty(real[1]))})
    if name == 'swap':
        a, b = eng.ev(real[0]), eng.ev(real[1])
        x, y = eng.read(a), eng.read(b)
        eng.write(a, y)
        eng.write(b, x)
        return None
    if name in ('lower_bound', 'upper_bound', 'binary_search', 'find') and len(real) == 3:
        a, b, x = eng.rv(real[0]), eng.rv(real[1]), eng.rv(real[2])
        return bsearch(eng, name, a, b, x, eng.nty(real[2]), n)
    if name == 'reverse' and len(real) == 2:
        a, b = eng.rv(real[0]), eng.rv(real[1])
        if isinstance(a, VIt) and isinstance(b, VIt):
            tr(eng, 'std::reverse')
            s = eng.read(a.loc)
            eng.check('iter', 'valid range of reverse', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= s.n), n)
            el = eng.fresh_like(s.el, 'reversed')
            q = z3.Int(eng.freshname('q'))
            inside = z3.And(a.idx <= q, q < b.idx)
            new, old, same = sel(el, q), sel(s.el, a.idx + b.idx - 1 - q), sel(s.el, q)
            for x, y, z in zip(leaves(new), leaves(old), leaves(same)):
                eng.assume(qforall([q], x == z3.If(inside, y, z), x))
            eng.write(a.loc, Vec(s.n, el))
            return None
    if name == 'distance' and len(real) == 2:
        a, b = eng.rv(real[0]), eng.rv(real[1])
        if isinstance(a, VIt) and isinstance(b, VIt):
            return z3.simplify(b.idx - a.idx)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return eng.ptr_binary('-', a, b, n)
        if isinstance(a, MIt) and isinstance(b, MIt):
            tr(eng, 'distance of set/map iterators (the number of elements fits into an int)')
            d = eng.freshint('distance')
            eng.assume(z3.And(d >= 0, d < 2 ** 31))
            return d
    if name in ('string_format', 'tostring', 'snprintf'):
        return eng.build(eng.nty(n), eng.freshname('msg'))
    h = eng.extra_function(name, args, n, d) if hasattr(eng, 'extra_function') else NotImplemented
    if h is not NotImplemented:
        return h
    raise U(eng, 'function %s' % name, n)


def bsearch(eng, name, a, b, x, xt, n):
    """binary and linear search in a range of a sequence of integers"""
    s, i = seq_of(eng, a)
    _, j = seq_of(eng, b)
    el = s.el
    if not (isz(el) and isz(x)):
        raise U(eng, name + ' on structured elements', n)
    tr(eng, 'std::' + name)
    loc = a.loc if isinstance(a, VIt) else None
    eng.check('iter', 'valid range of ' + name, z3.And(i >= 0, i <= j, j <= s.n), n)
    r = eng.freshint('found')
    q = z3.Int(eng.freshname('q'))
    xt = xt[1] if xt[0] == 'ref' else xt
    lt_ = lambda u, v: eng.cmp('<', u, v, xt)
    eng.assume(z3.And(i <= r, r <= j))
    if name == 'find':
        eng.assume(qforall([q], z3.Implies(z3.And(i <= q, q < r), el[q] != x), el[q]))
        eng.assume(z3.Implies(r < j, el[r] == x))
        return VIt(loc, r)
    p2 = z3.Int(eng.freshname('q'))
    eng.check('pre', 'range of %s is sorted' % name, qforall([q, p2], z3.Implies(z3.And(i <= q, q < p2, p2 < j), z3.Not(lt_(el[p2], el[q]))), el[q], el[p2]), n, assume=False)
    if name == 'upper_bound':
        eng.assume(qforall([q], z3.And(z3.Implies(z3.And(i <= q, q < r), z3.Not(lt_(x, el[q]))), z3.Implies(z3.And(r <= q, q < j), lt_(x, el[q]))), el[q]))
        eng.assume(z3.And(z3.Implies(r > i, z3.Not(lt_(x, el[r - 1]))), z3.Implies(r < j, lt_(x, el[r]))))
        return VIt(loc, r)
    eng.assume(qforall([q], z3.And(z3.Implies(z3.And(i <= q, q < r), lt_(el[q], x)), z3.Implies(z3.And(r <= q, q < j), z3.Not(lt_(el[q], x)))), el[q]))
    eng.assume(z3.And(z3.Implies(r > i, lt_(el[r - 1], x)), z3.Implies(r < j, z3.Not(lt_(el[r], x)))))
    if name == 'binary_search':
        return z3.And(r < j, z3.Not(lt_(x, el[r])))
    return VIt(loc, r)


def global_var(eng, name, n):
    if name == 'npos':
        return eng.temp(eng.num((1 << 64) - 1, ('int', 64, False)))
    return None
