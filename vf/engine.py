"""Verification-condition generator: executes the clang AST of a real function symbolically.
Loops are cut by invariants, calls to functions under contract use the contract only, other calls
are inlined from the AST.  Produces obligations (path condition => goal)."""
import time
import z3
from .astdb import *
from .ctypes_ import Types
from .values import *
from . import stl


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Throw(Exception):
    def __init__(self, val, node=None, code=None):
        self.val, self.node, self.code = val, node, code


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class MergeFail(Exception):
    pass


class Unsupported(ExtractionError):
    pass


def isz(x):
    return isinstance(x, z3.ExprRef)


class Oblig:
    __slots__ = ('kind', 'name', 'pc', 'goal', 'where', 'fn', 'inv', 'hints', 'focus')
    def __init__(self, kind, name, pc, goal, where, fn, inv=None):
        self.kind, self.name, self.pc, self.goal, self.where, self.fn, self.inv, self.hints, self.focus = kind, name, pc, goal, where, fn, inv, None, None

    def __repr__(self):
        return '%s:%s@%s' % (self.kind, self.name, self.where)


class Frame:
    def __init__(self, fn, this, uid):
        self.fn, self.this, self.uid = fn, this, uid
        self.env = {}
        self.order = []     # declared variables, in order
        self.names = {}
        self.callnode = None


class Inv:
    """tag for a path-condition entry that is a candidate loop invariant"""
    __slots__ = ('key', 'name', 'f')
    def __init__(self, key, name, f):
        self.key, self.name, self.f = key, name, f


class LoopCtx:
    """what an invariant template sees"""
    def __init__(self, eng, key, fn, node, entry_mem, mem, mods):
        self.eng, self.key, self.fn, self.node, self.entry, self.mem, self.mods = eng, key, fn, node, entry_mem, mem, mods

    def read(self, loc, mem=None):
        return self.eng.read_in(self.mem if mem is None else mem, loc)

    def locals(self):
        """(name, declid, typetuple, loc) of the variables of the current frame"""
        fr = self.eng.frames[-1]
        out = []
        for d in fr.order:
            if d in fr.env:
                l = fr.env[d]
                if isinstance(l, Loc):
                    out.append((fr.names[d], d, fr.types.get(d) if hasattr(fr, 'types') else None, l))
        return out

    def values(self, outer=False):
        """outer: also the variables of the callers of an inlined function"""
        out = []
        ls = self.locals()
        if outer:
            for k, fr in enumerate(self.eng.frames[:-1]):
                ls += [('%s^%d' % (fr.names[d], k), d, None, fr.env[d]) for d in fr.order if d in fr.env and isinstance(fr.env[d], Loc)]
        for name, d, t, l in ls:
            try:
                v = self.eng.read_in(self.mem, l)
            except Exception:
                continue
            out.append((name, v, l))
        return out

    def modified(self, loc):
        return any(m[0] == loc.root for m in self.mods)


class Engine:
    def __init__(self, db, contracts=None, mode='int', templates=None, overflow=False, noinline=(), bounds=True):
        self.zterm = []         # sequences followed by a readable terminator (root, path)
        self.db = db
        self.types = Types(db)
        self.contracts = contracts or {}
        self.mode = mode
        self.templates = templates or []
        self.overflow = overflow
        self.bounds = bounds
        self.trusted = set()
        self.inlined = set()
        self.usedcontracts = set()
        self.assumed = set()
        self.obligs = []
        self.modsets = {}
        self.paths = 0
        self.maxpaths = 4000
        self.stats = {'feas': 0}
        self.isort = z3.IntSort()
        self.recursion = {}
        self.ghosts = {}
        self.sortmemo = {}
        self.opaque_fns = {}
        self.pruneq = False
        self.discover = False
        self.splits = None
        self.target = None
        self.deadline = None
        self.feascache = {}
        self.exact64 = False    # int mode: 64 bit unsigned sums wrap around

    # ---------------------------------------------------------------- types and fresh values
    def ty(self, s):
        return self.types.parse(s)

    def nty(self, node):
        return self.ty(tyof(node))

    def leafsort(self, t):
        k = t[0]
        if k == 'int':
            return z3.BitVecSort(t[1]) if self.mode == 'bv' else z3.IntSort()
        if k == 'bool':
            return z3.BoolSort()
        if k == 'real':
            return z3.RealSort()
        if k in ('opaque', 'fn', 'void'):
            n = 'Op_' + str(t[1] if len(t) > 1 else k)
            if n not in self.sortmemo:
                self.sortmemo[n] = z3.DeclareSort(n)
            return self.sortmemo[n]
        if k == 'ptr':
            return z3.IntSort()     # pointer stored inside a container: opaque identity
        raise Unsupported('leafsort %r' % (t,))

    def build(self, t, name, dims=(), mk=None):
        """value of type t whose leaves are made by mk(sort, name)"""
        mk = mk or (lambda s, n: z3.Const(n, s))
        def leaf(s, n):
            for d in reversed(dims):
                s = z3.ArraySort(d, s)
            return mk(s, n)
        k = t[0]
        if k in ('int', 'bool', 'real', 'opaque', 'fn'):
            return leaf(self.leafsort(t), name)
        if k == 'rec':
            fs = self.db.fields(t[1])
            if fs is None:
                return leaf(self.leafsort(('opaque', t[1])), name)
            return Rec(t[1], {fn: self.build(self.ty(ft), name + '.' + fn, dims, mk) for fn, ft, _ in fs})
        if k == 'pair':
            return Rec('pair', {'first': self.build(t[1], name + '.first', dims, mk), 'second': self.build(t[2], name + '.second', dims, mk)})
        if k == 'vec':
            return Vec(leaf(self.isort, name + '.n'), self.build(t[1], name + '[]', dims + (self.isort,), mk))
        if k == 'carr':
            return Vec(leaf(self.isort, name + '.n') if t[2] is None or dims else z3.IntVal(t[2]), self.build(t[1], name + '[]', dims + (self.isort,), mk))
        if k == 'str':
            return Vec(leaf(self.isort, name + '.n'), leaf_arr(self, leaf, name, dims, mk))
        if k == 'map':
            ks = self.keysorts(t[1])
            if ks is None:
                return leaf(self.leafsort(('opaque', 'map')), name)
            p = self.build(('bool',), name + '.p', dims + tuple(ks), mk)
            v = UNIT if t[2] == ('unit',) else self.build(t[2], name + '.v', dims + tuple(ks), mk)
            return MapV(p, v, t[1], t[3], t[4])
        if k == 'uptr':
            return Rec('uptr', {'*': self.build(t[1], name + '.*', dims, mk)})
        if k == 'bitset':
            return leaf(z3.ArraySort(z3.IntSort(), z3.BoolSort()), name)
        if k == 'ptr':
            if dims:
                return leaf(z3.IntSort(), name)
            if t[1][0] in ('void', 'opaque'):
                return leaf(z3.IntSort(), name)
            r = self.newroot(name + '*', self.build(t[1], name + '*', (), mk), t[1])
            return Ptr(Loc(r), mk(z3.BoolSort(), name + '.null'))
        if k == 'ref':
            return self.build(t[1], name, dims, mk)
        if k == 'pq':
            # positions never given again: an element taken out is not live any more
            return Vec(leaf(self.isort, name + '.n'), Rec('slot', {'live': self.build(('bool',), name + '[].live', dims + (self.isort,), mk), 'v': self.build(t[1], name + '[]', dims + (self.isort,), mk)}))
        if k == 'mmap':
            return leaf(self.leafsort(('opaque', 'multimap')), name)
        if k == 'void':
            return UNIT
        raise Unsupported('build %r' % (t,))

    def keysorts(self, t):
        v = self.build(t, 'k', (), lambda s, n: z3.Const(n, s))
        try:
            ls = leaves(v)
        except Shape:
            return None
        if isinstance(v, (Vec, MapV)) or any(z3.is_array(l) for l in ls):
            return None
        return [l.sort() for l in ls]

    def setghost(self, root, val):
        """ghost state (roots 'ghost.…'): no code reads it"""
        if not (z3.is_const(val) and val.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            c = z3.Const(self.freshname(root), val.sort())
            self.assume(c == val)
            val = c
        self.mem[root] = val
        self.wlog.append((root, ()))

    def named(self, val, hint):
        c = z3.Const(self.freshname(hint), val.sort())
        self.assume(c == val)
        return c

    def freshname(self, hint):
        self.cnt += 1
        return '%s!%d' % (hint, self.cnt)

    def fresh(self, t, hint):
        return self.build(t, self.freshname(hint))

    def freshint(self, hint='i'):
        return z3.Int(self.freshname(hint))

    def freshbool(self, hint='b'):
        return z3.Bool(self.freshname(hint))

    def fresh_like(self, v, hint):
        if isinstance(v, Ptr):
            if v.loc is None:
                return v
            p = v.loc.path
            if p and p[-1][0] == 'i':
                return Ptr(Loc(v.loc.root, p[:-1] + (('i', self.freshint(hint)),)), self.freshbool(hint) if not (v.null is False) else False)
            return Ptr(v.loc, self.freshbool(hint) if not (v.null is False) else False)
        if isinstance(v, VIt):
            return VIt(v.loc, self.freshint(hint))
        if isinstance(v, MIt):
            return MIt(v.loc, vmap(lambda a: z3.Const(self.freshname(hint + '.key'), a.sort()), v.key), self.freshbool(hint + '.end'))
        if isinstance(v, Rec):
            return Rec(v.t, {k: self.fresh_like(x, hint + '.' + k) for k, x in v.f.items()})
        if isinstance(v, (Func, StrLit)):
            return v
        return vmap(lambda a: z3.Const(self.freshname(hint), a.sort()), v)

    def zero(self, t, dims=()):
        """value-initialised object"""
        k = t[0]
        def lift(x):
            for d in reversed(dims):
                x = z3.K(d, x)
            return x
        if k == 'int':
            return lift(self.num(0, t))
        if k == 'bool':
            return lift(z3.BoolVal(False))
        if k == 'real':
            return lift(z3.RealVal(0))
        if k in ('vec', 'str', 'pq'):
            et = ('int', 8, True) if k == 'str' else t[1]
            try:
                el = self.zero(et, dims + (self.isort,))
            except Unsupported:
                el = self.build(et, self.freshname('undef'), dims + (self.isort,))
            if k == 'pq':
                el = Rec('slot', {'live': self.zero(('bool',), dims + (self.isort,)), 'v': el})
            return Vec(lift(z3.IntVal(0)), el)
        if k == 'carr':
            return Vec(z3.IntVal(t[2]), self.zero(t[1], dims + (self.isort,)))
        if k == 'pair':
            return Rec('pair', {'first': self.zero(t[1], dims), 'second': self.zero(t[2], dims)})
        if k == 'rec':
            if dims:
                fs = self.db.fields(t[1])
                return Rec(t[1], {fn: self.zero(self.ty(ft), dims) for fn, ft, _ in fs})
            return self.default_rec(t[1])
        if k == 'map':
            ks = self.keysorts(t[1])
            p = lift_k(z3.BoolVal(False), list(dims) + ks)
            v = UNIT if t[2] == ('unit',) else self.build(t[2], self.freshname('undef'), dims + tuple(ks))
            return MapV(p, v, t[1], t[3], t[4])
        if k == 'bitset':
            return z3.K(z3.IntSort(), z3.BoolVal(False))
        if k == 'ptr':
            return Ptr(None, True) if not dims else lift(z3.IntVal(0))
        if k == 'uptr':
            return Rec('uptr', {'*': self.zero(t[1], dims)})
        raise Unsupported('zero %r' % (t,))

    def default_rec(self, name):
        ctors = [c for c in self.db.record(name).get('inner', ()) if c.get('kind') == 'CXXConstructorDecl']
        for c in ctors:
            d = self.db.func_of(c['id'])
            if d is not None and all((self.db.defaults.get((d.get('mangledName'), i)) is not None) for i, _ in enumerate(params(d))) and has_body(d):
                return self.construct(d, name, [None] * len(params(d)))
        fs = self.db.fields(name)
        return Rec(name, {fn: (self.build(self.ty(ft), self.freshname('undef.' + fn)) if self.ty(ft)[0] in ('int', 'real', 'bool', 'ptr', 'opaque') and not fd.get('hasInClassInitializer') else self.zero(self.ty(ft))) for fn, ft, fd in fs})

    # ---------------------------------------------------------------- numbers
    def num(self, v, t=('int', 32, True)):
        if t[0] == 'real':
            return z3.RealVal(v)
        if t[0] == 'bool':
            return z3.BoolVal(bool(v))
        if self.mode == 'bv':
            return z3.BitVecVal(v, t[1])
        n, s = t[1], t[2]
        v = int(v)
        if s and v >= (1 << (n - 1)):
            v -= (1 << n)
        return z3.IntVal(v)

    @staticmethod
    def rng(t):
        n, s = t[1], t[2]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)

    def inrange(self, x, t):
        if t[0] != 'int' or self.mode == 'bv':
            return z3.BoolVal(True)
        lo, hi = self.rng(t)
        return z3.And(x >= lo, x <= hi)

    def cast(self, x, s, t):
        if t[0] == 'bool':
            if s[0] == 'bool':
                return x
            return x != self.num(0, s)
        if s[0] == 'bool':
            return z3.If(x, self.num(1, t), self.num(0, t))
        if t[0] == 'real':
            if s[0] == 'real':
                return x
            return z3.ToReal(x) if self.mode != 'bv' else z3.ToReal(z3.BV2Int(x, s[2]))
        if s[0] == 'real':
            r = z3.ToInt(x)
            return z3.If(x >= 0, r, -z3.ToInt(-x))
        if self.mode == 'bv':
            a, b = s[1], t[1]
            if a == b:
                return x
            if b < a:
                return z3.Extract(b - 1, 0, x)
            return z3.SignExt(b - a, x) if s[2] else z3.ZeroExt(b - a, x)
        (slo, shi), (lo, hi) = self.rng(s), self.rng(t)
        if lo <= slo and shi <= hi:
            return x
        x = z3.simplify(x)
        if z3.is_int_value(x):
            v = x.as_long()
            if lo <= v <= hi:
                return x
            v %= (1 << t[1])
            if v > hi:
                v -= (1 << t[1])
            return z3.IntVal(v)
        m = 1 << t[1]
        if t[2]:
            w = (x - lo) % m + lo
        else:
            w = x % m
        conds = []
        if slo < lo:
            conds.append(x >= lo)
        if shi > hi:
            conds.append(x <= hi)
        c = z3.And(conds) if len(conds) > 1 else conds[0]
        if self.known(c):
            return x
        # 64 bit unsigned size to signed, etc.: exact wrap, guarded so that the common case stays linear
        return z3.If(c, x, w)

    def arith(self, op, a, b, t, node):
        if t[0] == 'real':
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
        if self.mode == 'bv':
            s = t[2]
            if op in ('<<', '>>') and b.size() != a.size():
                b = z3.ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else z3.Extract(a.size() - 1, 0, b)
            if op in ('<<', '>>') and self.bounds:
                self.check('shift', 'shift amount in range', z3.ULT(b, z3.BitVecVal(t[1], b.size())), node)
            if op in ('+', '-', '*') and s and self.overflow:
                x, y = z3.SignExt(t[1], a), z3.SignExt(t[1], b)
                r = {'+': x + y, '-': x - y, '*': x * y}[op]
                self.check('overflow', 'signed overflow', r == z3.SignExt(t[1], z3.Extract(t[1] - 1, 0, r)), node)
            if op in ('/', '%'):
                self.check('divzero', 'division by zero', b != 0, node)
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: (a / b if s else z3.UDiv(a, b)),
                    '%': lambda: (z3.SRem(a, b) if s else z3.URem(a, b)), '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                    '<<': lambda: a << b, '>>': lambda: (a >> b if s else z3.LShR(a, b))}[op]()
        lo, hi = self.rng(t)
        m = 1 << t[1]
        if op in ('+', '-', '*'):
            r = {'+': a + b, '-': a - b, '*': a * b}[op]
            r = z3.simplify(r)
            if t[2]:
                if self.overflow and not z3.is_int_value(r):
                    self.check('overflow', 'signed overflow', z3.And(r >= lo, r <= hi), node)
                return r
            if z3.is_int_value(r):
                return z3.IntVal(r.as_long() % m)
            if op == '-':
                return z3.If(a >= b, r, r + m)
            if op == '+':
                if t[1] == 64 and not self.exact64:
                    return r
                return z3.If(r <= hi, r, r - m)
            return r if t[1] == 64 and not self.exact64 else z3.If(r <= hi, r, r % m)
        if op in ('/', '%'):
            self.check('divzero', 'division by zero', b != 0, node)
            if not t[2]:
                return a / b if op == '/' else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), -a / -b))
            return q if op == '/' else a - q * b
        bs = z3.simplify(b)
        if op == '<<':
            if z3.is_int_value(bs):
                r = a * (1 << bs.as_long())
                return r if t[2] else r % m
            raise Unsupported('variable shift in int mode')
        if op == '>>':
            if z3.is_int_value(bs):
                return a / (1 << bs.as_long())
            raise Unsupported('variable shift in int mode')
        if op in ('&', '|', '^'):
            x, y = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(x) and z3.is_int_value(y):
                x, y = x.as_long() % m, y.as_long() % m
                v = {'&': x & y, '|': x | y, '^': x ^ y}[op]
                return z3.IntVal(v - m if t[2] and v > hi else v)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                y = z3.simplify(y)
                if z3.is_int_value(y):
                    v = y.as_long() % m
                    if v & (v + 1) == 0:
                        return x % (v + 1)
                    lb = (v & -v).bit_length() - 1
                    w = v >> lb
                    if v <= hi and w & (w + 1) == 0:      # a run of bits
                        return ((x / (1 << lb)) % (w + 1)) * (1 << lb)
        if op in ('&', '|', '^'):
            ba, bb = bit01(a), bit01(b)
            if ba is not None and bb is not None:
                return z3.If({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](ba, bb), z3.IntVal(1), z3.IntVal(0))
        n = t[1]
        x, y = z3.Int2BV(a, n), z3.Int2BV(b, n)
        r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
        return z3.BV2Int(r, t[2])

    def cmp(self, op, a, b, t):
        if self.mode == 'bv' and t[0] == 'int' and not t[2] and op in ('<', '>', '<=', '>='):
            return {'<': z3.ULT, '>': z3.UGT, '<=': z3.ULE, '>=': z3.UGE}[op](a, b)
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()

    # ---------------------------------------------------------------- memory
    def newroot(self, name, val, t=None):
        c = self.rcnt[name] = self.rcnt.get(name, 0) + 1
        r = '%s#%d' % (name, c)
        self.mem[r] = val
        if t is not None:
            self.rtype[r] = t
        return r

    def read_in(self, mem, loc):
        v = mem[loc.root]
        for p in loc.path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        if p[0] == 'f':
            if isinstance(v, Rec):
                if p[1] not in v.f:
                    raise Unsupported('no field %s in %s' % (p[1], v.t))
                return v.f[p[1]]
            raise Unsupported('field %s of %r' % (p[1], type(v)))
        if p[0] == 'i':
            if isinstance(v, Vec):
                return sel(v.el, p[1])
            if isz(v) and z3.is_array(v):
                return z3.Select(v, p[1])
            raise Unsupported('index into %r' % (v,))
        if p[0] == 'k':
            return selk(v.v, p[1])
        if p[0] == 'kv':
            return Rec('pair', {'first': p[1], 'second': selk(v.v, p[1])})
        if p[0] == 'slice':
            raise Unsupported('slice')
        raise Unsupported('path %r' % (p,))

    def read(self, loc):
        v = self.read_in(self.mem, loc)
        return v

    def write(self, loc, new):
        if self.nest:
            # side effect on an object that existed before the merged evaluation started
            if loc.root in self.nest[-1].roots:
                raise MergeFail()
        self.log(loc)
        self.mem[loc.root] = self.upd(self.mem[loc.root], loc.path, new)

    def log(self, loc):
        self.wlog.append((loc.root, tuple((p[0], p[1]) if p[0] == 'f' else (p[0],) for p in loc.path)))

    def upd(self, v, path, new):
        if not path:
            return self.conform(v, new)
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            if not isinstance(v, Rec):
                raise Unsupported('write field of %r' % (v,))
            d = dict(v.f)
            d[p[1]] = self.upd(d[p[1]], rest, new)
            return Rec(v.t, d)
        if p[0] == 'i':
            if isinstance(v, Vec):
                return Vec(v.n, sto(v.el, p[1], self.upd(sel(v.el, p[1]), rest, new)))
            return z3.Store(v, p[1], self.upd(z3.Select(v, p[1]), rest, new))
        if p[0] == 'k':
            return MapV(v.p, stok(v.v, p[1], self.upd(selk(v.v, p[1]), rest, new)), v.kt, v.ordered, v.cmp)
        raise Unsupported('write path %r' % (p,))

    def conform(self, old, new):
        if isinstance(new, StrLit):
            new = self.strval(new)
        return new

    def strval(self, s):
        if isinstance(s, StrLit):
            b = s.s.encode('latin1', 'replace')
            a = z3.K(z3.IntSort(), self.num(0, ('int', 8, True)))
            for i, ch in enumerate(b):
                a = z3.Store(a, i, self.num(ch if ch < 128 else ch - 256, ('int', 8, True)))
            return Vec(z3.IntVal(len(b)), a)
        return s

    def temp(self, val, t=None, name='tmp'):
        return Loc(self.newroot(name, val, t))

    # ---------------------------------------------------------------- path conditions, obligations
    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.guards:
            f = z3.Implies(z3.And(self.guards), f)
        if z3.is_true(f):
            return
        if self.pc and not isinstance(self.pc[-1], Inv) and any(not isinstance(g, Inv) and g.eq(f) for g in self.pc[-60:]):
            return
        self.pc.append(f)

    def where(self, node):
        if node is None:
            return '?'
        b = node.get('range', {}).get('begin', {})
        if 'file' not in b:
            b = node.get('loc', {})
        f = b.get('file', '')
        return '%s:%s' % (f.split('/')[-1] if f else '', b.get('line', '?'))

    def check(self, kind, name, goal, node, inv=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g0 = goal
        if self.guards:
            goal = z3.Implies(z3.And(self.guards), goal)
        live = self.dpos >= len(self.prefix)
        if live and not self.discover:
            fn = self.frames[-1].fn.get('vf_qual', '?') if self.frames and self.frames[-1].fn else self.tname
            self.obligs.append(Oblig(kind, name, list(self.pc), goal, self.where(node), fn, inv))
            if self.splits is not None:
                self.obligs[-1].hints = self.splits
        if assume and inv is None and not z3.is_true(goal):
            self.pc.append(goal)

    def lemma(self, name, f, node):
        key = ('lemma', self.where(node))
        self.check('lemma', name, f, node, inv=(key, name), assume=False)
        if self.guards:
            f = z3.Implies(z3.And(self.guards), f)
        self.pc.append(Inv(key, name, f))

    def feasible(self, extra):
        s = z3.Solver()
        s.set('timeout', 60)
        s.set('smt.mbqi', False)
        for f in self.pc:
            if not isinstance(f, Inv) and (self.pruneq or not has_quant(f)):
                s.add(f)
        for g in self.guards:
            s.add(g)
        s.add(extra)
        self.stats['feas'] += 1
        return s.check() != z3.unsat

    def known(self, c):
        """quick check that the quantifier-free part of the path condition implies c"""
        key = ('known', tuple(self.prefix[:self.dpos]), c.get_id(), len(self.pc), tuple(g.get_id() for g in self.guards))
        if key in self.knowncache:
            return self.knowncache[key][0]
        s = z3.Solver()
        s.set('timeout', 30)
        s.set('smt.mbqi', False)
        names = consts_of(c)
        fs = [f for f in self.pc if not isinstance(f, Inv) and not has_quant(f)] + list(self.guards)
        # only facts that share symbols with c (one step)
        for f in fs:
            if names & consts_of(f):
                s.add(f)
        s.add(z3.Not(c))
        r = s.check() == z3.unsat
        self.knowncache[key] = (r, c)
        self.stats['known'] = self.stats.get('known', 0) + 1
        return r

    def decide(self, cond, prune=True):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.nest:
            n = self.nest[-1]
            if n.pos < len(n.prefix):
                d = n.prefix[n.pos]
            else:
                d = True
                n.prefix.append(True)
                n.work.append(n.prefix[:n.pos] + [False])
                if len(n.work) > 24 or len(n.prefix) > 40:
                    raise MergeFail()
            n.pos += 1
            self.guards.append(cond if d else z3.Not(cond))
            return d
        if self.dpos < len(self.prefix):
            d = self.prefix[self.dpos]
        else:
            ck = tuple(self.prefix[:self.dpos])
            if ck in self.feascache:
                t, f = self.feascache[ck]
            else:
                t = self.feasible(cond)
                f = self.feasible(z3.Not(cond)) if t else True
                self.feascache[ck] = (t, f)
            d = t
            if t and f:
                self.work.append(self.prefix[:self.dpos] + [False])
            self.prefix = self.prefix[:self.dpos] + [d]
        self.dpos += 1
        self.pc.append(cond if d else z3.Not(cond))
        return d

    def merge_eval(self, thunk):
        """evaluates thunk on all its branches and merges the results (pure computations only)"""
        class N:
            pass
        work = [[]]
        res = []
        mem0 = dict(self.mem)
        pc0, ob0, g0, nest0, w0 = len(self.pc), len(self.obligs), len(self.guards), len(self.nest), len(self.wlog)
        roots = set(mem0)
        try:
            while work:
                n = N()
                n.prefix, n.pos, n.work, n.roots = list(work.pop()), 0, work, roots
                self.nest.append(n)
                fr = len(self.frames)
                try:
                    v = thunk()
                    if isinstance(v, Loc):
                        if v.root not in roots:
                            v = ('tmp', self.read(v))
                    res.append((list(self.guards[g0:]), v))
                finally:
                    self.nest.pop()
                    del self.guards[g0:]
                    del self.frames[fr:]
                if len(res) > 24:
                    raise MergeFail()
            if len(res) == 1:
                v = res[0][1]
                return self.temp(v[1]) if isinstance(v, tuple) else v
            vals = [r[1] for r in res]
            if any(isinstance(v, Loc) for v in vals):
                if all(isinstance(v, Loc) and sameloc(v, vals[0]) for v in vals):
                    return vals[0]
                # different locations: only safe to merge by value when a const result is wanted
                raise MergeFail()
            if all(v is None for v in vals):
                return None
            tmp = isinstance(vals[0], tuple)
            vals = [v[1] if isinstance(v, tuple) else v for v in vals]
            out = vals[-1]
            for (g, _), v in list(zip(res, vals))[-2::-1]:
                out = ite(z3.And(g) if g else z3.BoolVal(True), v, out)
            return self.temp(out) if tmp else out
        except (MergeFail, Throw, Brk, Cont, PathEnd, Shape) as e:
            self.mem = mem0
            del self.pc[pc0:]
            del self.obligs[ob0:]
            del self.guards[g0:]
            del self.nest[nest0:]
            del self.wlog[w0:]
            raise MergeFail()

    def try_merge(self, thunk):
        """thunk() merged if possible, else executed with forking"""
        if self.nest:
            return thunk()
        try:
            return self.merge_eval(thunk)
        except MergeFail:
            return thunk()

    # ---------------------------------------------------------------- exploration
    def explore(self, name, setup):
        """setup(self) runs one symbolic execution of the target (calls self.call etc.)"""
        self.tname = name
        self.memo = {}
        self.feascache = {}
        self.knowncache = {}
        self.precache = {}
        for self.discover in (True, False):
            for rnd in range(12):
                before = {k: frozenset(v) for k, v in self.modsets.items()}
                self.grown = False
                self.explore_once(name, setup)
                if not self.grown:
                    break
                self.memo = {}
                self.feascache = {}
            else:
                raise Unsupported('loop frame inference does not converge')
        return self.obligs

    def explore_once(self, name, setup):
        from . import solve
        self.obligs = []
        self.paths = 0
        self.work = [[]]
        while self.work:
            self.prefix = self.work.pop()
            self.dpos = 0
            self.mem = {}
            self.rtype = {}
            self.pc = []
            self.cnt = 0
            self.rcnt = {}
            self.guards = []
            self.nest = []
            self.frames = []
            self.wlog = []
            self.loopocc = {}
            self.depth = 0
            self.ghosts = {}
            self.pqtop = {}
            self.paths += 1
            if self.paths > self.maxpaths:
                raise Unsupported('too many paths in ' + name)
            if (self.deadline and time.time() > self.deadline) or (solve.DEADLINE[0] and time.time() > solve.DEADLINE[0] + 20):
                raise Unsupported('exploration budget exceeded in ' + name)
            try:
                setup(self)
            except PathEnd:
                pass
            except MergeFail:
                raise Unsupported('internal: merge failure escaped')

    # ---------------------------------------------------------------- functions
    def contract_for(self, fn):
        return self.contracts.get(fn.get('mangledName')) or self.contracts.get(canon(fn['vf_qual']) + '/%d' % len(params(fn)))

    def call(self, fn, this, args, node=None, inline=False):
        """fn: definition node; this: Loc or None; args: list of Loc (references) or values; None = default argument"""
        q = fn['vf_qual']
        c = None if inline else self.contract_for(fn)
        if c is not None:
            self.usedcontracts.add(c.name)
            args = self.fill_defaults(fn, args)
            return c.apply(self, fn, this, args, node)
        b = body(fn)
        if b is None:
            raise Unsupported('no body for ' + q)
        if not inline:
            self.inlined.add(q)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth (recursion without contract) at ' + q)
        try:
            if not inline and not self.nest and not contains_loop(b) and not has_throw(b):
                return self.try_merge(lambda: self.run(fn, this, args, node))
            return self.run(fn, this, args, node)
        finally:
            self.depth -= 1

    def fill_defaults(self, fn, args):
        out = []
        for i, a in enumerate(args):
            if a is None:
                e = self.db.defaults.get((fn.get('mangledName'), i))
                if e is None:
                    raise Unsupported('default argument of ' + fn['vf_qual'])
                p = params(fn)[i]
                t = self.nty(p)
                v = self.ev(e)
                if t[0] != 'ref':
                    v = self.val(v)
                elif not isinstance(v, Loc):
                    v = self.temp(v, t[1])
                a = v
            out.append(a)
        return out

    def run(self, fn, this, args, node=None):
        self.cnt += 1
        fr = Frame(fn, this, self.cnt)
        fr.callnode = node
        fr.types = {}
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            args = self.fill_defaults(fn, args)
            for p, a in zip(params(fn), args):
                t = self.nty(p)
                self.bind(p, t, a)
            noexc = 'noexcept' in tyof_q(fn)
            try:
                self.exec(body(fn))
                return None
            except Ret as r:
                return r.val
            except Throw as t:
                if noexc:
                    self.frames_at(depth)
                    self.check('noexcept', 'no exception escapes a noexcept function', False, node or fn)
                    raise PathEnd()
                raise
        finally:
            del self.frames[depth - 1:]

    def frames_at(self, d):
        pass

    def bind(self, p, t, a):
        fr = self.frames[-1]
        nm = p.get('name', '_')
        if t[0] == 'ref':
            if not isinstance(a, Loc):
                a = self.temp(a, t[1], nm)
            fr.env[p['id']] = a
        else:
            if isinstance(a, Loc):
                a = self.read(a)
            if isinstance(a, StrLit) and t[0] == 'str':
                a = self.strval(a)
            fr.env[p['id']] = Loc(self.newroot(nm, a, t))
        fr.names[p['id']] = nm
        fr.types[p['id']] = t
        fr.order.append(p['id'])

    def lookup(self, did):
        for fr in reversed(self.frames):
            if did in fr.env:
                return fr.env[did]
        return None

    # ---------------------------------------------------------------- statements
    def exec(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + (k or 'None'), None)
        if m is None:
            if 'valueCategory' in n or k == 'ExprWithCleanups':
                self.ev(n)
                return
            raise Unsupported('statement ' + str(k) + ' at ' + self.where(n))
        m(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            self.exec(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.get('inner', ()):
            if c.get('kind') == 'VarDecl':
                self.declare(c)
            elif c.get('kind') in ('CXXRecordDecl', 'TypedefDecl', 'TypeAliasDecl', 'EnumDecl', 'StaticAssertDecl', 'UsingDecl'):
                pass
            elif c.get('kind') == 'DecompositionDecl':
                raise Unsupported('structured binding at ' + self.where(n))
            else:
                raise Unsupported('declaration ' + str(c.get('kind')))

    def declare(self, c):
        fr = self.frames[-1]
        t = self.nty(c)
        nm = c.get('name', '_')
        init = [x for x in c.get('inner', ()) if isinstance(x, dict) and 'kind' in x and not x['kind'].endswith('Attr')]
        if c.get('storageClass') == 'static' and not (init and tyof(c).startswith('const')):
            pass
        if t[0] == 'ref':
            v = self.ev(init[0])
            if not isinstance(v, Loc):
                v = self.temp(v, t[1], nm)
            fr.env[c['id']] = v
        else:
            if init:
                v = self.val(self.ev(init[0]))
                if isinstance(v, StrLit) and t[0] in ('str', 'carr'):
                    v = self.strval(v)
            else:
                v = self.uninit(t, nm)
            fr.env[c['id']] = Loc(self.newroot(nm, v, t))
        fr.names[c['id']] = nm
        fr.types[c['id']] = t
        if c['id'] not in fr.order:
            fr.order.append(c['id'])

    def uninit(self, t, nm):
        if t[0] in ('int', 'bool', 'real', 'opaque'):
            return self.fresh(t, nm + '.uninit')
        if t[0] == 'ptr':
            return Ptr(None, True)
        if t[0] == 'carr':
            return self.build(t, self.freshname(nm))
        return self.zero(t)

    def s_GCCAsmStmt(self, n):
        """the instruction bsr (bit scan reverse) of one register into another; nothing else is known"""
        import re
        b, e = n['range']['begin'], n['range']['end']
        try:
            with open(b.get('file') or self.lastfile, 'rb') as h:
                txt = h.read()[b['offset']:e['offset'] + e.get('tokLen', 1)].decode('latin1')
        except (KeyError, OSError, AttributeError, TypeError):
            raise Unsupported('assembler statement at ' + self.where(n))
        if not re.match(r'asm\s*\(\s*"\s*bsr[l]?\s+%1,\s*%0\s*(\\n)?\s*"\s*:\s*"=r"\s*\(\s*\w+\s*\)\s*:\s*"r"\s*\(\s*\w+\s*\)\s*\)$', txt) or self.mode != 'bv':
            raise Unsupported('assembler statement at ' + self.where(n))
        out, inp = [c for c in n['inner'] if c.get('kind') not in ('StringLiteral',)][-2:]
        l, v = self.ev(out), self.rv(inp)
        self.trusted.add('the processor instruction bsr')
        self.check('pre', 'bsr of a value that is not zero', v != 0, n)
        r = z3.BitVecVal(0, v.size())
        for k in range(v.size()):
            r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k, v.size()), r)
        self.write(l, r)

    def s_ReturnStmt(self, n):
        inner = n.get('inner', ())
        if not inner:
            raise Ret(None)
        v = self.ev(inner[0])
        fn = self.frames[-1].fn
        rt = ret_type(fn) if fn else None
        isref = rt is not None and self.ty(rt)[0] == 'ref'
        if not isref:
            v = self.val(v)
            if isinstance(v, StrLit) and rt is not None and self.ty(rt)[0] == 'str':
                v = self.strval(v)
        raise Ret(v)

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'):
            self.exec(inner.pop(0))
        if n.get('hasVar'):
            self.exec(inner.pop(0))
        c = self.cond(inner[0])
        if self.decide(c):
            self.exec(inner[1])
        elif len(inner) > 2:
            self.exec(inner[2])

    def cond(self, e):
        v = self.val(self.ev(e))
        if isinstance(v, Ptr):
            return z3.Not(v.null) if isz(v.null) else (not v.null)
        if isz(v) and not z3.is_bool(v):
            return v != 0
        return v

    def s_WhileStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        self.loop(n, lambda: self.cond(inner[0]), inner[1], None, False)

    def s_DoStmt(self, n):
        # do B while (c): first iteration unrolled, then while (c) B
        b, c = n['inner'][0], n['inner'][1]
        try:
            self.exec(b)
        except Cont:
            pass
        except Brk:
            return
        if z3_false(self.peek_const(c)):
            return
        self.loop(n, lambda: self.cond(c), b, None, True)

    def peek_const(self, c):
        v = find_const(c) if c.get('kind') in ('IntegerLiteral', 'ConstantExpr') else None
        if c.get('kind') == 'CXXBoolLiteralExpr':
            return c.get('value')
        if c.get('kind') == 'ImplicitCastExpr':
            return self.peek_const(c['inner'][0])
        return v

    def s_ForStmt(self, n):
        init, condvar, cnd, inc, bdy = n['inner']
        if init and init.get('kind'):
            self.exec(init)
        self.loop(n, (lambda: self.cond(cnd)) if cnd and cnd.get('kind') else (lambda: True), bdy, inc if inc and inc.get('kind') else None, False)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        init, rng, beg, end, cnd, inc, var, bdy = inner
        if init and init.get('kind'):
            self.exec(init)
        self.exec(rng)
        self.exec(beg)
        self.exec(end)
        def b():
            self.exec(var)
            self.exec(bdy)
        self.loop(n, lambda: self.cond(cnd), b, inc, False)

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        e, b = inner[-2], inner[-1]
        for c in inner[:-2]:
            self.exec(c)
        v = self.val(self.ev(e))
        flat = []
        def add(s):
            if s.get('kind') == 'CaseStmt':
                flat.append(('case', self.caseval(s['inner'][0])))
                add(s['inner'][-1])
            elif s.get('kind') == 'DefaultStmt':
                flat.append(('default',))
                add(s['inner'][0])
            else:
                flat.append(('stmt', s))
        for s in b.get('inner', ()):
            add(s)
        pos = None
        t = self.nty(e)
        for i, s in enumerate(flat):
            if s[0] == 'case' and self.decide(v == self.num(s[1], t)):
                pos = i
                break
        if pos is None:
            for i, s in enumerate(flat):
                if s[0] == 'default':
                    pos = i
        if pos is None:
            return
        try:
            for s in flat[pos:]:
                if s[0] == 'stmt':
                    self.exec(s[1])
        except Brk:
            pass

    def caseval(self, e):
        if 'value' in e and e['kind'] == 'ConstantExpr':
            return int(e['value'])
        v = z3.simplify(self.val(self.ev(e)))
        return v.as_long()

    def s_CXXTryStmt(self, n):
        inner = n['inner']
        try:
            self.exec(inner[0])
        except Throw as t:
            for c in inner[1:]:
                if c.get('kind') == 'CXXCatchStmt':
                    ci = c['inner']
                    if ci and ci[0].get('kind') == 'VarDecl':
                        vt = self.nty(ci[0])
                        bt = vt[1] if vt[0] == 'ref' else vt
                        if self.catches(bt, t):
                            self.frames[-1].env[ci[0]['id']] = self.temp(t.val)
                            self.frames[-1].names[ci[0]['id']] = ci[0].get('name', '_')
                            self.exec(ci[-1])
                            return
                    else:
                        self.exec(ci[-1])
                        return
            raise

    def catches(self, t, thr):
        tn = thr.val.t if isinstance(thr.val, Rec) else None
        if t[0] == 'rec' and t[1] == tn:
            return True
        if t[0] == 'opaque' and tn is not None and tn != 'mewa::Error':
            return True
        if t[0] == 'opaque' and t[1] in ('std::exception', 'std::runtime_error') and tn == 'mewa::Error':
            return True
        return False

    # ---------------------------------------------------------------- loops
    def loopkey(self, n):
        ks = tuple((fr.callnode or {}).get('id', '') for fr in self.frames)
        k = (ks, n['id'])
        occ = self.loopocc.get(k, 0)
        self.loopocc[k] = occ + 1
        return k + (occ,)

    def havoc(self, mods, hint='h'):
        for root, path in sorted(mods, key=repr):
            if root not in self.mem:
                continue
            self.wlog.append((root, path))
            self.mem[root] = self.havoc_path(self.mem[root], path, root.split('#')[0])

    def havoc_path(self, v, path, hint):
        if not path:
            return self.fresh_like(v, hint)
        p, rest = path[0], path[1:]
        if p[0] == 'f':
            if not isinstance(v, Rec) or p[1] not in v.f:
                raise Unsupported('havoc field')
            d = dict(v.f)
            d[p[1]] = self.havoc_path(d[p[1]], rest, hint + '.' + p[1])
            return Rec(v.t, d)
        if p[0] == 'i':
            if isinstance(v, Vec):
                return Vec(v.n, self.havoc_path(v.el, rest, hint + '[]'))
            return self.fresh_like(v, hint)
        if p[0] == 'k':
            return MapV(v.p, self.havoc_path(v.v, rest, hint + '{}'), v.kt, v.ordered, v.cmp)
        raise Unsupported('havoc path %r' % (p,))

    @staticmethod
    def minimize(mods):
        out = set()
        for r, p in mods:
            if not any((r, p[:i]) in mods for i in range(len(p))):
                out.add((r, p))
        return out

    def invs(self, key, node, entry, mods):
        """list of (name, formula) for the current memory"""
        if self.discover:
            return []
        mk = (key, tuple(self.prefix[:self.dpos]), len(self.pc), self.cnt)
        r = self.memo.get(mk)
        if r is None:
            c0 = self.cnt
            r = self.memo[mk] = self.invs_(key, node, entry, mods)
            self.cnt = c0
        return r

    def invs_(self, key, node, entry, mods):
        ctx = LoopCtx(self, key, self.frames[-1].fn, node, entry, self.mem, mods)
        out = []
        for name, v, l in ctx.values():
            if not ctx.modified(l):
                continue
            if isinstance(v, MIt):
                m = self.read(v.loc)
                if isinstance(m, MapV):
                    out.append(('it-valid:' + name, z3.Or(v.end, selk(m.p, v.key))))
            if isinstance(v, VIt):
                m = self.read(v.loc)
                if isinstance(m, Vec):
                    out.append(('vit-range:' + name, z3.And(v.idx >= 0, v.idx <= m.n)))
        for t in self.templates:
            for nm, f in t(ctx):
                if isinstance(f, bool):
                    f = z3.BoolVal(f)
                out.append((nm, f))
        seen = {}
        for i, (nm, f) in enumerate(out):
            # one name, one candidate
            k = seen[nm] = seen.get(nm, 0) + 1
            if k > 1:
                out[i] = ('%s #%d' % (nm, k), f)
        return out

    def loop(self, n, cond, bdy, inc, isdo):
        if self.nest:
            raise MergeFail()
        key = self.loopkey(n)
        roots = set(self.mem)
        mods = self.modsets.setdefault(key, set())
        entry = dict(self.mem)
        if self.dpos >= len(self.prefix):
            for nm, f in self.invs(key, n, entry, mods):
                self.check('inv-init', nm, f, n, inv=(key, nm), assume=False)
        self.havoc(self.minimize(mods))
        mark = len(self.wlog)
        for nm, f in self.invs(key, n, entry, mods):
            self.pc.append(Inv(key, nm, f))
        for fact in self.typefacts(mods):
            self.pc.append(fact)
        c = cond()
        if not self.decide(c):
            return
        try:
            if callable(bdy):
                bdy()
            else:
                self.exec(bdy)
        except Cont:
            pass
        except Brk:
            return
        if inc is not None:
            self.ev(inc)
        new = set((r, p) for r, p in self.wlog[mark:] if r in roots)
        new = self.minimize(new | mods)
        if not all(any((r, p[:i]) in mods for i in range(len(p) + 1)) for r, p in new):
            self.modsets[key] = mods | new
            self.grown = True
            raise PathEnd()
        for nm, f in self.invs(key, n, entry, mods):
            self.check('inv-pres', nm, f, n, inv=(key, nm), assume=False)
        raise PathEnd()

    def typefacts(self, mods):
        out = []
        for r, p in mods:
            t = self.rtype.get(r)
            v = self.mem.get(r)
            if t is not None and t[0] == 'int' and not p and isz(v) and self.mode != 'bv':
                out.append(self.inrange(v, t))
            for l in self.lens(v):
                out.append(z3.And(l >= 0, l < (1 << 31)))
        return out

    def lens(self, v):
        out = []
        if isinstance(v, Vec):
            if not z3.is_array(v.n) and not z3.is_int_value(v.n):
                out.append(v.n)
        if isinstance(v, Rec):
            for x in v.f.values():
                out += self.lens(x)
        return out

    # ---------------------------------------------------------------- expressions
    def val(self, v):
        if isinstance(v, Loc):
            return self.read(v)
        return v

    def rv(self, n):
        return self.val(self.ev(n))

    def ev(self, n):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression ' + n['kind'] + ' at ' + self.where(n))
        return m(n)

    def e_pass(self, n):
        return self.ev(n['inner'][0])

    e_ParenExpr = e_pass
    e_ExprWithCleanups = e_pass
    e_CXXBindTemporaryExpr = e_pass
    e_SubstNonTypeTemplateParmExpr = e_pass

    def e_ConstantExpr(self, n):
        return self.ev(n['inner'][0])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, Loc):
            return v
        return self.temp(v, self.nty(n))

    def e_IntegerLiteral(self, n):
        return self.num(int(n['value']), self.nty(n))

    def e_CharacterLiteral(self, n):
        return self.num(int(n['value']), self.nty(n))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_FloatingLiteral(self, n):
        return z3.RealVal(n['value'])

    def e_StringLiteral(self, n):
        s = n['value']
        import ast as _a
        try:
            s = _a.literal_eval(s)
        except Exception:
            s = s.strip('"')
        return StrLit(s)

    def e_PredefinedExpr(self, n):
        return StrLit('fn')

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None, True)

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(self.nty(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, n):
        return Ptr(self.this(), False)

    def this(self):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return fr.this
        raise Unsupported('this')

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k == 'EnumConstantDecl':
            if d['id'] in self.db.enumconst:
                return self.num(self.db.enumconst[d['id']], self.nty_int(n))
            raise Unsupported('enum constant ' + d.get('name', ''))
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            l = self.lookup(d['id'])
            if l is not None:
                return l
            g = self.db.globalvars.get(d['id']) or self.db.byid.get(d['id'])
            if g is not None:
                init = [x for x in g.get('inner', ()) if isinstance(x, dict) and x.get('kind') and not x['kind'].endswith('Attr')]
                if init:
                    t = self.nty(g)
                    v = self.rv(init[0])
                    return self.temp(v, t, g.get('name', 'g'))
            r = stl.global_var(self, d.get('name'), n)
            if r is not None:
                return r
            raise Unsupported('variable ' + d.get('name', '') + ' at ' + self.where(n))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return Func(d)
        raise Unsupported('DeclRef ' + k)

    def nty_int(self, n):
        t = self.nty(n)
        return t if t[0] == 'int' else ('int', 32, True)

    def e_MemberExpr(self, n):
        b = n['inner'][0]
        nm = n.get('name')
        if n.get('isArrow'):
            p = self.rv(b)
            if isinstance(p, (VIt, MIt)):
                base = stl.deref(self, p, n)
            else:
                base = self.deref(p, n)
        else:
            base = self.ev(b)
            if not isinstance(base, Loc):
                base = self.temp(base, self.nty(b))
        d = self.db.byid.get(n.get('referencedMemberDecl'))
        if d is not None and d.get('kind') == 'VarDecl':
            init = [x for x in d.get('inner', ()) if x.get('kind')]
            return self.temp(self.rv(init[0]), self.nty(d))
        if d is not None and d.get('kind') == 'EnumConstantDecl':
            return self.num(self.db.enumconst[d['id']], self.nty_int(n))
        return self.field(base, nm, n)

    def field(self, base, nm, n):
        if base.path and base.path[-1][0] == 'kv':
            key = base.path[-1][1]
            if nm == 'first':
                return self.temp(key)
            return Loc(base.root, base.path[:-1] + (('k', key),))
        l = base.f(nm)
        v = self.read(base)
        if isinstance(v, Rec) and nm in v.f and isinstance(v.f[nm], Loc):
            return v.f[nm]      # reference member
        return l

    def deref(self, p, n):
        if isinstance(p, Ptr):
            if p.loc is None:
                self.check('null', 'null pointer dereference', False, n)
                raise PathEnd()
            if p.null is not False:
                self.check('null', 'pointer not null', z3.Not(p.null) if isz(p.null) else (not p.null), n)
            self.check_ptr_bounds(p.loc, n)
            return p.loc
        if isinstance(p, (VIt, MIt)):
            return stl.deref(self, p, n)
        raise Unsupported('dereference of %r at %s' % (p, self.where(n)))

    def check_ptr_bounds(self, loc, n):
        if self.bounds and loc.path and loc.path[-1][0] == 'i':
            base = self.read(Loc(loc.root, loc.path[:-1]))
            if isinstance(base, Vec):
                i = loc.path[-1][1]
                zt = any(r == loc.root and samepath(p, loc.path[:-1]) for r, p in self.zterm)
                self.check('bounds', 'pointer within array', z3.And(i >= 0, i <= base.n if zt else i < base.n), n)

    def e_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        p = self.rv_arr(a)
        i = self.rv(b)
        if isinstance(p, StrLit):
            p = Ptr(self.temp(self.cstr(p)).i(z3.IntVal(0)))
        if isinstance(p, Ptr):
            return self.deref(self.padd(p, i, n), n)
        if isinstance(p, Loc):
            v = self.read(p)
            if isinstance(v, Vec):
                i = self.bound(i, v.n, n)
                return p.i(i)
        raise Unsupported('subscript at ' + self.where(n))

    def cstr(self, s):
        v = self.strval(s)
        return Vec(z3.simplify(v.n + 1), v.el)

    def bound(self, i, n, node):
        """checks 0 <= i < n and returns the index (without a wrap-around that the check excludes)"""
        j = unwrap(i)
        if self.bounds:
            self.check('bounds', 'index within bounds', z3.And(j >= 0, j < n), node)
            return j
        return i

    def padd(self, p, i, n):
        if p.loc is None:
            raise Unsupported('arithmetic on null pointer')
        path = p.loc.path
        if path and path[-1][0] == 'i':
            return Ptr(Loc(p.loc.root, path[:-1] + (('i', z3.simplify(path[-1][1] + i)),)), p.null)
        raise Unsupported('pointer arithmetic at ' + self.where(n))

    def rv_arr(self, n):
        # array-to-pointer decay kept as location
        v = self.ev(n)
        return v if not isinstance(v, Loc) else self.read(v)

    # casts
    def e_ImplicitCastExpr(self, n):
        return self.do_cast(n, n['castKind'])

    def e_CStyleCastExpr(self, n):
        return self.do_cast(n, n['castKind'])

    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXFunctionalCastExpr = e_CStyleCastExpr
    e_CXXConstCastExpr = e_CStyleCastExpr
    e_CXXReinterpretCastExpr = e_CStyleCastExpr

    def do_cast(self, n, ck):
        s = n['inner'][0]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return self.ev(s)
        if ck == 'LValueToRValue':
            v = self.ev(s)
            if isinstance(v, Loc):
                if v.path:
                    r = self.read(v)
                    t = self.nty(n)
                    if t[0] == 'int' and isz(r) and self.mode != 'bv' and not z3.is_int_value(r) and r.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                        self.assume(self.inrange(r, t))
                    return r
                return self.read(v)
            return v
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(s)
            if not isz(v):
                raise Unsupported('cast of %r' % (v,))
            return self.cast(v, self.nty(s), self.nty(n))
        if ck == 'NullToPointer':
            if self.nty(n)[0] == 'int':
                return self.num(0, self.nty(n))
            return Ptr(None, True)
        if self.types.addr and ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral'):
            v = self.rv(s)
            if isz(v) and self.nty(n)[0] == 'int' and self.nty(s)[0] == 'int':
                return self.cast(v, self.nty(s), self.nty(n))
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(s)
            if isinstance(v, Loc):
                return Ptr(v.i(z3.IntVal(0)), False)
            if isinstance(v, StrLit):
                return v
            raise Unsupported('array decay')
        if ck == 'PointerToBoolean':
            v = self.rv(s)
            if isinstance(v, Ptr):
                return z3.Not(v.null) if isz(v.null) else z3.BoolVal(not v.null)
            if isz(v):
                return v != 0
        if ck == 'ToVoid':
            self.ev(s)
            return None
        if ck == 'BitCast':
            return self.ev(s)
        raise Unsupported('cast ' + ck + ' at ' + self.where(n))

    # operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        s = n['inner'][0]
        t = self.nty(n)
        if op == '&':
            v = self.ev(s)
            if isinstance(v, Loc):
                return Ptr(v, False)
            if isinstance(v, Func):
                return v
            raise Unsupported('address of at ' + self.where(n))
        if op == '*':
            return self.deref(self.rv(s), n)
        if op in ('++', '--'):
            l = self.ev(s)
            v = self.read(l)
            if isinstance(v, Ptr):
                new = self.padd(v, 1 if op == '++' else -1, n)
            elif isinstance(v, (VIt, MIt)):
                new = stl.advance(self, v, 1 if op == '++' else -1, n)
            else:
                lt = self.nty(s)
                new = self.arith('+' if op == '++' else '-', v, self.num(1, lt), lt, n)
            self.write(l, new)
            return v if n.get('isPostfix') else l
        v = self.rv(s)
        if op == '!':
            if isinstance(v, Ptr):
                return v.null if isz(v.null) else z3.BoolVal(v.null)
            return z3.Not(v) if z3.is_bool(v) else v == 0
        if op == '-':
            if t[0] == 'real':
                return -v
            return self.arith('-', self.num(0, t), v, t, n)
        if op == '+':
            return v
        if op == '~':
            if self.mode == 'bv':
                return ~v
            return -1 - v if t[2] else self.rng(t)[1] - v
        raise Unsupported('unary ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            r = self.rv(b)
            l = self.ev(a)
            if isinstance(r, StrLit):
                pass
            self.write(l, r)
            return l
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            va = self.cond(a)
            if isinstance(va, bool):
                va = z3.BoolVal(va)
            va = z3.simplify(va)
            if z3.is_true(va) or z3.is_false(va):
                if z3.is_true(va) == (op == '&&'):
                    vb = self.cond(b)
                    return vb if isz(vb) else z3.BoolVal(vb)
                return va
            g = va if op == '&&' else z3.Not(va)
            def rhs():
                x = self.cond(b)
                return x if isz(x) else z3.BoolVal(x)
            gl = len(self.guards)
            try:
                self.guards.append(g)
                try:
                    vb = self.merge_eval(rhs)
                finally:
                    del self.guards[gl:]
                return z3.And(va, vb) if op == '&&' else z3.Or(va, vb)
            except MergeFail:
                if self.nest:
                    raise
            if self.decide(va) == (op == '&&'):
                return rhs()
            return z3.BoolVal(op != '&&')
        va, vb = self.rv(a), self.rv(b)
        return self.binary(op, va, vb, a, b, n)

    def binary(self, op, va, vb, a, b, n):
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            return self.ptr_binary(op, va, vb, n)
        if isinstance(va, StrLit) or isinstance(vb, StrLit):
            raise Unsupported('string literal operator at ' + self.where(n))
        if isinstance(va, VIt) and isinstance(vb, VIt) and op in ('<', '>', '<=', '>=', '-', '==', '!='):
            # pointers into a sequence
            if not sameloc(va.loc, vb.loc):
                raise Unsupported('pointers into different sequences at ' + self.where(n))
            if op == '-':
                return z3.simplify(va.idx - vb.idx)
            return self.cmp(op, va.idx, vb.idx, ('int', 64, True))
        if isinstance(va, VIt) and isz(vb) and op in ('+', '-'):
            return stl.advance(self, va, vb if op == '+' else -vb, n)
        if not isz(va) or not isz(vb):
            raise Unsupported('operands of %s at %s' % (op, self.where(n)))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.cmp(op, va, vb, self.nty(a))
        t = self.nty(n)
        if self.mode == 'bv' and self.types.addr and op not in ('<<', '>>') and va.size() != vb.size():
            # address plus offset
            ta, tb = self.nty(a), self.nty(b)
            va = va if va.size() == t[1] else self.cast(va, ta, t)
            vb = vb if vb.size() == t[1] else self.cast(vb, tb, t)
        return self.arith(op, va, vb, t, n)

    def ptr_binary(self, op, a, b, n):
        if op in ('+', '-') and isinstance(a, Ptr) and isz(b):
            return self.padd(a, b if op == '+' else -b, n)
        if op == '+' and isinstance(b, Ptr) and isz(a):
            return self.padd(b, a, n)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            an = a.null if isz(a.null) else z3.BoolVal(a.null)
            bn = b.null if isz(b.null) else z3.BoolVal(b.null)
            if op in ('==', '!='):
                if a.loc is None or b.loc is None:
                    e = an == bn if (a.loc is None and b.loc is None) else (an if b.loc is None else bn)
                    e = z3.BoolVal(True) if (a.loc is None and b.loc is None) else e
                else:
                    same = self.ptr_same(a.loc, b.loc, n)
                    e = z3.Or(z3.And(an, bn), z3.And(z3.Not(an), z3.Not(bn), same))
                return e if op == '==' else z3.Not(e)
            pa, pb = a.loc.path, b.loc.path
            if a.loc.root == b.loc.root and pa and pb and pa[-1][0] == 'i' and pb[-1][0] == 'i' and samepath(pa[:-1], pb[:-1]):
                x, y = pa[-1][1], pb[-1][1]
                if op == '-':
                    return x - y
                return self.cmp(op, x, y, ('int', 64, True))
        raise Unsupported('pointer operator %s at %s' % (op, self.where(n)))

    def ptr_same(self, a, b, n):
        if a.root != b.root or len(a.path) != len(b.path):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                return z3.BoolVal(False)
            if x[0] == 'f':
                if x[1] != y[1]:
                    return z3.BoolVal(False)
            else:
                cs.append(veq(x[1], y[1]))
        return z3.And(cs) if cs else z3.BoolVal(True)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        vb = self.rv(b)
        l = self.ev(a)
        va = self.read(l)
        if isinstance(va, Ptr):
            self.write(l, self.padd(va, vb if op == '+' else -vb, n))
            return l
        lt = self.nty(a)
        ct = n.get('computeResultType', {})
        ct = self.ty(ct.get('desugaredQualType', ct.get('qualType', tyof(a))))
        clt = n.get('computeLHSType', {})
        clt = self.ty(clt.get('desugaredQualType', clt.get('qualType', tyof(a))))
        x = self.cast(va, lt, clt)
        r = self.arith(op, x, vb, ct, n)
        self.write(l, self.cast(r, ct, lt))
        return l

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = self.cond(c)
        if isinstance(cv, bool):
            return self.ev(a if cv else b)
        cv = z3.simplify(cv)
        if z3.is_true(cv):
            return self.ev(a)
        if z3.is_false(cv):
            return self.ev(b)
        def both():
            if self.decide(cv):
                return self.ev(a)
            return self.ev(b)
        return self.try_merge(both)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType')
            ts = t.get('desugaredQualType', t['qualType']) if t else tyof(n['inner'][0])
            sz = self.sizeof(self.ty(ts))
            return self.num(sz, ('int', 64, False))
        if n.get('name') == 'alignof':
            t = n.get('argType')
            ts = t.get('desugaredQualType', t['qualType'])
            if 'max_align_t' in ts or 'max_align_t' in t['qualType']:
                return self.num(16, ('int', 64, False))
            return self.num(self.alignof(self.ty(ts)), ('int', 64, False))
        raise Unsupported('type trait')

    def sizeof(self, t):
        if t[0] == 'int':
            return t[1] // 8
        if t[0] == 'bool':
            return 1
        if t[0] in ('ptr', 'real'):
            return 8        # float counts as double: only used for sizes of reserved memory
        if t[0] == 'carr':
            return t[2] * self.sizeof(t[1])
        if t[0] == 'rec':
            fs = self.db.fields(t[1])
            off = 0
            al = 1
            for fn, ft, _ in fs:
                x = self.ty(ft)
                s = self.sizeof(x)
                a = self.alignof(x)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % (t,))

    def alignof(self, t):
        if t[0] == 'carr':
            return self.alignof(t[1])
        if t[0] == 'rec':
            return max([self.alignof(self.ty(ft)) for _, ft, _ in self.db.fields(t[1])] or [1])
        return self.sizeof(t)

    def e_InitListExpr(self, n):
        t = self.nty(n)
        inner = n.get('inner', []) or []
        if t[0] == 'rec':
            fs = self.db.fields(t[1])
            d = {}
            for (fn, ft, fd), e in zip(fs, inner):
                d[fn] = self.rv(e)
                if isinstance(d[fn], StrLit):
                    d[fn] = self.strval(d[fn])
            for fn, ft, fd in fs[len(inner):]:
                d[fn] = self.zero(self.ty(ft))
            return Rec(t[1], d)
        if t[0] in ('vec', 'carr'):
            vals = [self.rv(e) for e in inner]
            if n.get('array_filler'):
                vals = [self.rv(e) for e in n['array_filler'][1:]] if len(n['array_filler']) > 1 else vals
            return self.mkvec(vals, t[1], t[2] if t[0] == 'carr' else None)
        if len(inner) == 1:
            return self.ev(inner[0])
        if not inner:
            return self.zero(t)
        raise Unsupported('init list of %r at %s' % (t, self.where(n)))

    def mkvec(self, vals, et, n=None):
        try:
            el = self.zero(et, (self.isort,))
        except Exception:
            el = self.build(et, self.freshname('undef'), (self.isort,))
        for i, v in enumerate(vals):
            if isinstance(v, StrLit):
                v = self.strval(v)
            el = sto(el, z3.IntVal(i), v)
        return Vec(z3.IntVal(n if n is not None else len(vals)), el)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def e_CXXDefaultArgExpr(self, n):
        return None

    def e_CXXDefaultInitExpr(self, n):
        return self.zero(self.nty(n))

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        op = None
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
        return Func(op, dict(self.merged_env()), self.frames[-1].this if self.frames else None, 'lambda')

    def merged_env(self):
        return self.frames[-1].env

    def e_CXXThrowExpr(self, n):
        inner = n.get('inner')
        if not inner:
            raise Unsupported('rethrow')
        e = inner[0]
        code = None
        v = None
        x = strip(e)
        if x['kind'] in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr'):
            while x['kind'] == 'CXXFunctionalCastExpr':
                x = strip(x['inner'][0])
            # only the error code is evaluated; the message arguments are not
            args = x.get('inner', [])
            t = self.nty(x)
            if t[0] == 'rec' and t[1].endswith('Error') and args:
                a0 = strip(args[0])
                if self.nty(args[0])[0] == 'int':
                    code = self.rv(args[0])
                else:
                    try:
                        v = self.rv(e)
                        code = v.f.get('m_code') if isinstance(v, Rec) else None
                    except Unsupported:
                        pass
            v = v or Rec(t[1] if len(t) > 1 else 'exc', {'m_code': code if code is not None else self.freshint('code')})
        else:
            v = Rec('exc', {'m_code': self.freshint('code')})
        if self.nest:
            raise MergeFail()
        raise Throw(v, n, v.f.get('m_code'))

    # ---------------------------------------------------------------- calls
    def e_CXXConstructExpr(self, n):
        t = self.nty(n)
        args = [a for a in n.get('inner', ()) if a.get('kind')]
        if t[0] in ('vec', 'map', 'str'):
            raw = canon(tyof(n))
            raw = raw if self.db.record(raw) is not None else 'mewa::' + raw
            if self.db.record(raw) is not None:
                # record derived from a container
                ctor = self.find_ctor(raw, n)
                d = self.db.func_of(ctor['id']) if ctor is not None else None
                if d is not None:
                    return self.construct(d, raw, self.args_for(d, args), n)
        return stl.construct(self, t, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def find_ctor(self, recname, n):
        ct = n.get('ctorType', {})
        ct = ct.get('desugaredQualType', ct.get('qualType'))
        rec = self.db.record(recname)
        cands = []
        def scan(r):
            for c in r.get('inner', ()):
                if c.get('kind') == 'CXXConstructorDecl':
                    cands.append(c)
                if c.get('kind') == 'FunctionTemplateDecl':
                    for x in c.get('inner', ()):
                        if x.get('kind') == 'CXXConstructorDecl':
                            cands.append(x)
        scan(rec)
        for c in cands:
            if tyof(c) == ct or c.get('type', {}).get('qualType') == ct:
                return c
        for c in cands:
            if canon(tyof(c)).replace(' noexcept', '') == canon(ct or '').replace(' noexcept', ''):
                return c
        return None

    def construct(self, ctor, recname, args, node=None):
        """runs a user-provided constructor; returns the record value"""
        fs = self.db.fields(recname)
        if recname == 'mewa::Error' and args:
            # an error as value: its code; the message is not evaluated
            self.trusted.add('the text of a message has no effect on anything else')
            v = self.build(self.ty(recname), self.freshname('err'))
            a0 = args[0]
            a = self.rv(a0) if isinstance(a0, dict) else a0
            if isinstance(a, Loc):
                a = self.read(a)
            return Rec(v.t, {**v.f, 'm_code': a.f['m_code'] if isinstance(a, Rec) else a})
        c = self.contract_for(ctor) if 'vf_qual' in ctor else None
        self.cnt += 1
        fr = Frame(ctor, None, self.cnt)
        fr.callnode = node
        fr.types = {}
        rt = self.ty(recname)
        obj = Rec(recname, {}) if rt[0] == 'rec' else self.zero(rt)
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            args = self.fill_defaults(ctor, args)
            for p, a in zip(params(ctor), args):
                self.bind(p, self.nty(p), a)
            loc = Loc(self.newroot('obj', obj, rt))
            fr.this = loc
            inits = {}
            for i in ctor.get('inner', ()):
                if i.get('kind') == 'CXXCtorInitializer':
                    if 'anyInit' in i:
                        inits[i['anyInit']['name']] = i['inner'][0] if i.get('inner') else None
                    elif 'baseInit' in i:
                        b = self.rv(i['inner'][0]) if i.get('inner') else None
                        if isinstance(b, (Vec, MapV)) and rt[0] != 'rec':
                            self.mem[loc.root] = b
                        if isinstance(b, Rec):
                            self.mem[loc.root] = Rec(recname, {**self.mem[loc.root].f, **b.f})
            for fn, ft, fd in (fs or []) if rt[0] == 'rec' else []:
                t = self.ty(ft)
                if fn in self.mem[loc.root].f:
                    continue
                if fn in inits and inits[fn] is not None:
                    e = inits[fn]
                    if e['kind'] == 'CXXDefaultInitExpr':
                        ie = [x for x in fd.get('inner', ()) if x.get('kind')]
                        v = self.rv(ie[-1]) if ie else self.zero(t)
                    elif t[0] == 'ref':
                        v = self.ev(e)
                    else:
                        v = self.rv(e)
                    if isinstance(v, StrLit) and t[0] == 'str':
                        v = self.strval(v)
                else:
                    v = self.uninit(t, fn)
                self.mem[loc.root] = Rec(recname, {**self.mem[loc.root].f, fn: v})
            try:
                b = body(ctor)
                if b is not None:
                    self.exec(b)
            except Ret:
                pass
            return self.read(loc)
        finally:
            del self.frames[depth - 1:]

    def args_for(self, fn, argnodes):
        """evaluates arguments according to the parameter kinds of definition fn"""
        out = []
        ps = params(fn)
        for i, a in enumerate(argnodes):
            if a['kind'] == 'CXXDefaultArgExpr':
                out.append(None)
                continue
            t = self.nty(ps[i]) if i < len(ps) else None
            v = self.ev(a)
            if t is None or t[0] != 'ref':
                v = self.val(v)
            elif not isinstance(v, Loc):
                if isinstance(v, StrLit) and t[1][0] == 'str':
                    v = self.strval(v)
                v = self.temp(v, t[1])
            out.append(v)
        return out

    def e_CXXMemberCallExpr(self, n):
        m = n['inner'][0]
        while m['kind'] == 'ParenExpr':
            m = m['inner'][0]
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call ' + m['kind'])
        args = n['inner'][1:]
        did = m.get('referencedMemberDecl')
        fn = self.db.func_of(did)
        b = m['inner'][0]
        d = self.db.byid.get(did)
        if fn is None and d is not None:
            c = self.contract_for(d) if 'vf_qual' in d else None
            if c is not None:
                fn = d
        if fn is not None:
            base = self.objloc(b, m.get('isArrow'), n)
            av = self.args_for(fn, args)
            return self.call(fn, base, av, n)
        if hasattr(self, 'extra_method'):
            h = self.extra_method(m['name'], b, args, n)
            if h is not NotImplemented:
                return h
        return stl.method(self, m['name'], b, m.get('isArrow'), args, n, d)

    def objloc(self, b, arrow, n):
        if arrow:
            p = self.rv(b)
            return self.deref(p, n) if isinstance(p, Ptr) else stl.deref(self, p, n)
        v = self.ev(b)
        if not isinstance(v, Loc):
            v = self.temp(v, self.nty(b))
        return v

    def e_CXXOperatorCallExpr(self, n):
        callee = strip(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] != 'DeclRefExpr':
            raise Unsupported('operator callee')
        d = callee['referencedDecl']
        fn = self.db.func_of(d['id'])
        if fn is not None and fn.get('isImplicit') is None and not fn.get('explicitlyDefaulted') == 'default':
            if fn['kind'] == 'CXXMethodDecl':
                if d['name'] == 'operator=':
                    pass
                # C++17: for assignment operators the right operand is sequenced first
                if fn['name'] == 'operator()' and fn['vf_owner'] is None:
                    f = self.rv(args[0])
                    if isinstance(f, Func):
                        return self.call_func(f, args[1:], n)
                base = self.objloc(args[0], False, n)
                return self.call(fn, base, self.args_for(fn, args[1:]), n)
            return self.call(fn, None, self.args_for(fn, args), n)
        if fn is None and d['id'] in self.db.byid and has_body(self.db.byid[d['id']]) and d['name'] == 'operator()':
            f = self.rv(args[0])
            if isinstance(f, Func):
                return self.call_func(f, args[1:], n)
        return stl.operator(self, d['name'], args, n)

    def call_func(self, f, args, n):
        node = self.db.byid.get(f.node['id'], f.node)
        fn = self.db.func_of(node['id']) or node
        if f.kind == 'lambda':
            self.cnt += 1
            fr = Frame(fn, f.this, self.cnt)
            fr.callnode = n
            fr.types = {}
            av = self.args_for(fn, args)
            fr.env.update(f.env)
            self.frames.append(fr)
            depth = len(self.frames)
            try:
                for p, a in zip(params(fn), av):
                    self.bind(p, self.nty(p), a)
                try:
                    self.exec(body(fn))
                    return None
                except Ret as r:
                    return r.val
            finally:
                del self.frames[depth - 1:]
        if body(fn) is None:
            raise Unsupported('call of function value')
        return self.call(fn, None, self.args_for(fn, args), n)

    def e_CallExpr(self, n):
        callee = strip(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr':
            d = callee['referencedDecl']
            if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                fn = self.db.func_of(d['id'])
                dd = self.db.byid.get(d['id'])
                if fn is None and dd is not None and 'vf_qual' in dd and self.contract_for(dd) is not None:
                    fn = dd
                if fn is not None and fn.get('vf_qual') not in self.opaque_fns:
                    return self.call(fn, None, self.args_for(fn, args), n)
                return stl.function(self, d.get('name'), args, n, dd)
            f = self.rv(callee)
            if isinstance(f, Func):
                return self.call_func(f, args, n)
        if callee['kind'] == 'MemberExpr':
            # static member through an object, or function pointer member
            d = self.db.byid.get(callee.get('referencedMemberDecl'))
            fn = self.db.func_of(callee.get('referencedMemberDecl'))
            if fn is not None:
                return self.call(fn, None, self.args_for(fn, args), n)
        raise Unsupported('call at ' + self.where(n))


def leaf_arr(eng, leaf, name, dims, mk):
    s = z3.ArraySort(eng.isort, eng.leafsort(('int', 8, True)))
    for d in reversed(dims):
        s = z3.ArraySort(d, s)
    return mk(s, name + '[]')


def lift_k(x, sorts):
    for s in reversed(sorts):
        x = z3.K(s, x)
    return x


def bit01(x):
    """c for If(c, 1, 0)"""
    x = z3.simplify(x)
    if z3.is_int_value(x) and x.as_long() in (0, 1):
        return z3.BoolVal(x.as_long() == 1)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c, u, v = x.children()
        if z3.is_int_value(u) and z3.is_int_value(v):
            if (u.as_long(), v.as_long()) == (1, 0):
                return c
            if (u.as_long(), v.as_long()) == (0, 1):
                return z3.Not(c)
    return None


def unwrap(i):
    """x for If(x >= 0, x, x mod 2^k): a negative x would wrap to an index beyond every container size"""
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = i.children()
        if y.decl().kind() == z3.Z3_OP_MOD and y.arg(0).eq(x) and c.eq(x >= 0):
            return x
    return i


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


def tyof_q(fn):
    return fn.get('type', {}).get('qualType', '')


def ret_type(fn):
    t = fn.get('type', {})
    s = t.get('desugaredQualType', t.get('qualType', ''))
    # up to the parameter list
    d = 0
    for i, ch in enumerate(s):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            return s[:i].strip()
    return s


def z3_false(v):
    return v is False or (isinstance(v, (int, str)) and str(v) in ('0', 'False')) and v is not True


_loopmemo = {}


def contains_loop(n):
    i = n.get('id')
    if i in _loopmemo:
        return _loopmemo[i]
    r = n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') or any(contains_loop(c) for c in n.get('inner', ()) if isinstance(c, dict))
    _loopmemo[i] = r
    return r


def has_throw(n):
    return n.get('kind') == 'CXXThrowExpr' or any(has_throw(c) for c in n.get('inner', ()) if isinstance(c, dict))


_cs = {}


def consts_of(f):
    """names of the uninterpreted constants of a term (memoised)"""
    i = f.get_id()
    if i not in _cs:
        if z3.is_quantifier(f):
            r = consts_of(f.body())
        elif z3.is_app(f) and f.num_args() == 0:
            r = frozenset((f.decl().name(),)) if f.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            r = frozenset().union(*[consts_of(c) for c in f.children()]) if z3.is_app(f) else frozenset()
        _cs[i] = (f, r)
    return _cs[i][1]


_hq = {}


def has_quant(f):
    """memoised (the entries keep the terms alive)"""
    st = [(f, False)]
    while st:
        x, done = st.pop()
        i = x.get_id()
        if i in _hq:
            continue
        if z3.is_quantifier(x):
            _hq[i] = (x, True)
        elif not done:
            st.append((x, True))
            st.extend((c, False) for c in x.children())
        else:
            _hq[i] = (x, any(_hq[c.get_id()][1] for c in x.children()))
    return _hq[f.get_id()][1]
