"""Contracts and verification targets."""
import z3
from .astdb import *
from .values import *
from .engine import *
from . import solve


class Ctx:
    def __init__(self, eng, fn, this, args, old, node=None):
        self.eng, self.fn, self.this, self.args, self.old, self.node = eng, fn, this, args, old, node
        self.new = None
        self.ret = None
        self.code = None
        self.extra = {}

    def loc(self, *path):
        l = self.this
        for p in path:
            l = l.f(p)
        return l

    def o(self, *path):
        """pre-state value below this"""
        return self.eng.read_in(self.old, self.loc(*path))

    def n(self, *path):
        """post-state value below this"""
        return self.eng.read_in(self.new if self.new is not None else self.eng.mem, self.loc(*path))

    def a(self, i):
        """argument value in the pre-state"""
        v = self.args[i]
        if isinstance(v, Loc):
            return self.eng.read_in(self.old, v)
        if isinstance(v, Ptr) and v.loc is not None:
            return v
        return v

    def an(self, i):
        v = self.args[i]
        if isinstance(v, Loc):
            return self.eng.read_in(self.new if self.new is not None else self.eng.mem, v)
        return v

    def retv(self):
        v = self.ret
        if isinstance(v, Loc):
            return self.eng.read_in(self.new, v)
        return v


class Contract:
    """pre(ctx), post(ctx), throws(ctx): lists of (name, formula).
    modifies: access paths below this ('*' = whole object), argmods: indices of reference arguments written.
    throws None: the function never throws."""
    def __init__(self, name, qual, nparams, pre=None, post=None, throws=None, modifies=(), argmods=(), pred=None,
                 retloc=None, templates=(), ghost=None, trusted=False, mayret=True, budget=None, setup=None, overflow=None, effects=None, case=None, splits=None, after_call=None, ghostmods=None, on_queue=None, invbudget=None, focus=None):
        self.name, self.qual, self.nparams, self.pred = name, qual, nparams, pred
        self.pre = pre or (lambda c: [])
        self.post = post or (lambda c: [])
        self.throws = throws
        self.modifies, self.argmods = modifies, argmods
        self.retloc = retloc
        self.templates = list(templates)
        self.trusted = trusted
        self.budget, self.invbudget = budget, invbudget
        self.focus = focus      # name of an obligation -> filter of the invariants tried first as assumptions, or None
        self.setup = setup
        self.overflow = overflow
        self.effects, self.case, self.splits = effects, case, splits
        self.after_call = after_call or {}
        self.ghostmods, self.on_queue = ghostmods, on_queue

    def resolve(self, db):
        c = db.find(self.qual, self.nparams, self.pred)
        if not c and self.trusted:
            # a declaration is enough for a trusted contract
            for n in db.byid.values():
                if n.get('vf_qual') and canon(n['vf_qual']) == canon(self.qual) and len(params(n)) == self.nparams:
                    return n
            return None
        if len(c) != 1:
            raise ExtractionError('%s: %d definitions with %s parameters' % (self.qual, len(c), self.nparams))
        return c[0]

    # use at a call site
    def apply(self, eng, fn, this, args, node):
        if self.trusted:
            eng.trusted.add('contract of ' + self.name)
        if eng.nest and (self.modifies or self.argmods or self.throws is not None):
            raise MergeFail()
        ctx = Ctx(eng, fn, this, args, dict(eng.mem), node)
        for nm, f in self.pre(ctx):
            eng.check('pre', '%s requires %s' % (self.name, nm), f, node, assume=not (isz(f) and has_quant(f)))
        if self.throws is not None:
            t = eng.freshbool('throws')
            if eng.decide(t):
                ctx.code = eng.freshint('code')
                ctx.new = eng.mem
                for nm, f in self.throws(ctx):
                    eng.assume(f)
                raise Throw(Rec('mewa::Error', {'m_code': ctx.code}), node, ctx.code)
        rt = eng.ty(ret_type(fn))
        if self.case is not None:
            # the result is chosen first, the effects depend on it
            ctx.ret = eng.fresh(rt, 'ret')
            for f in basefacts(eng, ctx.ret, rt):
                eng.assume(f)
            for cs in self.case(ctx):
                eng.decide(cs)
        for m in self.modifies:
            path = [('i',) if p == '[]' else ('f', p) for p in ((m,) if isinstance(m, str) else m)] if m != '*' else []
            eng.mem[this.root] = havoc_at(eng, eng.mem[this.root], list(this.path) + path)
            eng.wlog.append((this.root, tuple((p[0], p[1]) if p[0] == 'f' else (p[0],) for p in list(this.path) + path)))
        for i in self.argmods:
            v = args[i]
            if isinstance(v, Ptr):
                v = v.loc
            if isinstance(v, Loc):
                eng.mem[v.root] = eng.upd(eng.mem[v.root], v.path, eng.fresh_like(eng.read(v), 'mod'))
                eng.log(v)
        for m in self.modifies:
            if '[]' not in m:
                l = this
                for p in ((m,) if isinstance(m, str) else m) if m != '*' else ():
                    l = l.f(p)
                for f in eng.lens(eng.read(l)):
                    eng.assume(z3.And(f >= 0, f < (1 << 31)))
        if self.effects is not None:
            for m, val in self.effects(ctx):
                eng.mem[this.root] = set_at(eng, eng.mem[this.root], list(this.path) + [('i',) if p == '[]' else ('#',) if p == '#' else ('f', p) for p in m], val)
        for root, val in (self.ghostmods(ctx) if self.ghostmods is not None else ()):
            # ghost state (roots 'ghost.…'): no code reads it
            eng.setghost(root, val)
        ctx.new = dict(eng.mem)
        if self.case is not None:
            pass
        elif self.retloc is not None:
            ctx.ret = self.retloc(ctx)
        else:
            rt = eng.ty(ret_type(fn))
            if rt[0] == 'ref':
                v = eng.fresh(rt[1], 'ret')
                ctx.ret = eng.temp(v, rt[1])
                ctx.new[ctx.ret.root] = v
            elif rt[0] == 'void':
                ctx.ret = None
            else:
                ctx.ret = eng.fresh(rt, 'ret')
            if ctx.ret is not None:
                for f in basefacts(eng, ctx.retv(), rt[1] if rt[0] == 'ref' else rt):
                    eng.assume(f)
        for nm, f in self.post(ctx):
            eng.assume(f)
        ac = eng.target.after_call.get(self.name) if eng.target is not None else None
        if ac is not None:
            # intermediate assertions of the function under verification: proved here, then used; dropped when they do not hold
            for nm, f in ac(eng.ctx, ctx):
                eng.lemma('after ' + self.name + ': ' + nm, f, node)
        return ctx.ret


def havoc_at(eng, v, path):
    """replaces the part of v at path by an arbitrary value ('i' without an index: that field of every element)"""
    if not path:
        return eng.fresh_like(v, 'mod')
    p, rest = path[0], path[1:]
    if p[0] == 'f':
        d = dict(v.f)
        d[p[1]] = havoc_at(eng, d[p[1]], rest)
        return Rec(v.t, d)
    if p[0] == 'i' and len(p) == 1:
        return Vec(v.n, havoc_at(eng, v.el, rest))
    # element of a container: arbitrary value written back
    return eng.upd(v, (p,), havoc_at(eng, eng.step(v, p), rest))


def set_at(eng, v, path, val):
    if not path:
        return val
    p, rest = path[0], path[1:]
    if p[0] == 'f':
        d = dict(v.f)
        d[p[1]] = set_at(eng, d[p[1]], rest, val)
        return Rec(v.t, d)
    if p[0] == '#':
        return Vec(val, v.el)
    if p[0] == 'i' and len(p) == 1:
        return Vec(v.n, set_at(eng, v.el, rest, val))
    return eng.upd(v, (p,), set_at(eng, eng.step(v, p), rest, val))


def get_at(v, path):
    for p in path:
        v = v.n if p == '#' else v.el if p == '[]' else v.f[p]
    return v


def basefacts(eng, v, t):
    """facts that hold for every object of the type: container sizes are not negative, integers in range"""
    out = []
    if isinstance(v, Vec):
        if not z3.is_array(v.n):
            out.append(v.n >= 0)
            out.append(v.n < (1 << 31))
    elif isinstance(v, Rec) and t is not None:
        if t[0] == 'rec' and v.t == t[1]:
            for fn, ft, _ in eng.db.fields(t[1]) or []:
                if fn in v.f:
                    out += basefacts(eng, v.f[fn], eng.ty(ft))
        elif t[0] == 'pair':
            out += basefacts(eng, v.f['first'], t[1]) + basefacts(eng, v.f['second'], t[2])
        elif t[0] == 'uptr':
            out += basefacts(eng, v.f['*'], t[1])
    elif isz(v) and t is not None and t[0] == 'int' and eng.mode != 'bv' and not z3.is_array(v):
        out.append(eng.inrange(v, t))
    return out


class Verified:
    def __init__(self, name):
        self.name = name
        self.results = []
        self.error = None
        self.paths = 0
        self.vacuous = None
        self.where = ''
        self.invs = []


def make_args(eng, fn, this_t):
    args = []
    for p in params(fn):
        t = eng.nty(p)
        nm = 'arg_' + p.get('name', '_')
        if t[0] == 'ref':
            v = eng.build(t[1], nm)
            l = Loc(eng.newroot(nm, v, t[1]))
            for f in basefacts(eng, v, t[1]):
                eng.pc.append(f)
            args.append(l)
        else:
            v = eng.build(t, nm)
            for f in basefacts(eng, v, t):
                eng.pc.append(f)
            if isinstance(v, Ptr) and v.loc is not None:
                for f in basefacts(eng, eng.read(v.loc), t[1]):
                    eng.pc.append(f)
            args.append(v)
    return args


def verify(db, contract, contracts, mode='int', extra_templates=(), overflow=None, budget=(1500, 4000, 8), invbudget=(600, 1500, 0), hooks=None):
    """checks the body of the function against its contract"""
    vr = Verified(contract.name)
    fn = contract.resolve(db)
    cs = {}
    for c in contracts:
        if c is contract:
            continue
        try:
            d = c.resolve(db)
        except ExtractionError:
            continue
        if d is not None:
            cs[d.get('mangledName')] = c
    ov = overflow if overflow is not None else (contract.overflow or False)
    eng = Engine(db, cs, mode, list(contract.templates) + list(extra_templates), ov)
    if hooks:
        hooks(eng)
    vr.where = eng.where(fn)
    own = fn.get('vf_owner')
    isstatic = fn.get('storageClass') == 'static' or fn['kind'] == 'FunctionDecl'
    rets = []

    def setup(e):
        e.target = contract
        this = None
        if fn['kind'] == 'CXXConstructorDecl':
            args = make_args(e, fn, None)
            ctx = Ctx(e, fn, None, args, dict(e.mem))
            e.ctx = ctx
            for nm, f in pre_cached(e, contract, ctx):
                e.pc.append(f)
            v = e.construct(fn, own, args)
            ctx.this = e.temp(v, e.ty(own), 'this')
            ctx.new = dict(e.mem)
            rets.append((list(e.pc), 'ret'))
            for nm, f in contract.post(ctx):
                e.check('post', nm, f, fn, assume=False)
            return
        if not isstatic and own:
            ot = e.ty(own)
            v = e.build(ot, 'this')
            this = Loc(e.newroot('this', v, ot))
            for f in basefacts(e, v, ot):
                e.pc.append(f)
        args = make_args(e, fn, own)
        if contract.setup:
            contract.setup(e, this, args)
        ctx = Ctx(e, fn, this, args, dict(e.mem))
        e.ctx = ctx
        for nm, f in pre_cached(e, contract, ctx):
            e.pc.append(f)
        try:
            r = e.call(fn, this, list(args), None, inline=True)
        except Throw as t:
            ctx.new = dict(e.mem)
            ctx.code = t.code
            rets.append((list(e.pc), 'throw'))
            e.frames = []
            if contract.throws is None:
                e.check('throws', 'no exception escapes', False, t.node or fn, assume=False)
            else:
                for nm, f in contract.throws(ctx):
                    e.check('throws', nm, f, t.node or fn, assume=False)
            return
        ctx.ret = r
        ctx.new = dict(e.mem)
        rets.append((list(e.pc), 'ret'))
        e.splits = contract.splits(ctx) if contract.splits else None
        for nm, f in contract.post(ctx):
            e.check('post', nm, f, fn, assume=False)
        e.splits = None
        if contract.effects is not None:
            for m, val in contract.effects(ctx):
                e.check('post', 'effect on ' + '.'.join(m), veq(get_at(e.read(this), m), val), fn, assume=False)
        check_frame(e, ctx, contract, fn)

    obs = eng.explore(contract.name, setup)
    vr.paths = eng.paths
    if contract.focus is not None:
        for o in obs:
            o.focus = contract.focus(o.name)
    b = contract.budget or budget
    vr.results, alive, vr.rounds = solve.discharge(obs, b, contract.invbudget or invbudget)
    vr.invs = sorted(n for _, n in alive)
    vr.trusted = eng.trusted
    vr.inlined = eng.inlined
    vr.used = eng.usedcontracts
    # vacuity: the solver must not be able to refute reaching a normal return
    from .solve import pcf
    vac = True
    cand = [pc for pc, k in rets if k == 'ret'] or [pc for pc, k in rets]
    for pc in cand[:40]:
        s = z3.Solver()
        s.set('timeout', 1500)
        s.set('smt.mbqi', False)
        s.add(pcf(pc, alive))
        if s.check() != z3.unsat:
            vac = False
            break
    vr.vacuous = vac
    vr.nrets = len(rets)
    return vr


def pre_cached(e, contract, ctx):
    # the symbolic pre-state is the same on every path
    c0 = e.cnt
    if 'pre' not in e.precache:
        e.precache['pre'] = [(n, f if isz(f) else z3.BoolVal(f)) for n, f in contract.pre(ctx)]
        e.precache['cnt'] = e.cnt
        e.precache['c0'] = c0
    assert c0 == e.precache['c0']
    e.cnt = e.precache['cnt']
    return e.precache['pre']


def check_frame(e, ctx, contract, fn):
    """nothing outside modifies/argmods changed (syntactic on the write log)"""
    allowed = []
    if ctx.this is not None:
        for m in contract.modifies:
            if m == '*':
                allowed.append((ctx.this.root, ()))
            else:
                allowed.append((ctx.this.root, tuple(('i',) if p == '[]' else ('f', p) for p in (m if isinstance(m, tuple) else (m,)))))
    roots = {}
    for i in contract.argmods:
        v = ctx.args[i]
        if isinstance(v, Ptr):
            v = v.loc
        if isinstance(v, Loc):
            allowed.append((v.root, ()))
    inroots = set(ctx.old)
    for r, p in set(e.wlog):
        if r not in inroots or r.startswith('ghost.'):
            continue
        if not any(r == ar and p[:len(ap)] == ap for ar, ap in allowed):
            e.check('frame', 'writes only what the contract allows (%s%s)' % (r.split('#')[0], ''.join('.' + x[1] if x[0] == 'f' else '[]' for x in p)), False, fn, assume=False)


def errcode(c, name):
    """value of an error code"""
    return c.eng.num(c.eng.db.enumconst['mewa::Error::' + name], ('int', 32, True)) if c.eng.mode != 'bv' or c.code is None or not z3.is_int(c.code) else z3.IntVal(c.eng.db.enumconst['mewa::Error::' + name])
