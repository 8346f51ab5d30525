"""Local buffer allocator (src/memory_resource.hpp): pointers are 64 bit addresses, sums wrap around at 2^64."""
import z3
from vf.spec import *

MODE = 'int'
DRIVER = '''#include <cstdint>
#include <cstdlib>
#include "memory_resource.hpp"
namespace vfl {
void* mr_do( mewa::monotonic_buffer_resource& r, unsigned long bytes, unsigned long al) {return r.do_allocate( bytes, al);}
void* mr_pub( mewa::monotonic_buffer_resource& r, unsigned long bytes, unsigned long al) {return r.allocate( bytes, al);}
void* mr_def( mewa::monotonic_buffer_resource& r, unsigned long bytes) {return r.allocate( bytes);}
void mr_free( mewa::monotonic_buffer_resource& r, void* p, unsigned long bytes, unsigned long al) {r.do_deallocate( p, bytes, al); r.deallocate( p, bytes, al);}
void mk() {char buf[ 64]; mewa::monotonic_buffer_resource a( buf, sizeof(buf)); mewa::monotonic_buffer_resource b( buf, sizeof(buf), std::pmr::get_default_resource());
 mewa::monotonic_buffer_resource c( 100); mewa::monotonic_buffer_resource d( 100, std::pmr::get_default_resource());}
}
'''
ASSUMPTIONS = ['a buffer lies in the lower half of the 64 bit address space and does not wrap around it',
               'the upstream allocator and malloc keep their contracts; a block from malloc is fresh and inside the lower half of the address space']
HALF = 1 << 63
UP = z3.Int('upstream_block')
MR = 'mewa::monotonic_buffer_resource'


def hooks(eng):
    eng.types.addr = True
    eng.exact64 = True
    cst = (lambda n: z3.BitVec(n, 64)) if eng.mode == 'bv' else z3.Int

    def meth(name, b, args, n):
        if name == 'allocate':
            t = eng.nty(b)
            if t == ('int', 64, False):     # the upstream, an object outside of this file
                eng.trusted.add('std::pmr::memory_resource::allocate of the upstream')
                av = [eng.rv(a) for a in args]
                if 'upstream' in eng.mem:
                    eng.mem['upstream'] = Rec('call', {'n': eng.mem['upstream'].f['n'] + 1, 'to': eng.rv(b), 'bytes': av[0], 'al': av[1]})
                return cst('upstream_block')
        return NotImplemented

    def func(name, args, n, d):
        if name == 'malloc':
            eng.trusted.add('malloc')
            sz = eng.rv(args[0])
            r = eng.fresh(('int', 64, False), 'malloc')
            eng.assume(z3.And(r >= 0, z3.Or(r == 0, r + sz <= HALF)))
            return r
        if name == 'get_default_resource':
            return cst('default_resource')
        return NotImplemented
    eng.extra_method = meth
    eng.extra_function = func


def su(eng, this, args):
    eng.mem['upstream'] = Rec('call', {'n': z3.IntVal(0), 'to': z3.IntVal(0), 'bytes': z3.IntVal(0), 'al': z3.IntVal(0)})


def inv(v):
    b, i, s = v.f['m_baseptr'], v.f['m_index'], v.f['m_size']
    return z3.And(b >= 0, i >= 0, s >= 0, b + s <= HALF, b + i <= HALF)


def granted(c, old, new, r, bytes_, al, up):
    b, i, s, i2 = old.f['m_baseptr'], old.f['m_index'], old.f['m_size'], new.f['m_index']
    buf = up.f['n'] == 0
    return [
        ('the block comes from the buffer or from one upstream request', z3.Or(up.f['n'] == 0, up.f['n'] == 1)),
        ('the upstream is asked for the same size and alignment and its block is returned', z3.Implies(z3.Not(buf), z3.And(r == UP, up.f['to'] == old.f['m_upstream'], up.f['bytes'] == bytes_, up.f['al'] == al))),
        ('the block is aligned', z3.Implies(buf, r % al == 0)),
        ('the block lies inside the buffer', z3.Implies(buf, z3.And(b <= r, r + bytes_ <= b + s))),
        ('the block begins behind all blocks given out before', z3.Implies(buf, b + i <= r)),
        ('the block ends before everything given out later', z3.Implies(buf, r + bytes_ <= b + i2)),
        ('memory given out is never taken back', i <= i2),
        ('buffer and upstream stay the same', z3.And(new.f['m_baseptr'] == b, new.f['m_size'] == s, new.f['m_upstream'] == old.f['m_upstream'])),
        ('invariant', inv(new))]


def alloc(name, fn, npar, al):
    def setup(eng, this, args):
        su(eng, this, args)
        if npar == 3:
            args[2] = z3.IntVal(al)
    return Contract(name, 'vfl::' + fn, npar, setup=setup, pre=lambda c: [('invariant', inv(c.a(0)))],
                    post=lambda c: granted(c, c.a(0), c.an(0), c.retv(), c.a(1), z3.IntVal(al), c.new['upstream']), argmods=(0,))


# every power of two is its own case: the machine operations on the alignment become exact integer operations
ALLOCS = []
for _k in range(64):
    for _f, _n in (('do', 'do_allocate'), ('pub', 'allocate')):
        globals()['alloc_%s_%d' % (_f, _k)] = alloc('%s with alignment 2^%d' % (_n, _k), 'mr_' + _f, 3, 1 << _k)
        ALLOCS.append('alloc_%s_%d' % (_f, _k))
alloc_def = alloc('allocate with the default alignment', 'mr_def', 2, 16)
B64 = lambda x: z3.BitVecVal(x, 64)


def pow2bv(c):
    return z3.Or([c.a(2) == B64(1 << k) for k in range(64)])


def refuse(fn):
    r = Contract('refusal of ' + fn, 'vfl::' + fn, 3, post=lambda c: [('only powers of two are served', pow2bv(c))], argmods=(0,),
                 throws=lambda c: [('only an alignment that is no power of two is refused', z3.Not(pow2bv(c)))])
    r.mode = 'bv'
    return r


refuse_do, refuse_pub = refuse('mr_do'), refuse('mr_pub')
dealloc = Contract('vfl::mr_free', 'vfl::mr_free', 4, setup=su, pre=lambda c: [('invariant', inv(c.a(0)))],
                   post=lambda c: [('nothing changes', z3.And(*[c.an(0).f[f] == c.a(0).f[f] for f in ('m_baseptr', 'm_index', 'm_size', 'm_upstream')])), ('invariant', inv(c.an(0)))])


def ctor(name, ptypes, size, base, up=None):
    P = lambda n, ps: [ (p.get('type', {}).get('qualType', '')) for p in n.get('inner', ()) if p.get('kind') == 'ParmVarDecl'] == ptypes

    def post(c):
        t = c.n()
        out = [('the buffer begins empty', t.f['m_index'] == 0), ('invariant', inv(t))]
        if base is not None:
            out += [('the buffer is the one given', z3.And(t.f['m_baseptr'] == c.a(base), t.f['m_size'] == c.a(size))), ('a foreign buffer is not owned', z3.Not(t.f['m_ownership_baseptr']))]
        else:
            out += [('an own buffer has the size asked for or there is none', z3.If(t.f['m_baseptr'] == 0, t.f['m_size'] == 0, t.f['m_size'] == c.a(size))),
                    ('an own buffer is owned', t.f['m_ownership_baseptr'] == (t.f['m_baseptr'] != 0))]
        out.append(('upstream', t.f['m_upstream'] == (c.a(up) if up is not None else z3.Int('default_resource'))))
        return out
    pre = lambda c: ([('buffer inside the address space', z3.And(c.a(base) >= 0, c.a(base) + c.a(size) <= HALF))] if base is not None else [])
    return Contract(name, MR + '::monotonic_buffer_resource', len(ptypes), pre=pre, post=post, setup=su, pred=P)


ctor_buf = ctor('constructor with buffer', ['void *', 'std::size_t'], 1, 0)
ctor_buf_up = ctor('constructor with buffer and upstream', ['void *', 'std::size_t', 'std::pmr::memory_resource *'], 1, 0, 2)
ctor_own = ctor('constructor with own buffer', ['std::size_t'], 0, None)
ctor_own_up = ctor('constructor with own buffer and upstream', ['std::size_t', 'std::pmr::memory_resource *'], 0, None, 1)
ALL = ALLOCS + ['alloc_def', 'refuse_do', 'refuse_pub', 'dealloc', 'ctor_buf', 'ctor_buf_up', 'ctor_own', 'ctor_own_up']
