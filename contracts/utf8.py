"""UTF-8 helpers (src/utf8.hpp, parseChar in src/lexer.cpp): machine arithmetic."""
import z3
from vf.spec import *

MODE = 'bv'
And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies
DRIVER = '''#include "lexer.cpp"
namespace vfl {
bool u_mid( unsigned char ch) {return utf8mid( ch);}
int u_bsr( unsigned char ch) {return bitScanReverse( ch);}
int u_len( unsigned char ch) {return utf8charlen( ch);}
}
'''
BV = z3.BitVecVal


def hi(x, w):
    """number of the highest bit set plus one, 0 for 0"""
    r = BV(0, w)
    for k in range(8):
        r = z3.If(z3.Extract(k, k, x) == 1, BV(k + 1, w), r)
    return r


mid = Contract('utf8mid', 'vfl::u_mid', 1, post=lambda c: [('continuation bytes and only these', c.ret == (z3.Extract(7, 6, c.a(0)) == 2))])
bsr = Contract('bitScanReverse', 'vfl::u_bsr', 1, post=lambda c: [('position of the highest bit', c.ret == hi(c.a(0), 32))])


def len_post(c):
    b = c.a(0)
    u = lambda x: BV(x, 8)
    rng = lambda a, e: And(z3.UGE(b, u(a)), z3.ULE(b, u(e)))
    return [('one byte for ASCII characters', Imp(rng(0, 0x7f), c.ret == 1)), ('one byte for a continuation byte', Imp(rng(0x80, 0xbf), c.ret == 1)), ('two bytes', Imp(rng(0xc0, 0xdf), c.ret == 2)),
            ('three bytes', Imp(rng(0xe0, 0xef), c.ret == 3)), ('four bytes', Imp(rng(0xf0, 0xf7), c.ret == 4)), ('at least one byte, at most eight', And(c.ret >= 1, c.ret <= 8))]


charlen = Contract('utf8charlen', 'vfl::u_len', 1, post=len_post)
S = z3.Array('source', z3.IntSort(), z3.IntSort())
K = z3.Int('k')
SN, P = z3.Int('source_size'), z3.Int('position')


def su(eng, this, args):
    r = eng.newroot('source', Vec(SN, S), ('str',))
    eng.zterm.append((r, ()))
    p = eng.newroot('si', Ptr(Loc(r, (('i', P),)), False), ('ptr', ('int', 8, True)))
    args[0] = Loc(p)


def wf(c):
    return [('terminated source', S[SN] == 0), ('characters', qforall([K], And(-128 <= S[K], S[K] <= 127), S[K])), ('position inside the source', And(0 <= P, P < SN, S[P] != 0))]


def ismid(x):
    """10xxxxxx as signed character"""
    return And(-128 <= x, x < -64)


def pc_templates(L):
    out = []
    k = z3.FreshInt('q')
    for nm, v, l in L.values():
        if isinstance(v, Ptr) and v.loc is not None and v.loc.path and v.loc.path[-1][0] == 'i' and L.modified(l):
            a = v.loc.path[-1][1]
            out.append(('range ' + nm, And(P < a, a <= SN)))
            out.append(('continuation ' + nm, qforall([k], Imp(And(P < k, k < a), ismid(S[k])), S[k])))
    return out


def pc_post(c):
    r = c.retv()
    k = z3.FreshInt('q')
    lead = S[P] < 0
    return [('ASCII characters are one byte', Imp(Not(lead), r.n == 1)), ('the bytes of the source at the position', qforall([k], Imp(And(0 <= k, k < r.n), r.el[k] == S[P + k]), r.el[k])),
            ('at least one byte inside the source', And(r.n >= 1, P + r.n <= SN)),
            ('all continuation bytes that follow', Imp(lead, And(qforall([k], Imp(And(P < k, k < P + r.n), ismid(S[k])), S[k]), Not(ismid(S[P + r.n])))))]


parseChar = Contract('parseChar', 'parseChar', 1, pre=wf, post=pc_post, setup=su, argmods=(0,), templates=[pc_templates])
parseChar.mode = 'int'
ALL = ['parseChar', 'mid', 'bsr', 'charlen']
