"""Parts of the text of an error (src/error.cpp): spaces, delimiters, numbers and quoted strings in a null terminated text.

V(k) is the value of the digits from the start position up to k, defined by axioms."""
import z3
from vf.spec import *
from vf.values import qforall

And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
DRIVER = '''#include "error.cpp"
'''
Q = 'mewa::Error'
I = z3.IntSort()
S = z3.Array('text', I, I)
SN, P = z3.Int('text_size'), z3.Int('position')
V = z3.Function('value_up_to', I, I)
INT_MAX = 2147483647


def q(n='q'):
    return z3.FreshInt(n)


def su(eng, this, args):
    r = eng.newroot('text', Vec(SN + 1, S), ('str',))
    p = eng.newroot('si', Ptr(Loc(r, (('i', P),)), False), ('ptr', ('int', 8, True)))
    args[0] = Loc(p)


def wf(c):
    k = q()
    return [('null terminated text', And(SN >= 0, S[SN] == 0, qforall([k], Imp(And(0 <= k, k < SN), S[k] != 0), S[k]))), ('characters', qforall([k], And(-128 <= S[k], S[k] <= 127), S[k])),
            ('position inside the text', And(0 <= P, P <= SN))]


def wfnum(c):
    k = q()
    return wf(c) + [('value of digits (definition)', And(V(P) == 0, qforall([k], Imp(k >= P, V(k + 1) == 10 * V(k) + S[k] - 48), S[k])))]


def space(x):
    return And(x != 0, Or(x <= 32), x >= 0)


def digit(x):
    return And(48 <= x, x <= 57)


def pos(v):
    return v.loc.path[-1][1]


def end(c):
    return pos(c.an(0))


def span(a, b, f):
    k = q()
    return qforall([k], Imp(And(a <= k, k < b), f(S[k])), S[k])


def templates(L):
    out = []
    fs = [('spaces', space), ('digits', digit)]
    vals = list(L.values())
    for nm, v, l in vals:
        if not (isz(v) and z3.is_int(v)) or L.modified(l):
            continue
        fs.append(('other than ' + nm, lambda x, v=v: And(x != 0, x != v)))
    for nm, v, l in vals:
        if isinstance(v, Ptr) and v.loc is not None and v.loc.path and v.loc.path[-1][0] == 'i' and L.modified(l):
            a = pos(v)
            a0 = pos(L.read(l, L.entry))
            out.append(('range ' + nm, And(a0 <= a, a <= SN)))
            for fn, f in fs:
                out.append(('%s before %s' % (fn, nm), span(a0, a, f)))
            for n2, x, l2 in vals:
                if isz(x) and z3.is_int(x) and L.modified(l2):
                    out.append(('value %s %s' % (nm, n2), And(x == If(V(a) > INT_MAX, INT_MAX, V(a)), V(a) >= 0)))
    return out


skipSpaces = Contract('Error::skipSpaces', Q + '::skipSpaces', 1, pre=wf, setup=su, argmods=(0,), templates=[templates],
                      post=lambda c: [('skips spaces', And(P <= end(c), end(c) <= SN, span(P, end(c), space))), ('and all of them', Not(space(S[end(c)])))])
skipUntil = Contract('Error::skipUntil', Q + '::skipUntil', 2, pre=lambda c: wf(c) + [('a delimiter', And(0 < c.a(1), c.a(1) <= 127))], setup=su, argmods=(0,), templates=[templates],
                     post=lambda c: [('stops at the first delimiter or at the end', And(P <= end(c), end(c) <= SN, span(P, end(c), lambda x: x != c.a(1)), Or(S[end(c)] == c.a(1), end(c) == SN))),
                                     ('true if and only if there is one', c.ret == (S[end(c)] == c.a(1)))])
parseInteger = Contract('Error::parseInteger', Q + '::parseInteger', 1, pre=wfnum, setup=su, argmods=(0,), templates=[templates],
                        post=lambda c: [('reads digits', And(P <= end(c), end(c) <= SN, span(P, end(c), digit))), ('and all of them', Not(digit(S[end(c)]))),
                                        ('the number written there, or the biggest one if it is too big', c.ret == If(V(end(c)) > INT_MAX, INT_MAX, V(end(c))))])


def str_post(c):
    r, e, d = c.retv(), end(c), S[P]
    k = q()
    return [('inside the text', And(r.n >= 0, P + 1 + r.n <= SN)), ('the characters behind the delimiter', qforall([k], Imp(And(0 <= k, k < r.n), r.el[k] == S[P + 1 + k]), r.el[k])),
            ('up to the first delimiter or the end', And(span(P + 1, P + 1 + r.n, lambda x: x != d), Or(S[P + 1 + r.n] == d, P + 1 + r.n == SN))),
            ('moves behind the string', e == If(P + 1 + r.n == SN, SN, P + r.n + 2))]


parseString = Contract('Error::parseString', Q + '::parseString', 1, pre=lambda c: wf(c) + [('a delimiter at the position', And(P < SN))], setup=su, argmods=(0,), templates=[templates], post=str_post)


def USE(c):
    return []


ALL = ['skipSpaces', 'skipUntil', 'parseInteger', 'parseString']
