"""Strings printed as Lua source (printString in src/languagedef_tostring.cpp): the escape sequences Lua reads back as the characters of the string.

The output is a ghost sequence of characters that every '<<' extends; E(k) is the place of the encoding of character k, defined by axioms."""
import z3
from vf.spec import *
from vf.values import qforall, StrLit

And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
DRIVER = '''#include "languagedef_tostring.cpp"
'''
ASSUMPTIONS = ['std::ostream: operator<< of a character or a string literal extends the output by exactly these characters', 'std::string::find( char) finds a character if and only if there is one']
I = z3.IntSort()
T = z3.Array('text', I, I)
TN = z3.Int('text_size')
E = z3.Function('place_of', I, I)
DQ, SQ, BS, LF, CR = 34, 39, 92, 10, 13


def q(n='q'):
    return z3.FreshInt(n)


def su(eng, this, args):
    eng.outroot = eng.newroot('output', Vec(z3.IntVal(0), z3.Array('output', I, I)), ('str',))
    args[0] = Loc(eng.outroot)
    args[1] = Loc(eng.newroot('text', Vec(TN, T), ('str',)))


def hooks(eng):
    def op(name, args, n):
        if name != 'operator<<' or len(args) != 2:
            return NotImplemented
        l = eng.ev(args[0])
        if not isinstance(l, Loc) or l.root != eng.outroot:
            return NotImplemented
        v = eng.rv(args[1])
        if isinstance(v, StrLit):
            cs = [z3.IntVal(b - 256 if b > 127 else b) for b in v.s.encode('utf-8')]
        elif isz(v) and z3.is_int(v) and eng.nty(args[1]) in (('int', 8, True), ('ref', ('int', 8, True))):
            cs = [v]
        else:
            return NotImplemented
        eng.trusted.add('std::ostream::operator<<')
        for x in cs:
            stl.push(eng, l, eng.read(l), x)
        return l
    eng.extra_operator = op

    def method(*a):
        if len(a) != 7:
            return NotImplemented
        name, loc, obj, bt, real, A, n = a
        if name == 'find' and bt == ('str',) and len(real) == 1 and eng.nty(real[0]) == ('int', 8, True):
            ch = A(0)
            eng.trusted.add('std::string::find')
            r, k = eng.freshint('found'), z3.Int(eng.freshname('q'))
            none = eng.num((1 << 64) - 1, ('int', 64, False))
            eng.assume(Or(And(0 <= r, r < obj.n, obj.el[r] == ch), And(r == none, qforall([k], Imp(And(0 <= k, k < obj.n), obj.el[k] != ch), obj.el[k]))))
            return r
        return NotImplemented
    eng.extra_method = method


def ln(x, qu):
    return If(x == 0, 4, If(Or(x == LF, x == CR, x == BS, x == qu), 2, 1))


def enc(o, p, x, qu):
    """from place p on the output is what Lua reads as the character x"""
    two = lambda y: And(o[p] == BS, o[p + 1] == y)
    return If(x == 0, And(two(48), o[p + 2] == 48, o[p + 3] == 48), If(x == LF, two(110), If(x == CR, two(114), If(Or(x == BS, x == qu), two(x), o[p] == x))))


def out(c):
    return c.eng.mem[c.eng.outroot]


QU = z3.Int('delimiter')


def wf(c):
    k = q()
    return [('text', And(0 <= TN, TN < (1 << 30))), ('characters', qforall([k], And(-128 <= T[k], T[k] <= 127), T[k])),
            ('places (definition)', And(Or(QU == DQ, QU == SQ), E(0) == 1, qforall([k], Imp(k >= 0, E(k + 1) == E(k) + ln(T[k], QU)), T[k])))]


def post(c):
    o = c.an(0)
    k = q()
    return [('delimited by the same quote on both sides', And(o.n >= 2, Or(o.el[0] == DQ, o.el[0] == SQ), o.el[o.n - 1] == o.el[0])),
            ('as long as the encodings of all characters', Imp(o.el[0] == QU, o.n == E(TN) + 1)),
            ('each character is encoded in its place', Imp(o.el[0] == QU, qforall([k], Imp(And(0 <= k, k < TN), enc(o.el, E(k), T[k], QU)), T[k])))]


def templates(L):
    res = []
    k = q()
    o = L.mem[L.eng.outroot]
    for nm, v, l in L.values():
        i = None
        if isz(v) and z3.is_int(v) and L.modified(l):
            i = v
        elif hasattr(v, 'idx') and L.modified(l):
            i = v.idx
        if i is not None:
            res.append(('length ' + nm, And(0 <= i, i <= TN, Imp(o.el[0] == QU, And(o.n == E(i), i < o.n)), o.n >= 1)))
            res.append(('encoded ' + nm, Imp(o.el[0] == QU, qforall([k], Imp(And(0 <= k, k < i), And(enc(o.el, E(k), T[k], QU), E(k) >= 1, E(k) + ln(T[k], QU) <= o.n)), T[k]))))
        if isz(v) and z3.is_int(v) and not L.modified(l):
            res.append(('quote ' + nm, And(o.el[0] == v, Or(v == DQ, v == SQ))))
    return res


printString = Contract('printString', 'printString', 2, pre=wf, setup=su, templates=[templates], argmods=(0,), post=post)


def USE(c):
    return []


ALL = ['printString']
