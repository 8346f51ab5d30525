"""Numbers and priorities in grammar files (src/automaton_parser.cpp): decimal text to value, refused exactly if it is no number or too big.

V[o](k) is the value of the k characters from position o of the argument read as decimal digits, defined by axioms."""
import z3
from vf.spec import *
from vf.values import qforall

And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
DRIVER = '''#include "automaton_parser.cpp"
'''
I = z3.IntSort()
V = [z3.Function('value_from_%d' % o, I, I) for o in (0, 1)]
INT_MAX = 2147483647
MAXPRIO = 32
T = z3.Array('text', I, I)
TN = z3.Int('text_size')


def q(n='q'):
    return z3.FreshInt(n)


def su(eng, this, args):
    args[0] = Loc(eng.newroot('text', Vec(TN, T), ('str',)))


def wf(c):
    k = q()
    return [('text', And(0 <= TN, TN < (1 << 30))), ('characters', qforall([k], And(-128 <= T[k], T[k] <= 127), T[k])),
            ('value of digits (definition)', And(V[0](0) == 0, V[1](0) == 0, qforall([k], Imp(k >= 0, V[0](k + 1) == 10 * V[0](k) + T[k] - 48), T[k]),
                                                 qforall([k], Imp(k >= 1, V[1](k) == 10 * V[1](k - 1) + T[k] - 48), T[k])))]


def digits(o, n):
    k = q()
    return qforall([k], Imp(And(o <= k, k < o + n), And(48 <= T[k], T[k] <= 57)), T[k])


def refused(c, o, n, big):
    """no digits, something else than a digit, or already the value of the first characters is too big"""
    k, m = q('at'), q('m')
    pre = And(k >= 0, k < n, qforall([m], Imp(And(o <= m, m <= o + k), And(48 <= T[m], T[m] <= 57)), T[m]), V[o](k + 1) > INT_MAX)
    return Or(And(c.code == errcode(c, 'UnexpectedTokenInGrammarDef'), Or(n == 0, Not(digits(o, n)))),
              And(c.code == errcode(c, 'ValueOutOfRangeInGrammarDef'), z3.Exists([k], pre)),
              And(c.code == errcode(c, 'ComplexityMaxProductionPriorityInGrammarDef'), digits(o, n), n > 0, V[o](n) >= MAXPRIO, V[o](n) <= INT_MAX) if big else False)


def templates(L):
    out = []
    ints = [(nm, x) for nm, x, l in L.values() if isz(x) and z3.is_int(x) and L.modified(l)]
    n = TN
    for n1, x in ints:
        for o in (0, 1):
            out.append(('index %s %d' % (n1, o), And(0 <= x, x <= TN - o)))
            out.append(('digits before %s %d' % (n1, o), digits(o, x)))
        out.append(('range ' + n1, And(0 <= x, x <= INT_MAX)))
        for n2, y in ints:
            if n2 != n1:
                for o in (0, 1):
                    out.append(('value %s %s %d' % (n1, n2, o), y == V[o](x)))
    return out


toInt = Contract('convertStringToInt', 'convertStringToInt', 1, pre=wf, setup=su, templates=[templates],
                 post=lambda c: [('only numbers are accepted', And(TN > 0, digits(0, TN))), ('value of the digits', c.ret == V[0](TN)), ('in the range of the type', And(0 <= c.ret, c.ret <= INT_MAX))],
                 throws=lambda c: [('only what is no number of the type is refused, with its own error', refused(c, 0, TN, False))])
toPrioValue = Contract('convertStringToPriorityValue', 'convertStringToPriorityValue', 1, pre=wf, setup=su, templates=[templates],
                       post=lambda c: [('only numbers are accepted', And(TN > 0, digits(0, TN))), ('value of the digits', c.ret == V[0](TN)), ('below the limit of priorities', And(0 <= c.ret, c.ret < MAXPRIO))],
                       throws=lambda c: [('only what is no number or above the limit is refused, with its own error', refused(c, 0, TN, True))])
L_, R_ = 76, 82


def letter(x):
    return Or(x == L_, x == R_)


def prio_post(c):
    r = c.retv()
    v, a = r.f['value'], r.f['assoziativity']
    un, le, ri = 0, c.eng.db.enumconst['mewa::Left'], c.eng.db.enumconst['mewa::Right']
    side = lambda x: If(x == L_, le, ri)
    first, last = letter(T[0]), letter(T[TN - 1])
    return [('an empty text is refused', TN > 0),
            ('a letter alone: associativity without priority', Imp(And(first, TN == 1), And(v == 0, a == side(T[0])))),
            ('letter before the digits', Imp(And(first, TN > 1), And(digits(1, TN - 1), v == V[1](TN - 1), a == side(T[0])))),
            ('letter after the digits', Imp(And(Not(first), last), And(TN > 1, digits(0, TN - 1), v == V[0](TN - 1), a == side(T[TN - 1])))),
            ('digits only', Imp(And(Not(first), Not(last)), And(digits(0, TN), v == V[0](TN), a == un))), ('below the limit of priorities', And(0 <= v, v < MAXPRIO))]


def prio_throws(c):
    first, last = letter(T[0]), letter(T[TN - 1])
    return [('only what is no priority is refused, with its own error',
             Or(And(TN == 0, c.code == errcode(c, 'UnexpectedTokenInGrammarDef')), And(TN > 1, first, refused(c, 1, TN - 1, True)), And(Not(first), last, refused(c, 0, TN - 1, True)),
                And(Not(first), Not(last), refused(c, 0, TN, True))))]


toPrio = Contract('convertStringToPriority', 'convertStringToPriority', 1, pre=wf, setup=su, templates=[templates], post=prio_post, throws=prio_throws)


def USE(c):
    return []


ALL = ['toInt', 'toPrioValue', 'toPrio']
