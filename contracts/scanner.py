"""Scanner (src/lexer.hpp, src/lexer.cpp): positions, lines, indentation.

The source is a sequence of n characters followed by a terminator (element n); N(k) is the number of line ends before
position k, W(k) the sum of the widths of the characters before k for a tabulator size; both are defined by axioms."""
import z3
from vf.spec import *

And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies
DRIVER = '''#include "lexer.cpp"
'''
Q = 'mewa::Scanner'
N = z3.Function('line_ends_before', z3.IntSort(), z3.IntSort())
W = z3.Function('width_before', z3.IntSort(), z3.IntSort())
B = z3.Int('indent_begin')
SL = z3.Int('pattern_length')
NL = 10
OCC = z3.Function('occurs_at', z3.IntSort(), z3.IntSort(), z3.BoolSort())    # (search from, position)
FST = z3.Int('first_occurrence')
EX = z3.Bool('occurs')


def occ_def(s, p, j, i):
    """the pattern p (from j) occurs at k in the null terminated string that begins at i"""
    k, m, l = q(), q('m'), q('m')
    body = And(k >= i, qforall([m], Imp(And(0 <= m, m < SL), s.el[k + m] == p.el[j + m])), qforall([l], Imp(And(i <= l, l < k + SL), s.el[l] != 0), s.el[l]))
    return z3.ForAll([k], OCC(i, k) == body, patterns=[OCC(i, k)])


def q(n='q'):
    return z3.FreshInt(n)


def u8(x):
    return z3.If(x < 0, x + 256, x)


def spc(x):
    return And(x != 0, u8(x) <= 32)


def src(c):
    return c.o('m_src')


def pos(v):
    return v.loc.path[-1][1]


def idx(c, new=False):
    return pos((c.n if new else c.o)('m_srcitr'))


def hooks(eng):
    def func(name, args, n, d):
        if name == 'strstr':
            a, b = eng.rv(args[0]), eng.rv(args[1])
            s, i = stl.seq_of(eng, a)
            p, j = stl.seq_of(eng, b)
            eng.trusted.add('std::strstr')
            if eng.bounds:
                eng.check('bounds', 'string inside the source', And(i >= 0, i <= s.n), n)
            f, null = eng.freshint('found'), eng.freshbool('notfound')
            k = z3.Int(eng.freshname('q'))
            eng.assume(occ_def(s, p, j, i))
            eng.assume(Imp(Not(null), And(OCC(i, f), z3.ForAll([k], Imp(And(i <= k, k < f), Not(OCC(i, k))), patterns=[OCC(i, k)]))))
            eng.assume(Imp(null, z3.ForAll([k], Not(OCC(i, k)), patterns=[OCC(i, k)])))
            return Ptr(Loc(a.loc.root, a.loc.path[:-1] + (('i', f),)), null)
        if name == 'strlen':
            a = eng.rv(args[0])
            s, i = stl.seq_of(eng, a)
            eng.trusted.add('std::strlen')
            eng.check('pre', 'length of the pattern', i == 0, n)
            return SL
        return NotImplemented
    eng.extra_function = func


def su(eng, this, args):
    i = z3.Int('position')
    v = eng.read(this)
    d = dict(v.f)
    d['m_srcitr'] = Ptr(Loc(this.root, (('f', 'm_src'), ('i', i))), False)
    eng.mem[this.root] = Rec(v.t, d)
    eng.zterm.append((this.root, (('f', 'm_src'),)))
    for k, a in enumerate(args):
        if isinstance(a, Ptr):
            r = eng.newroot('pattern', Vec(SL + 1, z3.Array('pattern', z3.IntSort(), z3.IntSort())), ('str',))
            args[k] = Ptr(Loc(r, (('i', z3.IntVal(0)),)), False)


def wf(c, tab=None):
    s = src(c)
    k = q()
    out = [('terminated source', s.el[s.n] == 0), ('size', And(0 <= s.n, s.n < (1 << 30))), ('position inside the source', And(0 <= idx(c), idx(c) <= s.n)),
           ('characters', qforall([k], And(-128 <= s.el[k], s.el[k] <= 127), s.el[k])),
           ('line ends (definition)', And(N(0) == 0, qforall([k], N(k + 1) == N(k) + z3.If(s.el[k] == NL, 1, 0), s.el[k]), qforall([k], Imp(k >= 0, And(0 <= N(k), N(k) <= k)), N(k)))),
           ('line is the number of line ends before the position plus one', c.o('m_line') == 1 + N(idx(c)))]
    return out


def line_inv(c):
    return ('line is the number of line ends before the position plus one', c.n('m_line') == 1 + N(idx(c, True)))


def same_src(c):
    s, t = c.o('m_src'), c.n('m_src')
    return ('the source is unchanged', And(s.n == t.n, s.el == t.el))


def first_nonspace(c, start, end):
    """end is the first position from start on that is no space"""
    s = src(c)
    k = q()
    return And(start <= end, end <= s.n, qforall([k], Imp(And(start <= k, k < end), spc(s.el[k])), s.el[k]), Not(spc(s.el[end])))


def next_post(c):
    s = src(c)
    t = idx(c) + c.a(0)
    return [('position inside the source', And(0 <= t, t <= s.n)), ('stops at the first character from there that is no space', first_nonspace(c, t, idx(c, True))),
            line_inv(c), ('returns the position', pos(c.ret) == idx(c, True))]


def next_throws(c):
    s = src(c)
    t = idx(c) + c.a(0)
    return [('only positions outside the source are refused', Or(t < 0, t > s.n)), ('with its own error', c.code == errcode(c, 'ArrayBoundReadInLexer')),
            ('position and line are unchanged', And(idx(c, True) == idx(c), c.n('m_line') == c.o('m_line')))]


def this_of(L):
    t = L.eng.frames[-1].this
    return t


def cursor_templates(L):
    t = this_of(L)
    if t is None:
        return []
    out = []
    v, o = L.read(t), L.read(t, L.entry)
    if not isinstance(v, Rec) or 'm_srcitr' not in v.f:
        return []
    s = v.f['m_src']
    p, p0 = pos(v.f['m_srcitr']), pos(o.f['m_srcitr'])
    k = q()
    out.append(('cursor in range', And(0 <= p, p <= s.n)))
    out.append(('line of cursor', v.f['m_line'] == 1 + N(p)))
    out.append(('cursor not before', p >= p0))
    out.append(('cursor not behind', p <= p0))
    out.append(('spaces passed', qforall([k], Imp(And(p0 <= k, k < p), spc(s.el[k])), s.el[k])))
    for nm, x, l in L.values():
        if isz(x) and z3.is_int(x) and L.modified(l):
            x0 = L.read(l, L.entry)
            out.append(('rest ' + nm, p + x == p0 + x0))
            out.append(('not positive ' + nm, x <= 0))
            out.append(('not negative ' + nm, x >= 0))
    return out


next_ = Contract('Scanner::next', Q + '::next', 1, pre=lambda c: wf(c) + [('increment', And(-(1 << 30) <= c.a(0), c.a(0) <= (1 << 30)))], post=next_post, throws=next_throws, modifies=('m_srcitr', 'm_line'), setup=su,
                 templates=[cursor_templates],
                 retloc=lambda c: Ptr(Loc(c.this.root, c.n('m_srcitr').loc.path), False))


def pat(c):
    l = c.args[0].loc
    return c.eng.read_in(c.old, Loc(l.root, l.path[:-1]))


def patwf(c):
    p = pat(c)
    k = q()
    return wf(c) + [('pattern', And(0 <= SL, SL < (1 << 28), p.el[SL] == 0, qforall([k], Imp(And(0 <= k, k < SL), p.el[k] != 0), p.el[k]), qforall([k], And(-128 <= p.el[k], p.el[k] <= 127), p.el[k])))]


def hit(c, x):
    s, p, k = src(c), pat(c), q()
    return qforall([k], Imp(And(0 <= k, k < SL), s.el[x + k] == p.el[k]), p.el[k])


def match_templates(L):
    t = this_of(L)
    out = []
    if t is None:
        return out
    v = L.read(t)
    if not isinstance(v, Rec) or 'm_srcitr' not in v.f:
        return out
    s, p = v.f['m_src'], pos(v.f['m_srcitr'])
    k = q()
    strs = []
    for nm, x, l in L.values():
        if isinstance(x, Ptr) and x.loc is not None and x.loc.path and x.loc.path[-1][0] == 'i' and x.loc.root != t.root:
            strs.append((nm, L.read(Loc(x.loc.root, x.loc.path[:-1])), x.loc.path[-1][1]))
    ints = [(nm, x, l) for nm, x, l in L.values() if isz(x) and z3.is_int(x) and L.modified(l)]
    for nm, x, l in ints:
        out.append(('inside %s' % nm, And(0 <= x, p + x <= s.n)))
        for n2, y, j in strs:
            out.append(('prefix %s %s' % (nm, n2), qforall([k], Imp(And(0 <= k, k < x), And(s.el[p + k] == y.el[j + k], y.el[j + k] != 0)), y.el[j + k])))
            out.append(('inside pattern %s %s' % (nm, n2), x <= y.n - 1))
        for n2, y, l2 in ints:
            if n2 != nm:
                out.append(('lines %s %s' % (nm, n2), x == N(p + y) - N(p)))
    return out


def match_post(c):
    e = idx(c, True)
    return [('true if and only if the pattern follows', c.ret == hit(c, idx(c))), ('moves behind the pattern', e == z3.If(c.ret, idx(c) + SL, idx(c))),
            ('position inside the source', And(0 <= e, e <= src(c).n)), line_inv(c)]


match = Contract('Scanner::match', Q + '::match', 1, pre=patwf, post=match_post, modifies=('m_srcitr', 'm_line'), setup=su, templates=[match_templates])


def scanwf(c):
    i, k = idx(c), q()
    return patwf(c) + [('occurrences (definition)', occ_def(src(c), pat(c), 0, i)),
                       ('first occurrence before the end (definition)', z3.If(EX, And(OCC(i, FST), z3.ForAll([k], Imp(k < FST, Not(OCC(i, k))), patterns=[OCC(i, k)])), z3.ForAll([k], Not(OCC(i, k)), patterns=[OCC(i, k)])))]


def scan_post(c):
    s, e = src(c), idx(c, True)
    return [('true if and only if the pattern occurs before the end', c.ret == EX), ('not found: nothing changed', Imp(Not(EX), And(e == idx(c), c.n('m_line') == c.o('m_line')))),
            ('found: moves behind the first occurrence and following spaces', Imp(EX, first_nonspace(c, FST + SL, e))), ('position inside the source', And(0 <= e, e <= s.n)), line_inv(c)]


scan = Contract('Scanner::scan', Q + '::scan', 1, pre=scanwf, post=scan_post, modifies=('m_srcitr', 'm_line'), setup=su)


def ind(x):
    return And(u8(x) <= 32, x != NL)


def indwf(c):
    s, k = src(c), q()
    t = c.a(0)
    return wf(c) + [('tabulator size', And(0 <= t, t < (1 << 16))),
                    ('widths (definition)', And(W(0) == 0, qforall([k], W(k + 1) == W(k) + z3.If(s.el[k] == 9, t, 1), s.el[k]), z3.ForAll([k], Imp(And(0 <= k, k <= idx(c)), W(k) <= W(idx(c))), patterns=[W(k)]))),
                    ('width fits into an int', W(idx(c)) < (1 << 31)),
                    ('begin of the spaces before the position (definition)', And(0 <= B, B <= idx(c), qforall([k], Imp(And(B <= k, k < idx(c)), ind(s.el[k])), s.el[k]), Or(B == 0, Not(ind(s.el[B - 1])))))]


def indent_value(c):
    s = src(c)
    return z3.If(Or(B == 0, s.el[B - 1] == NL), W(idx(c)) - W(B), -1)


def indent_templates(L):
    t = this_of(L)
    out = []
    if t is None:
        return out
    v = L.read(t)
    s, p = v.f['m_src'], pos(v.f['m_srcitr'])
    k = q()
    for n1, x, l1 in L.values():
        if isinstance(x, Ptr) and x.loc.root == t.root and L.modified(l1):
            a = pos(x)
            out.append(('range ' + n1, And(B <= a, a <= p)))
            for n2, y, l2 in L.values():
                if isz(y) and z3.is_int(y) and L.modified(l2):
                    out.append(('width %s %s' % (n1, n2), y == W(p) - W(a)))
    return out


indentCount = Contract('Scanner::indentCount', Q + '::indentCount', 1, pre=indwf, post=lambda c: [('width of the spaces between the begin of the line and the position, -1 if there is something else', c.ret == indent_value(c))], setup=su,
                       templates=[indent_templates])


def stack(v):
    """the open indentations: positive and increasing"""
    i, j = q(), q()
    return And(v.n >= 0, qforall([i, j], Imp(And(0 <= i, i < j, j < v.n), v.el[i] < v.el[j]), v.el[i], v.el[j]), qforall([i], Imp(And(0 <= i, i < v.n), v.el[i] > 0), v.el[i]))


def prefix_same(a, b, n):
    k = q()
    return qforall([k], Imp(And(0 <= k, k < n), a.el[k] == b.el[k]), b.el[k])


NONE, NEWLINE, OPEN, CLOSE = 'IndentNone', 'IndentNewLine', 'IndentOpen', 'IndentClose'


def en(c, nm):
    return c.eng.db.enumconst['mewa::Scanner::' + nm]


def tok_post(c):
    o, n = c.o('m_indentstk'), c.n('m_indentstk')
    w = indent_value(c)
    top = z3.If(o.n == 0, 0, o.el[o.n - 1])
    co, cn = c.o('m_indentConsumed'), c.n('m_indentConsumed')
    quiet = Or(co, w == -1)
    unch = And(n.n == o.n, prefix_same(o, n, o.n))
    return [('open indentations are positive and increasing', stack(n)),
            ('nothing when the new line is already announced or the position is not the begin of a line', Imp(quiet, And(c.ret == en(c, NONE), unch, Not(cn)))),
            ('deeper: the indentation is opened', Imp(And(Not(quiet), w > top), And(c.ret == en(c, OPEN), n.n == o.n + 1, prefix_same(o, n, o.n), n.el[o.n] == w, Not(cn)))),
            ('less deep: the innermost indentation is closed', Imp(And(Not(quiet), w < top), And(c.ret == en(c, CLOSE), n.n == o.n - 1, prefix_same(o, n, n.n), Not(cn)))),
            ('same: a new line is announced', Imp(And(Not(quiet), w == top), And(c.ret == en(c, NEWLINE), unch, cn)))]


getIndentToken = Contract('Scanner::getIndentToken', Q + '::getIndentToken', 1, pre=lambda c: indwf(c) + [('open indentations', stack(c.o('m_indentstk')))], post=tok_post, setup=su, modifies=('m_indentstk', 'm_indentConsumed'))


def eof_post(c):
    o, n = c.o('m_indentstk'), c.n('m_indentstk')
    return [('closes the innermost indentation that is open', Imp(o.n > 0, And(c.ret == en(c, CLOSE), n.n == o.n - 1, prefix_same(o, n, n.n)))),
            ('nothing when none is open', Imp(o.n == 0, And(c.ret == en(c, NONE), n.n == 0))), ('open indentations are positive and increasing', stack(n))]


getEofIndentToken = Contract('Scanner::getEofIndentToken', Q + '::getEofIndentToken', 0, pre=lambda c: wf(c) + [('open indentations', stack(c.o('m_indentstk')))], post=eof_post, setup=su, modifies=('m_indentstk',))
restsize = Contract('Scanner::restsize', Q + '::restsize', 0, pre=wf, post=lambda c: [('number of characters left', c.ret == src(c).n - idx(c))], setup=su)


def USE(c):
    return {'scan': [next_], 'getIndentToken': [indentCount]}.get(c.name.split('::')[-1], [])


ALL = ['next_', 'match', 'scan', 'indentCount', 'getIndentToken', 'getEofIndentToken', 'restsize']
