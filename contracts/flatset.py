"""FlatSet (src/automaton_structs.hpp)."""
import z3
from vf.spec import *

And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies
DRIVER = '''#include "automaton_structs.hpp"
template class mewa::FlatSet<int>;
namespace vfl {
#define FS mewa::FlatSet<int>
bool f_insert( FS& a, int e) {return a.insert( e);}
bool f_union( FS& a, const FS& b) {return a.insert( b.begin(), b.end());}
bool f_eq( const FS& a, const FS& b) {return a == b;}
bool f_ne( const FS& a, const FS& b) {return a != b;}
FS f_copy( const FS& a) {return FS( a);}
void f_assign( FS& a, const FS& b) {a = b;}
void f_move( FS& a, FS& b) {a = std::move( b);}
void f_clear( FS& a) {a.clear();}
bool f_contains( const FS& a, int e) {return a.contains( e);}
FS f_list( const std::initializer_list<int>& l) {return FS( l);}
void t_insert( mewa::TransitionState& a, const mewa::TransitionItem& i) {a.insert( i);}
}
'''
Q = 'mewa::FlatSet<int>'


def q(n='q'):
    return z3.FreshInt(n)


def dom(V, i):
    return And(0 <= i, i < V.n)


def sorted_(V):
    i, j = q(), q()
    return qforall([i, j], Imp(And(0 <= i, i < j, j < V.n), V.el[i] < V.el[j]), V.el[i], V.el[j])


def mem(V, x):
    i = q('m')
    return z3.Exists([i], And(dom(V, i), V.el[i] == x))


def subset(A, B, *xs, n=None):
    """each element of A (up to n) is in B or one of xs"""
    i = q()
    return qforall([i], Imp(And(0 <= i, i < (A.n if n is None else n)), Or(*[A.el[i] == x for x in xs], mem(B, A.el[i]))), A.el[i])


def same(A, B):
    i = q()
    return And(A.n == B.n, qforall([i], Imp(dom(A, i), A.el[i] == B.el[i]), A.el[i]))


def ins_post(o, n, x, ret):
    return [('sorted without duplicates', sorted_(n)), ('contains the elements it had', subset(o, n)), ('contains the new element', mem(n, x)),
            ('nothing else', subset(n, o, x)), ('reports whether the element is new', ret == Not(mem(o, x))), ('grows exactly by new elements', n.n == z3.If(ret, o.n + 1, o.n))]


insertInOrder = Contract('FlatSet::insertInOrder', Q + '::insertInOrder', 1, pre=lambda c: [('sorted', sorted_(c.o()))],
                         post=lambda c: ins_post(c.o(), c.n(), c.a(0), c.ret), modifies=('*',))
def reserve_templates(L):
    out = []
    ints = [(nm, v, l) for nm, v, l in L.values() if isz(v) and z3.is_int(v)]
    for nm, v, l in ints:
        if L.modified(l):
            out.append(('at least the entry value ' + nm, v >= L.read(l, L.entry)))
            for n2, w, l2 in ints:
                if not L.modified(l2):
                    out.append(('at most twice %s %s' % (nm, n2), Or(v <= 2 * w, v == L.read(l, L.entry))))
    return out


reserveSize = Contract('FlatSet::reserveSize', Q + '::reserveSize', 1, pre=lambda c: [('size', And(0 <= c.a(0), c.a(0) <= (1 << 40)))],
                       post=lambda c: [('capacity for all elements', c.ret >= c.a(0))], templates=[reserve_templates])
insertElem = Contract('FlatSet::insert(elem)', 'vfl::f_insert', 2, pre=lambda c: [('sorted', sorted_(c.a(0)))], post=lambda c: ins_post(c.a(0), c.an(0), c.a(1), c.ret), argmods=(0,))
contains = Contract('FlatSet::contains', Q + '::contains', 1, pre=lambda c: [('sorted', sorted_(c.o()))], post=lambda c: [('true for elements only', c.ret == mem(c.o(), c.a(0)))])


def cmp_templates(L):
    """prefixes are equal"""
    its = [(nm, v) for nm, v, l in L.values() if isinstance(v, VIt)]
    out = []
    for n1, v1 in its:
        for n2, v2 in its:
            if n1 < n2 and not sameloc(v1.loc, v2.loc):
                a, b = L.read(v1.loc), L.read(v2.loc)
                i = q()
                out.append(('prefix equal %s %s' % (n1, n2), And(v1.idx == v2.idx, qforall([i], Imp(And(0 <= i, i < v1.idx), a.el[i] == b.el[i]), a.el[i]))))
    for n1, v1 in its:
        out.append(('range ' + n1, And(0 <= v1.idx, v1.idx <= L.read(v1.loc).n)))
    return out


compare = Contract('FlatSet::compare', Q + '::compare', 1, post=lambda c: [('zero for equal sets only', (c.ret == 0) == same(c.o(), c.a(0)))], templates=[cmp_templates])
eq = Contract('FlatSet::operator==', 'vfl::f_eq', 2, post=lambda c: [('equal if and only if the elements are', c.ret == same(c.a(0), c.a(1)))])
ne = Contract('FlatSet::operator!=', 'vfl::f_ne', 2, post=lambda c: [('different if and only if the elements are', c.ret == Not(same(c.a(0), c.a(1))))])
copy = Contract('FlatSet copy constructor', 'vfl::f_copy', 1, post=lambda c: [('same elements', same(c.a(0), c.retv()))])
assign = Contract('FlatSet copy assignment', 'vfl::f_assign', 2, post=lambda c: [('same elements', same(c.a(1), c.an(0))), ('source unchanged', same(c.a(1), c.an(1)))], argmods=(0,))
move = Contract('FlatSet move assignment', 'vfl::f_move', 2, post=lambda c: [('elements of the source', same(c.a(1), c.an(0)))], argmods=(0, 1))
clear = Contract('FlatSet::clear', 'vfl::f_clear', 1, post=lambda c: [('empty', c.an(0).n == 0)], argmods=(0,))


def union_templates(L):
    out = []
    vals = L.values()
    its = [(nm, v) for nm, v, l in vals if isinstance(v, VIt)]
    bools = [(nm, v) for nm, v, l in vals if isz(v) and z3.is_bool(v)]
    tgts = []
    fr = L.eng.frames[-1]
    if fr.this is not None:
        tgts.append(fr.this)
    for n1, v1 in its:
        s = L.read(v1.loc)
        out.append(('range ' + n1, And(0 <= v1.idx, v1.idx <= s.n)))
        for t in tgts:
            if t.root == v1.loc.root:
                continue
            V, O = L.read(t), L.read(t, L.entry)
            out.append(('sorted', sorted_(V)))
            out.append(('kept', subset(O, V)))
            out.append(('prefix in ' + n1, subset(s, V, n=v1.idx)))
            i, m = q(), q('m')
            out.append(('only these ' + n1, qforall([i], Imp(dom(V, i), Or(mem(O, V.el[i]), z3.Exists([m], And(0 <= m, m < v1.idx, s.el[m] == V.el[i])))), V.el[i])))
            out.append(('size', V.n >= O.n))
            for n2, b in bools:
                out.append(('grown %s' % n2, b == (V.n > O.n)))
                out.append(('all old %s %s' % (n2, n1), Imp(Not(b), subset(s, O, n=v1.idx))))
                out.append(('some new %s %s' % (n2, n1), Imp(b, z3.Exists([m], And(0 <= m, m < v1.idx, Not(mem(O, s.el[m])))))))
    return out


def union_post(o, s, n, ret):
    i, m = q(), q('m')
    out = [('sorted without duplicates', sorted_(n)), ('contains the elements it had', subset(o, n)), ('contains the elements added', subset(s, n)),
           ('nothing else', qforall([i], Imp(dom(n, i), Or(mem(o, n.el[i]), mem(s, n.el[i]))), n.el[i]))]
    if ret is not None:
        out += [('reports new elements', Imp(ret, z3.Exists([m], And(dom(s, m), Not(mem(o, s.el[m])))))), ('reports no new elements', Imp(Not(ret), subset(s, o)))]
    return out


union = Contract('FlatSet::insert(range)', 'vfl::f_union', 2, pre=lambda c: [('sorted', sorted_(c.a(0)))], post=lambda c: union_post(c.a(0), c.a(1), c.an(0), c.ret), argmods=(0,), templates=[union_templates])
fromlist = Contract('FlatSet(initializer_list)', 'vfl::f_list', 1, post=lambda c: [('sorted without duplicates', sorted_(c.retv())), ('contains the elements of the list', subset(c.a(0), c.retv())),
                                                                                   ('nothing else', subset(c.retv(), c.a(0)))], templates=[union_templates])


def USE(c):
    return ([reserveSize] if c is not reserveSize else []) + {'insertElem': [insertInOrder]}.get(c.name, [] if c is insertInOrder else [insertInOrder] + ([compare] if c in (eq, ne) else []))


ALL = ['reserveSize', 'insertInOrder', 'insertElem', 'contains', 'compare', 'eq', 'ne', 'copy', 'assign', 'move', 'clear', 'union', 'fromlist']
