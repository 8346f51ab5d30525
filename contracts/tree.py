"""Tree (src/tree.hpp): addChild, addSibling, constructor. Ghost HEAD[i]: first node of the list of siblings of node i (nodes are numbered from 1)."""
import z3
from vf.spec import *
from vf.values import qforall
And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
forall = qforall
DRIVER = '''#include "tree.hpp"
#include <string>
namespace vfl {
mewa::Tree<int> t_new( int item) {return mewa::Tree<int>( item);}
std::size_t t_sibling( mewa::Tree<int>& t, std::size_t n, int item) {return t.addSibling( n, item);}
std::size_t t_child( mewa::Tree<int>& t, std::size_t n, int item) {return t.addChild( n, item);}
void t_step( mewa::Tree<int>::depthfirst_iterator& i) {++i;}
std::size_t t_begin( const mewa::Tree<int>& t) {return t.begin().position();}
std::size_t t_end( const mewa::Tree<int>& t) {return t.end().position();}
std::size_t t_depth( const mewa::Tree<int>::depthfirst_iterator& i) {return i.depth();}
}
'''
Q = 'mewa::Tree<int>'
ASSUMPTIONS = ['verified for items of type int', 'less than 2^31 nodes']


def qi(n='i'):
    return z3.FreshInt(n)


class T:
    def __init__(self, t):
        a, l = t.f['m_ar'], t.f['m_lastar']
        self.n, self.ln, self.last = a.n, l.n, l.el
        f = a.el.f
        self.item, self.next, self.chld = f['m_item'], f['m_next'], f['m_chld']

    def all(self, f):
        i = qi()
        return forall([i], Imp(And(0 <= i, i < self.n), f(i)), self.next[i])


def ghosts(e, this, args):
    e.ghosts['head'] = z3.Const('ghost.first.sibling', z3.ArraySort(z3.IntSort(), z3.IntSort()))


def inv(t, HEAD):
    """index i is node i+1; HEAD maps indices to indices"""
    return [('sizes', And(t.n == t.ln, t.n >= 1)),
            ('links', t.all(lambda i: And(0 <= t.next[i], t.next[i] <= t.n, 0 <= t.chld[i], t.chld[i] <= t.n, 0 <= t.last[i], t.last[i] <= t.n))),
            ('siblings are added later', t.all(lambda i: Or(t.next[i] == 0, t.next[i] > i + 1))),
            ('children are added later', t.all(lambda i: Or(t.chld[i] == 0, t.chld[i] > i + 1))),
            ('first of the siblings', t.all(lambda i: And(0 <= HEAD[i], HEAD[i] < t.n, HEAD[HEAD[i]] == HEAD[i]))),
            ('siblings have the same first one', t.all(lambda i: Imp(t.next[i] != 0, HEAD[t.next[i] - 1] == HEAD[i]))),
            ('a first child is a first of siblings with a known last one', t.all(lambda i: Imp(t.chld[i] != 0, And(HEAD[t.chld[i] - 1] == t.chld[i] - 1, t.last[t.chld[i] - 1] != 0)))),
            ('the last one of siblings ends the list', t.all(lambda i: Imp(t.last[i] != 0, And(HEAD[i] == i, HEAD[t.last[i] - 1] == i, t.next[t.last[i] - 1] == 0)))),
            ('a list ends at its last one', t.all(lambda i: Imp(And(t.next[i] == 0, t.last[HEAD[i]] != 0), t.last[HEAD[i]] == i + 1))),
            ('the root has no siblings', And(t.next[0] == 0, t.last[0] == 0, HEAD[0] == 0))]


def pre(c):
    return inv(T(c.o()), c.eng.ghosts['head']) + [('size', T(c.o()).n < (1 << 31) - 2), ('node', And(0 <= c.a(0), c.a(0) <= T(c.o()).n))]


def added(c, t, u, last, first):
    """the new node is linked from last (index or -1) or first (index of its parent or -1)"""
    i = qi()
    return [('one node more', u.n == t.n + 1), ('the new node', And(u.item[t.n] == c.a(1), u.next[t.n] == 0, u.chld[t.n] == 0)),
            ('items unchanged', forall([i], Imp(And(0 <= i, i < t.n), u.item[i] == t.item[i]), u.item[i])),
            ('linked as the last sibling and nowhere else', forall([i], Imp(And(0 <= i, i < t.n), u.next[i] == If(i == last, t.n + 1, t.next[i])), u.next[i])),
            ('linked as the first child and nowhere else', forall([i], Imp(And(0 <= i, i < t.n), u.chld[i] == If(i == first, t.n + 1, t.chld[i])), u.chld[i]))]


def newhead(HEAD, n, v):
    return z3.Store(HEAD, n, v)


def sib_post(c):
    t, u, HEAD = T(c.o()), T(c.n()), c.eng.ghosts['head']
    k = c.a(0) - 1
    return [('a sibling of the first one of a list only', And(k >= 0, t.last[k] != 0)), ('handle of the new node', c.ret == t.n + 1), ('last known one', u.last[k] == t.n + 1)] + \
        added(c, t, u, t.last[k] - 1, z3.IntVal(-1)) + [('inv ' + nm, f) for nm, f in inv(u, newhead(HEAD, t.n, k))]


def sib_throws(c):
    t, u, HEAD = T(c.o()), T(c.n()), c.eng.ghosts['head']
    k = c.a(0) - 1
    i = qi()
    return [('refused for no node or a node that is no first sibling', And(c.code == errcode(c, 'LogicError'), Or(k < 0, t.last[k] == 0))),
            ('items and links unchanged', And(u.n >= t.n, forall([i], Imp(And(0 <= i, i < t.n), And(u.item[i] == t.item[i], u.next[i] == t.next[i], u.chld[i] == t.chld[i])), u.next[i])))] + \
        [('inv ' + nm, f) for nm, f in inv(u, newhead(HEAD, t.n, t.n))]


addSibling = Contract('Tree::addSibling', Q + '::addSibling', 2, setup=ghosts, pre=pre, post=sib_post, throws=sib_throws, modifies=('*',))


def chl_post(c):
    t, u, HEAD = T(c.o()), T(c.n()), c.eng.ghosts['head']
    k = c.a(0) - 1
    f = t.chld[k]
    return [('a node', k >= 0), ('handle of the new node', c.ret == t.n + 1)] + \
        added(c, t, u, If(f == 0, -1, t.last[f - 1] - 1), If(f == 0, k, -1)) + [('inv ' + nm, x) for nm, x in inv(u, newhead(HEAD, t.n, If(f == 0, t.n, f - 1)))]


def chl_throws(c):
    t, u = T(c.o()), T(c.n())
    i = qi()
    return [('refused for no node', And(c.code == errcode(c, 'LogicError'), c.a(0) == 0)),
            ('items and links unchanged', And(u.n >= t.n, forall([i], Imp(And(0 <= i, i < t.n), And(u.item[i] == t.item[i], u.next[i] == t.next[i], u.chld[i] == t.chld[i])), u.next[i])))]


addChild = Contract('Tree::addChild', Q + '::addChild', 2, setup=ghosts, pre=pre, post=chl_post, throws=chl_throws, modifies=('*',))


def new_post(c):
    t = T(c.retv())
    return [('a root', And(t.n == 1, t.item[0] == c.a(0), t.chld[0] == 0))] + [('inv ' + nm, f) for nm, f in inv(t, z3.K(z3.IntSort(), z3.IntVal(0)))]


ctor = Contract('Tree::Tree', 'vfl::t_new', 1, post=new_post)


# depth first order: PAR[i] node (from 1) of the parent, UP[i] index of the node after the subtree of i (size for the end)
DF = Q + '::depthfirst_iterator'


def step_setup(e, this, args):
    A = z3.ArraySort(z3.IntSort(), z3.IntSort())
    e.ghosts['par'], e.ghosts['up'] = z3.Const('ghost.parent', A), z3.Const('ghost.after.subtree', A)
    r = e.newroot('nodes', e.build(('vec', ('rec', Q + '::Node')), 'nodes'), ('vec', ('rec', Q + '::Node')))
    v = e.read(this)
    e.mem[this.root] = Rec(v.t, {**v.f, 'm_base': Ptr(Loc(r, (('i', z3.IntVal(0)),)), False)})


def step_view(eng, v):
    nd = eng.mem[v.f['m_base'].loc.root]
    S = v.f['m_stack']
    return nd, nd.el.f['m_next'], nd.el.f['m_chld'], v.f['m_idx'], S


def stack_inv(n, PAR, p, S):
    """the open nodes: the end, then the path from the root to the parent of p"""
    k = qi('k')
    return [('position', And(0 <= p, p <= n)), ('end', Imp(p == n, S.n == 0)),
            ('path to the position', Imp(p < n, And(S.n >= 1, S.el[0] == n + 1, PAR[p] == If(S.n == 1, 0, S.el[S.n - 1])))),
            ('path of open nodes', Imp(p < n, forall([k], Imp(And(1 <= k, k < S.n), And(1 <= S.el[k], S.el[k] <= n, PAR[S.el[k] - 1] == If(k == 1, 0, S.el[k - 1]))), S.el[k])))]


def step_pre(c):
    e = c.eng
    nd, nx, ch, p, S = step_view(e, c.o())
    n, PAR, UP = nd.n, e.ghosts['par'], e.ghosts['up']
    def al(f):
        i = qi()
        return forall([i], Imp(And(0 <= i, i < n), f(i)), nx[i])
    def al2(f):
        i = qi()
        return forall([i], Imp(And(0 <= i, i < n), f(i)), PAR[i])
    return [('a tree', n >= 1), ('links', al(lambda i: And(0 <= nx[i], nx[i] <= n, 0 <= ch[i], ch[i] <= n))),
            ('parents', al2(lambda i: And(0 <= PAR[i], PAR[i] <= i, Imp(PAR[i] == 0, i == 0)))), ('root', And(PAR[0] == 0, nx[0] == 0)),
            ('parent of the children', al(lambda i: Imp(ch[i] != 0, PAR[ch[i] - 1] == i + 1))), ('parent of the siblings', al(lambda i: Imp(nx[i] != 0, PAR[nx[i] - 1] == PAR[i]))),
            ('node after the subtree', al(lambda i: UP[i] == If(nx[i] != 0, nx[i] - 1, If(PAR[i] == 0, n, UP[PAR[i] - 1])))),
            ('not at the end', p < n)] + stack_inv(n, PAR, p, S)


def step_post(c):
    e = c.eng
    nd, nx, ch, p, S = step_view(e, c.o())
    _, _, _, p1, S1 = step_view(e, c.n())
    n, PAR, UP = nd.n, e.ghosts['par'], e.ghosts['up']
    return [('the first child or the node after the subtree', p1 == If(ch[p] != 0, ch[p] - 1, UP[p]))] + stack_inv(n, PAR, p1, S1)


def step_templates(L):
    e = L.eng
    out = []
    if 'par' not in e.ghosts:
        return out
    PAR, UP = e.ghosts['par'], e.ghosts['up']
    for nm, v, l in [('this', L.read(f.this), f.this) for f in e.frames[-1:] if f.this is not None]:
        if not isinstance(v, Rec) or 'm_stack' not in v.f:
            continue
        o = L.eng.read_in(L.entry, l)
        nd, nx, ch, p, S = step_view(e, v)
        p0, S0 = o.f['m_idx'], o.f['m_stack']
        n = nd.n
        for f in stack_inv(n, PAR, p, S):
            out.append((nm + ' ' + f[0], f[1]))
        out += [(nm + ' pops', And(S.el == S0.el, S.n <= S0.n)), (nm + ' no sibling', Imp(p < n, nx[p] == 0)), (nm + ' same successor', If(p < n, UP[p], n) == UP[p0]), (nm + ' not empty inside', Imp(S.n == 0, p == n))]
    return out


step = Contract('Tree::depthfirst_iterator::operator++', DF + '::operator++', 0, setup=step_setup, pre=step_pre, post=step_post, modifies=('*',), templates=[step_templates])

def beg_post(c):
    t, r = T(c.o()), c.retv()
    return [('the root first', r.f['m_idx'] == 0)] + stack_inv(t.n, z3.K(z3.IntSort(), z3.IntVal(0)), r.f['m_idx'], r.f['m_stack'])


def end_post(c):
    t, r = T(c.o()), c.retv()
    return [('after the last node', r.f['m_idx'] == t.n), ('nothing open', r.f['m_stack'].n == 0)]


begin = Contract('Tree::begin', Q + '::begin', 0, setup=ghosts, pre=lambda c: inv(T(c.o()), c.eng.ghosts['head']), post=beg_post)
end = Contract('Tree::end', Q + '::end', 0, setup=ghosts, pre=lambda c: inv(T(c.o()), c.eng.ghosts['head']), post=end_post)
depth = Contract('Tree::depthfirst_iterator::depth', DF + '::depth', 0, setup=step_setup, post=lambda c: [('number of open nodes without the end', c.ret == If(c.o('m_stack').n == 0, 0, c.o('m_stack').n - 1))])
ALL = ['addSibling', 'addChild', 'ctor', 'step', 'begin', 'end', 'depth']


def USE(c):
    return [addSibling] if c is addChild else []
