"""Packing of parser tables and transition items (src/automaton.hpp, src/automaton_structs.hpp): machine arithmetic, all field values.
The lemma functions call the real packed()/unpack()/constructors, which are inlined into the obligations, so nothing depends on the layout."""
import z3
from vf.spec import *

MODE = 'bv'
DRIVER = '''#include "automaton.hpp"
#include "automaton_structs.hpp"
namespace vfl {
using namespace mewa;
typedef Automaton A;
int k_state( int s, int t) {return A::ActionKey::unpack( A::ActionKey( s, t).packed()).state();}
int k_term( int s, int t) {return A::ActionKey::unpack( A::ActionKey( s, t).packed()).terminal();}
bool k_eq( int s, int t) {return A::ActionKey::unpack( A::ActionKey( s, t).packed()) == A::ActionKey( s, t);}
int k_pack( int s, int t) {return A::ActionKey( s, t).packed();}
bool k_lt( int s, int t, int s2, int t2) {return A::ActionKey( s, t) < A::ActionKey( s2, t2);}
bool k_ne( int s, int t, int s2, int t2) {return A::ActionKey( s, t) != A::ActionKey( s2, t2);}
bool k_eq2( int s, int t, int s2, int t2) {return A::ActionKey( s, t) == A::ActionKey( s2, t2);}
int g_state( int s, int t) {return A::GotoKey::unpack( A::GotoKey( s, t).packed()).state();}
int g_nont( int s, int t) {return A::GotoKey::unpack( A::GotoKey( s, t).packed()).nonterminal();}
bool g_eq( int s, int t) {return A::GotoKey::unpack( A::GotoKey( s, t).packed()) == A::GotoKey( s, t);}
int g_pack( int s, int t) {return A::GotoKey( s, t).packed();}
bool g_lt( int s, int t, int s2, int t2) {return A::GotoKey( s, t) < A::GotoKey( s2, t2);}
bool g_ne( int s, int t, int s2, int t2) {return A::GotoKey( s, t) != A::GotoKey( s2, t2);}
bool g_eq2( int s, int t, int s2, int t2) {return A::GotoKey( s, t) == A::GotoKey( s2, t2);}
int v_state( int s) {return A::Goto::unpack( A::Goto( s).packed()).state();}
int v_pack( int s) {return A::Goto( s).packed();}
bool v_eq( int s) {return A::Goto::unpack( A::Goto( s).packed()) == A::Goto( s);}
bool v_ne( int s, int s2) {return A::Goto( s) != A::Goto( s2);}
bool v_eq2( int s, int s2) {return A::Goto( s) == A::Goto( s2);}
#define MKACT A::Action( (A::Action::Type)ty, (A::Action::ScopeFlag)sf, v, c, n)
#define ARGS int ty, int sf, int v, int c, int n
int a_type( ARGS) {return (int)A::Action::unpack( MKACT.packed()).type();}
int a_scope( ARGS) {return (int)A::Action::unpack( MKACT.packed()).scopeflag();}
int a_state( ARGS) {return A::Action::unpack( MKACT.packed()).state();}
int a_nont( ARGS) {return A::Action::unpack( MKACT.packed()).nonterminal();}
int a_call( ARGS) {return A::Action::unpack( MKACT.packed()).call();}
int a_count( ARGS) {return A::Action::unpack( MKACT.packed()).count();}
bool a_eq( ARGS) {return A::Action::unpack( MKACT.packed()) == MKACT;}
int a_pack( ARGS) {return MKACT.packed();}
bool a_ne( ARGS, int ty2, int sf2, int v2, int c2, int n2) {return MKACT != A::Action( (A::Action::Type)ty2, (A::Action::ScopeFlag)sf2, v2, c2, n2);}
bool a_eq2( ARGS, int ty2, int sf2, int v2, int c2, int n2) {return MKACT == A::Action( (A::Action::Type)ty2, (A::Action::ScopeFlag)sf2, v2, c2, n2);}
bool a_shift( int st) {return A::Action::shift( st) == A::Action( A::Action::Shift, A::Action::NoScope, st, 0, 0);}
bool a_reduce( ARGS) {return A::Action::reduce( v, (A::Action::ScopeFlag)sf, c, n) == A::Action( A::Action::Reduce, (A::Action::ScopeFlag)sf, v, c, n);}
bool a_accept( ARGS) {return A::Action::accept( v, (A::Action::ScopeFlag)sf, c, n) == A::Action( A::Action::Accept, (A::Action::ScopeFlag)sf, v, c, n);}
int i_prod( int p, int q, int f) {return TransitionItem::unpack( TransitionItem( p, q, f).packed()).prodindex;}
int i_pos( int p, int q, int f) {return TransitionItem::unpack( TransitionItem( p, q, f).packed()).prodpos;}
int i_follow( int p, int q, int f) {return TransitionItem::unpack( TransitionItem( p, q, f).packed()).follow;}
int i_pack( int p, int q, int f) {return TransitionItem( p, q, f).packed();}
bool i_lt( int p, int q, int f, int p2, int q2, int f2) {return TransitionItem( p, q, f) < TransitionItem( p2, q2, f2);}
bool i_ltp( int p, int q, int f, int p2, int q2, int f2) {return TransitionItem( p, q, f).packed() < TransitionItem( p2, q2, f2).packed();}
bool i_eq( int p, int q, int f, int p2, int q2, int f2) {return TransitionItem( p, q, f) == TransitionItem( p2, q2, f2);}
bool i_ne( int p, int q, int f, int p2, int q2, int f2) {return TransitionItem( p, q, f) != TransitionItem( p2, q2, f2);}
#define MKP( v, a) Priority( v, (Assoziativity)(a))
int p_value( short v, short a) {return Priority::unpack( MKP( v, a).packed()).value;}
int p_assoc( short v, short a) {return (int)Priority::unpack( MKP( v, a).packed()).assoziativity;}
bool p_lt( short v, short a, short v2, short a2) {return MKP( v, a) < MKP( v2, a2);}
bool p_eq( short v, short a, short v2, short a2) {return MKP( v, a) == MKP( v2, a2);}
bool p_ne( short v, short a, short v2, short a2) {return MKP( v, a) != MKP( v2, a2);}
bool p_def( short v, short a) {return MKP( v, a).defined();}
}
'''
B = lambda x: z3.BitVecVal(x, 32)
LIM = {'state': 1 << 12, 'term': 1 << 10, 'nont': 1 << 8, 'count': 1 << 4, 'call': 1 << 10, 'sf': 3, 'ty': 3, 'prod': 1 << 9}


def rng(*names):
    return lambda c: [('argument %d within the limit' % i, z3.And(c.a(i) >= 0, c.a(i) < z3.BitVecVal(LIM[n], c.a(i).size()))) for i, n in enumerate(names)]


def ret_is(i):
    return lambda c: [('unpacking gives the field packed', c.ret == (c.a(i) if c.a(i).size() == 32 else z3.SignExt(32 - c.a(i).size(), c.a(i))))]


istrue = lambda c: [('equal to the original', c.ret)]
def eqpost(n, neg=False):
    def f(c):
        e = z3.And(*[c.a(i) == c.a(i + n) for i in range(n)])
        return [('compares all fields', c.ret == (z3.Not(e) if neg else e))]
    return f


def lex(xs, ys):
    if not xs:
        return z3.BoolVal(False)
    return z3.Or(xs[0] < ys[0], z3.And(xs[0] == ys[0], lex(xs[1:], ys[1:])))


def ltpost(n):
    return lambda c: [('ordered by the fields', c.ret == lex([c.a(i) for i in range(n)], [c.a(i + n) for i in range(n)]))]


def positive(n):
    return lambda c: [('positive unless all fields are zero', z3.And(c.ret >= 0, (c.ret == 0) == z3.And(*[c.a(i) == 0 for i in range(n)])))]


def mk(name, pre, post):
    n = len(pre)
    c = Contract(name, 'vfl::' + name, n, pre=rng(*pre), post=post)
    globals()[name] = c
    return name


S, T, N = 'state', 'term', 'nont'
ACT = ['ty', 'sf', 'state', 'call', 'count']
C11 = [mk('k_state', [S, T], ret_is(0)), mk('k_term', [S, T], ret_is(1)), mk('k_eq', [S, T], istrue), mk('k_pack', [S, T], positive(2)),
       mk('k_lt', [S, T] * 2, ltpost(2)), mk('k_eq2', [S, T] * 2, eqpost(2)), mk('k_ne', [S, T] * 2, eqpost(2, True)),
       mk('g_state', [S, N], ret_is(0)), mk('g_nont', [S, N], ret_is(1)), mk('g_eq', [S, N], istrue), mk('g_pack', [S, N], positive(2)),
       mk('g_lt', [S, N] * 2, ltpost(2)), mk('g_eq2', [S, N] * 2, eqpost(2)), mk('g_ne', [S, N] * 2, eqpost(2, True)),
       mk('v_state', [S], ret_is(0)), mk('v_eq', [S], istrue), mk('v_pack', [S], positive(1)), mk('v_eq2', [S] * 2, eqpost(1)), mk('v_ne', [S] * 2, eqpost(1, True)),
       mk('a_type', ACT, ret_is(0)), mk('a_scope', ACT, ret_is(1)), mk('a_state', ACT, ret_is(2)), mk('a_nont', ACT, ret_is(2)), mk('a_call', ACT, ret_is(3)),
       mk('a_count', ACT, ret_is(4)), mk('a_eq', ACT, istrue), mk('a_pack', ACT, positive(5)), mk('a_eq2', ACT * 2, eqpost(5)), mk('a_ne', ACT * 2, eqpost(5, True)),
       mk('a_shift', [S], istrue), mk('a_reduce', ACT, istrue), mk('a_accept', ACT, istrue)]
IT = ['prod', 'count', 'term']
LIM['pv'] = 0x7fff
LIM['pa'] = 3
PR = ['pv', 'pa']
C12 = [mk('i_prod', IT, ret_is(0)), mk('i_pos', IT, ret_is(1)), mk('i_follow', IT, ret_is(2)), mk('i_pack', IT, positive(3)), mk('i_lt', IT * 2, ltpost(3)), mk('i_ltp', IT * 2, ltpost(3)),
       mk('i_eq', IT * 2, eqpost(3)), mk('i_ne', IT * 2, eqpost(3, True)),
       mk('p_value', PR, ret_is(0)), mk('p_assoc', PR, ret_is(1)), mk('p_lt', PR * 2, ltpost(2)), mk('p_eq', PR * 2, eqpost(2)), mk('p_ne', PR * 2, eqpost(2, True)),
       mk('p_def', PR, lambda c: [('defined unless value and associativity are both missing', c.ret == z3.Or(c.a(0) != 0, c.a(1) != 0))])]
