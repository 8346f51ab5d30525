"""TagMask (src/scope.hpp): bit vector contracts."""
import z3
from vf.spec import *

MODE = 'bv'
DRIVER = '''#include "scope.hpp"
'''
T = 'mewa::TagMask'
BV = z3.BitVecVal
one = BV(1, 32)
BADTAG = None


def inr(t):
    return z3.And(t >= 1, t <= 32)      # signed comparison


def bit(t):
    return one << (t - 1)



def thr(i):
    return lambda c: [('a tag out of range is refused with its own error', z3.And(z3.Not(inr(c.a(i))), c.code == errcode(c, 'BadRelationTag'))),
                      ('mask unchanged', c.n('m_mask') == c.o('m_mask'))]


def okpost(c):
    return [('accepted tags are in range', inr(c.a(0))), ('exactly the tag is added', c.n('m_mask') == c.o('m_mask') | bit(c.a(0)))]


def oro_post(c):
    return [('accepted tags are in range', inr(c.a(0))), ('result has the tags of the operand and the tag', c.retv().f['m_mask'] == c.o('m_mask') | bit(c.a(0))),
            ('operand unchanged', c.n('m_mask') == c.o('m_mask'))]


add = Contract('TagMask::add', T + '::add', 1, post=okpost, throws=thr(0), modifies=(('m_mask',),))
orassign = Contract('TagMask::operator|=', T + '::operator|=', 1, post=okpost, throws=thr(0), modifies=(('m_mask',),))
oro = Contract('TagMask::operator|', T + '::operator|', 1, post=oro_post, throws=thr(0))


def tv(c):
    t = c.a(0)
    return z3.ZeroExt(24, t) if t.size() == 8 else t


matches = Contract('TagMask::matches', T + '::matches', 1, pre=lambda c: [('tag value', z3.ULT(tv(c), BV(32, 32)))],
                   post=lambda c: [('matches the tags of the set only', c.ret == ((z3.LShR(c.o('m_mask'), tv(c)) & one) == one))])
fromval = Contract('TagMask::tagFromTagVal', T + '::tagFromTagVal', 1, post=lambda c: [('tag of value', c.ret == tv(c) + 1)])
toval = Contract('TagMask::tagValFromTag', T + '::tagValFromTag', 1, pre=lambda c: [('tag', inr(c.a(0)))], post=lambda c: [('value of tag', z3.ZeroExt(24, c.ret) == c.a(0) - 1)])
matchall = Contract('TagMask::matchAll', T + '::matchAll', 0, post=lambda c: [('all tags', c.retv().f['m_mask'] == BV(0xffffffff, 32))])
matchnothing = Contract('TagMask::matchNothing', T + '::matchNothing', 0, post=lambda c: [('no tag', c.retv().f['m_mask'] == BV(0, 32))])
