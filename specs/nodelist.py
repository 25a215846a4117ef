"""std::list as linked nodes with stable iterators (trusted model): membership, order stamps, per-node values."""
from vc.contract import *
from vc.interp import *
from vc.lib import REG, construct_from
import z3
Z, B = z3.IntSort(), z3.BoolSort()
TRUSTED = ['std::list modelled as a set of nodes (ids) with distinct order stamps: push_front/splice(begin) give the smallest stamp, '
           'pop_back removes the largest, erase removes one node, other iterators stay valid']


def mk(I, T, nm, lift):
    E = I._fresh(I.targ(T, 0), nm + '.v', lift + (Z,))
    c = lambda n, s: SV(z3.Const(nm + n, lift_sort(s, lift)), None)
    return StV('$list', {'nodes': VecV(z3.Const(nm + '.n', lift_sort(Z, lift)), E, 'vec'), 'in': c('.in', z3.ArraySort(Z, B)),
                         'ord': c('.ord', z3.ArraySort(Z, Z)), 'lo': c('.lo', Z), 'hi': c('.hi', Z), 'next': c('.next', Z), 'size': c('.size', Z)})


def wf(l):
    """Type invariant of std::list."""
    n, m = z3.Ints('n!w m!w')
    i, o = l.f['in'].t, l.f['ord'].t
    lo, hi, nx, sz = (l.f[k].t for k in ('lo', 'hi', 'next', 'size'))
    S = z3.Select
    return And(nx >= 1, sz >= 0, lo < hi,
               forall([n], Implies(S(i, n), And(n >= 1, n < nx, S(o, n) > lo, S(o, n) < hi)), S(i, n)),
               forall([n, m], Implies(And(S(i, n), S(i, m), n != m), S(o, n) != S(o, m)), [S(i, n), S(i, m)]),
               forall([n], Implies(S(i, n), sz > 0), S(i, n)))


def upd(l, **k):
    return StV('$list', {**l.f, **{a: (b if isinstance(b, V) else SV(b, None)) for a, b in k.items()}})


def zero(I, T):
    l = mk(I, T, I.name('elist'), ())
    return upd(l, **{'in': z3.K(Z, BoolVal(False)), 'size': IntVal(0), 'lo': IntVal(-1), 'hi': IntVal(1), 'next': IntVal(1)})


def extreme(I, l, sign):
    """The first (sign -1) or last (+1) node of a non-empty list, 0 (= end) for an empty one."""
    f = I.const(Z, 'xt')
    n = z3.Int('n!x')
    i, o, sz = l.f['in'].t, l.f['ord'].t, l.f['size'].t
    S = z3.Select
    le = (lambda a, b: a <= b) if sign < 0 else (lambda a, b: a >= b)
    I.assume(If(sz > 0, And(S(i, f), f >= 1, forall([n], Implies(S(i, n), le(S(o, f), S(o, n))), S(i, n))), f == 0))
    return f


def push_front(I, c):
    l = c.rdthis()
    v = c.rd(0)
    n, lo = l.f['next'].t, l.f['lo'].t
    nodes = l.f['nodes']
    S = z3.Store
    I.write(c.this, upd(l, **{'nodes': VecV(nodes.len, store(nodes.el, n, v), 'vec'), 'in': S(l.f['in'].t, n, BoolVal(True)),
                              'ord': S(l.f['ord'].t, n, lo), 'lo': lo - 1, 'next': n + 1, 'size': l.f['size'].t + 1}))
    return VOID


def emplace_front(I, c):
    v = construct_from(I, I.targ(c.thisT(), 0), c)
    c2 = Call(I, c.f, c.this, None, c.e, [v])
    return push_front(I, c2)


def push_back(I, c):
    l = c.rdthis()
    v = c.rd(0)
    n, hi = l.f['next'].t, l.f['hi'].t
    nodes = l.f['nodes']
    S = z3.Store
    I.write(c.this, upd(l, **{'nodes': VecV(nodes.len, store(nodes.el, n, v), 'vec'), 'in': S(l.f['in'].t, n, BoolVal(True)),
                              'ord': S(l.f['ord'].t, n, hi), 'hi': hi + 1, 'next': n + 1, 'size': l.f['size'].t + 1}))
    return VOID


def remove(I, lv, n, what):
    l = I.read(lv)
    I.check(what, z3.Select(l.f['in'].t, n))
    I.write(lv, upd(l, **{'in': z3.Store(l.f['in'].t, n, BoolVal(False)), 'size': l.f['size'].t - 1}))
    # a list with a member is not empty (restored type invariant after the update)
    l2 = I.read(lv)
    k = z3.Int('k!r')
    I.assume(forall([k], Implies(z3.Select(l2.f['in'].t, k), l2.f['size'].t > 0), z3.Select(l2.f['in'].t, k)))
    I.assume(l2.f['size'].t >= 0)


def pop_back(I, c):
    l = c.rdthis()
    I.check('pop_back of a non-empty list (line %s)' % c.line, l.f['size'].t > 0)
    remove(I, c.this, extreme(I, l, 1), 'pop_back removes a member')
    return VOID


def pop_front(I, c):
    l = c.rdthis()
    I.check('pop_front of a non-empty list (line %s)' % c.line, l.f['size'].t > 0)
    remove(I, c.this, extreme(I, l, -1), 'pop_front removes a member')
    return VOID


def erase(I, c):
    n = c.rd(0).t
    if c.n() != 1:
        raise Unsupported('list range erase')
    remove(I, c.this, n, 'erased list iterator is a valid element (line %s)' % c.line)
    return SV(I.const(Z, 'nextnode'), None)


def splice(I, c):
    if c.n() != 3:
        raise Unsupported('list splice form')
    l = c.rdthis()
    pos, n = c.rd(0).t, c.rd(2).t
    src = c.arg(1)
    if not (isinstance(src, LV) and src.same(c.this)):
        raise Unsupported('splice between lists')
    I.check('spliced list iterator is a valid element (line %s)' % c.line, z3.Select(l.f['in'].t, n))
    first = extreme(I, l, -1)
    k = I.choose([pos == first, And(pos != first, pos == 0), And(pos != first, pos != 0)])
    if k == 0:
        I.write(c.this, upd(l, ord=z3.Store(l.f['ord'].t, n, l.f['lo'].t), lo=l.f['lo'].t - 1))
    elif k == 1:
        I.write(c.this, upd(l, ord=z3.Store(l.f['ord'].t, n, l.f['hi'].t), hi=l.f['hi'].t + 1))
    else:
        raise Unsupported('splice to the middle')
    return VOID


def clear(I, c):
    l = c.rdthis()
    I.write(c.this, upd(l, **{'in': z3.K(Z, BoolVal(False)), 'size': IntVal(0)}))
    return VOID


def install(I, listlv):
    """listlv(): LV of the list that iterators of the verified class belong to."""
    I.opaque_types = dict(getattr(I, 'opaque_types', {}))
    I.opaque_types['std::list'] = mk
    I.opaque_zero = {'std::list': zero}
    OP = {'k': 'opaque', 's': 'list iterator'}
    IT = lambda t: SV(t, OP)
    own = lambda fn: (lambda I, c: fn(I, c) if isinstance(c.rdthis(), StV) else NotImplemented)
    e = {}
    for nm, fn in (('push_front', push_front), ('emplace_front', emplace_front), ('push_back', push_back), ('pop_back', pop_back), ('pop_front', pop_front), ('erase', erase), ('splice', splice), ('clear', clear)):
        e['std::list::' + nm] = fn
    e['std::list::begin'] = e['std::list::cbegin'] = lambda I, c: IT(extreme(I, c.rdthis(), -1))
    e['std::list::end'] = e['std::list::cend'] = lambda I, c: IT(IntVal(0))
    e['std::list::size'] = lambda I, c: SV(c.rdthis().f['size'].t, c.ret())
    e['std::list::empty'] = lambda I, c: SV(c.rdthis().f['size'].t == 0, c.ret())

    def node(I, n, line):
        lv = listlv(I)
        I.check('dereferenced list iterator is a valid element (line %s)' % line, z3.Select(I.read(lv).f['in'].t, n))
        return lv + ('f', 'nodes') + ('i', n)
    e['std::list::back'] = lambda I, c: node(I, extreme(I, c.rdthis(), 1), c.line)
    e['std::list::front'] = lambda I, c: node(I, extreme(I, c.rdthis(), -1), c.line)

    def prev(I, n):
        l = I.read(listlv(I))
        I.check('-- from end of a non-empty list', And(n == 0, l.f['size'].t > 0))
        return extreme(I, l, 1)

    def dec(I, c):
        t = c.rdthis().t
        I.write(c.this, IT(prev(I, t)))
        return IT(t) if c.n() else c.this
    for s in ('std::_List_iterator', 'std::_List_const_iterator'):
        e[s + '::operator*'] = lambda I, c: node(I, c.rdthis().t, c.line)
        e[s + '::operator->'] = lambda I, c: PyV(node(I, c.rdthis().t, c.line))
        e[s + '::operator--'] = dec
        e[s + '::operator='] = lambda I, c: (I.write(c.this, c.rd(0)), c.this)[1]
        e['ctor ' + s] = lambda I, c: c.rd(0) if c.n() else IT(IntVal(0))
    e['std::prev'] = lambda I, c: IT(prev(I, c.rd(0).t)) if isinstance(c.rd(0), SV) else NotImplemented
    I.extra.update(e)
