"""Shared by the store specs: elements as heap objects of a kind, visitors, cancellation."""
import geolib, tiles, c08
from c08 import *
KINDS = [NODE, WAY, AREA, REL]
FIELDS = [(EL, 'id'), (EL, 'tags'), (NODE, 'coordinate'), (WAY, 'coordinates'), (AREA, 'coordinates'), (REL, 'elements')]


def own_fields(k):
    return [(EL, 'id'), (EL, 'tags'), [(NODE, 'coordinate'), (WAY, 'coordinates'), (AREA, 'coordinates'), (REL, 'elements')][k]]


def same_value(I, a, b, k, heap_a=None):
    """Objects a and b of kind k have equal fields (members are shared)."""
    out = [I.get_tag(a) == I.tag_of(KINDS[k])]
    for cls, f in own_fields(k):
        p, q = heap(I, a, cls, f), heap(I, b, cls, f)
        if isinstance(p, VecV):
            i = z3.Int('i!s')
            out.append(p.len == q.len)
            out += [forall([i], Implies(And(i >= 0, i < p.len), S(u, i) == S(w, i)), S(u, i)) for u, w in zip(leaves(p.el), leaves(q.el))]
        else:
            out += [u == w for u, w in zip(leaves(p), leaves(q))]
    return And(out)


def cancellation(x):
    """Once cancelled a token stays cancelled; it may be cancelled at any time."""
    I = x.I
    x.canc = I.new_root(SV(BoolVal(False), None))

    def h(I, c):
        old = I.read(x.canc).t
        b = I.const(B, 'cancelled')
        I.assume(Implies(old, b))
        I.write(x.canc, SV(b, None))
        return SV(b, c.ret())
    I.extra['utymap::CancellationToken::isCancelled'] = h


def is_heap(lv):
    return isinstance(lv, LV) and lv.kind == 'heap' and not lv.path


def dispatch_visit(I, visitor, k, ref, e=None):
    """visitor.visitX(*ref) for an element of kind k."""
    v = I.read(visitor)
    rec = I.m.recbyname[v.cls]
    base = I.m.recbyname['utymap::entities::ElementVisitor']
    name = 'visit' + KINDS[k].split('::')[-1]
    for m in base['methods']:
        if m['n'] == name:
            f = {'id': m['id'], 'n': 'utymap::entities::ElementVisitor::' + name, 'sn': name, 'cls': base['ty']}
            return I.inline(I.find_override(rec, f), visitor, [LV('heap', ref)])
    raise Unsupported('visitor without ' + name)
