"""P09: type expressions accept exactly the conforming values."""
import typing

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib.gen import strategy
from lib.typing_check import CHANGES, Judge, mutate

RULE = ('A case is a type expression of up to eleven levels (most up to five) and 1-8 values for it (valid by construction, valid but for one change '
        'at a random place, or arbitrary), judged through every entry point. Non-trivial: the expression is nested and the '
        'case has both an accepted and a rejected value.')
EXAMPLES = {'quick': 10000, 'thorough': 300000}


def deeper(src):
    return T.extend(src, src.pick([T.leaf, T.types_shallow, T.types_mid]))


def gen(src):
    s = src.one(T.types_shallow, T.everyday, T.everyday, deeper, T.types_mid, T.types_deep, deeper, T.tower) if not src.chance(12) else T.extend(src, T.tower)
    values = []
    for _ in range(src.int(1, 8)):
        big = (src.pick([8, 20, 40, 70, 150, 300]), src.below(3)) if src.chance(7) else None
        v = T.typed_value(src, s)
        if src.chance(6):
            v = V.echo(v, src.below(3), src.below(3))
        values.append((v, src.pick(['init', 'init', 'update', 'assign']), big, src.pick(CHANGES)))
    return s, values, src.pick([10, 50, 130, 300]) if src.chance(40) else 0


def cases(tier):
    return strategy(gen)


def other(o, i):
    """A type never seen before, a value it rejects and one it accepts."""
    c = type('Other%d' % i, (), {})
    tp, good, bad = [(c, c(), i), (list[c], [c()], ['']), (typing.Optional[c], None, 1.5), (typing.Union[c, str], 'x', 2),
                     (typing.Literal[i, 'w%d' % i], i, 'x')][i % 5]
    o.validate_types({'k': tp}, {'k': good})
    try:
        o.validate_types({'k': tp}, {'k': bad})
    except o.TypeValidationError:
        return
    raise M.Mismatch('%r is accepted for %r' % (bad, tp))


def run(o, case, rec):
    s, values, many = case
    j = Judge(o, s)
    for i in range(many):
        other(o, i)
    if many:
        rec.label('after many other types')
    yes = no = 0
    for v, how, big, change in values:
        v = V.clone(v) if big is None else V.stretch(V.clone(v), *big)
        keep = V.text(v)
        try:
            expect = T.conforms(s, v)
        except T.Ambiguous:
            rec.label('outside the domain')
            continue
        if big is not None:
            rec.label('long container')
        rec.checks += j.check(v, expect, how)
        M.check(V.text(v) == keep, 'the value was modified: %s -> %r', keep, v)
        if change is not None and mutate(j, s, v, how, change, rec):
            rec.label('changed in place and judged again')
        yes, no = yes + expect, no + (not expect)
    rec.nt(T.depth(s) > 1 and yes and no)
    rec.label('depth %d' % T.depth(s))
    rec.label('type ' + s[0])
    rec.label('accepted+rejected' if yes and no else 'accepted' if yes else 'rejected')
