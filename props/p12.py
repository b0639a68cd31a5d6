"""P12: prebuilt validators decide exactly their documented predicates."""
import re

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy
from lib.texpr import Ambiguous

RULE = ('A case is one prebuilt validator with its parameters (possibly an Or of several, nested), the kind of field that '
        'holds it, and up to 8 values around its boundaries; each is given on initialization, update and assignment and '
        'acceptance and messages are compared with a reference predicate. Non-trivial: some values are accepted and '
        'some rejected, or the parameters are degenerate (equal or swapped bounds, zero, empty Or).')
EXAMPLES = {'quick': 12000, 'thorough': 500000}

SIZED = ('str', 'list', 'dict', 'set', 'any')
FLAGS = [0, 0, 0, int(re.I), int(re.S), int(re.M), int(re.X), int(re.I | re.M), int(re.A)]
PATTERNS = ['a', '^a', '[a-c]+', '', 'b$', r'\d+', '(a|b)*', 'A', '.', 'c', 'a.b', '^b', 'a b', r'\Aab\Z', '(?i)b', 'a|ab', '^$',
            r'\w+', 'b\n', '#', r'a\b', '(?:ab)?', V.StrSub('a.b'), V.StrSub('^b')]
SVALUES = ['', 'a', 'b', 'A', 'ab', 'ba', 'abc', 'aXb', 'a\nb', 'b\n', '\nb', '12', '\u0663', 'x12', 'a b', 'c', '\n', 'abab', '\u00e9',
           'aab', '#', '{}', '{0}']
FAILS = [None, None, 'no', 'value {value} does not match', '{pattern} expected', '{value}{value}', 'literal {{braces}}',
         '{value} is not like {pattern}', '{pattern}: {value!r}', '{value!r}', '{value:>5}|', '{pattern.pattern}', '']


def bounds(src):
    big = src.chance(8)
    return src.pick([10 ** 20, -10 ** 20, 2 ** 63]) if big else src.int(-6, 9)


def g_range(src):
    c = src.below(6)
    a = bounds(src)
    if c == 0:
        return ('range', None, a)
    if c == 1:
        return ('range', a, a)
    if c == 5:
        return ('stdrange', src.int(-6, 9), src.int(-6, 12), src.pick([1, 2, 3, -1, -2, 5]))
    if c == 2:
        return ('range', a, a + src.int(0, 5))
    return ('range', a, bounds(src))


def g_length(src):
    a, b = src.int(0, 4), src.int(0, 4)
    if src.chance(12):
        a, b = int('300'), int('300') + src.below(2)        # equal, not identical
    return src.pick([('length', a, None, None), ('length', None, b, None), ('length', None, None, a), ('length', a, b, None)])


def g_regex(src):
    return ('regex', src.pick(PATTERNS), src.pick(FLAGS), src.pick(['match', 'full', 'search']), src.pick(FAILS), src.bool())


def g_exclude(src, gen):
    return ('exclude', tuple(src.list(gen, 1, 4)))


VID = ['v1']


def leaf(src, kind):
    c = src.below(4)
    if c == 3 and kind == 'any':
        return g_exclude(src, lambda s: sized(s, 'any', s.int(0, 2)))
    if kind == 'int':
        return g_range(src) if c else g_exclude(src, lambda s: s.int(-4, 9))
    if kind == 'str':
        return g_regex(src) if c < 2 else g_length(src) if c == 2 else g_exclude(src, lambda s: s.pick(SVALUES))
    return g_length(src)


def rule(src, kind, depth=0):
    if src.below(4) == 3 and depth < 3:
        n = src.int(0, 3)
        out = []
        for _ in range(n):
            if src.chance(3):
                out.append(('fn', 'f', src.pick(['never', 'always', 'falsy', 'isstr', 'isint', 'big']),
                            (src.pick(W.EFFECTS + ('FG', 'FT', 'FK')), 'm')))
            else:
                out.append(rule(src, kind, depth + 1))
        return ('or', tuple(out))
    return leaf(src, kind)


def sized(src, kind, n=None):
    n = src.int(0, 6) if n is None else n
    if kind == 'any':
        kind = src.pick(['str', 'list', 'dict', 'set', 'tuple', 'bytes', 'umap', 'range', 'frozenset'])
    seq = list(range(n))
    return {'str': src.pick(['abcdefgh', '\u00e9\u4e2d\U0001f600\u0301aeiou', '\ud800\x00\n \t\u200bxy'])[:n], 'list': seq, 'dict': {i: i for i in seq}, 'set': set(seq), 'tuple': tuple(seq), 'bytes': b'abcdefgh'[:n],
            'umap': V.UMap({i: i for i in seq}), 'range': range(n), 'frozenset': frozenset(seq)}[kind]


def value(src, kind, r, top=True):
    if r[0] == 'or' and r[1]:
        return value(src, kind, src.pick(r[1]), False)
    if r[0] in ('range', 'stdrange'):
        a, b = r[1] or 0, r[2]
        c = src.below(6)
        if c == 5:
            return src.pick([True, False, V.IntSub(a), 0, -1, a + (b - a) // 2])
        return src.pick([a, b]) + src.int(-3, 3)
    if r[0] == 'exclude':
        if src.bool():
            return src.pick([V.clone, V.reorder])(src.pick(r[1]))
    elif r[0] == 'length':
        ks = [x for x in r[1:] if x is not None]
        return sized(src, kind, max(0, src.pick(ks) + src.int(-1, 1)))
    if kind == 'int':
        return src.int(-6, 10)
    if kind == 'str':
        return src.pick(SVALUES)
    if top and kind == 'any' and r[0] == 'exclude':
        return src.one(T.atoms, T.small)
    return sized(src, kind)


def huge(r):
    return any(huge(x) for x in r[1]) if r[0] == 'or' else r[0] == 'range' and any(abs(x or 0) > 10 ** 6 for x in r[1:])


def gen(src):
    kind = src.pick(['int', 'str', 'any', 'list', 'dict', 'set', 'int', 'str'])
    if kind == 'any':
        r = g_exclude(src, src.pick([T.atoms, T.small])) if src.bool() else rule(src, 'any')
    else:
        r = rule(src, kind)
    vals = [value(src, kind, r) for _ in range(src.int(1, 8))]
    if huge(r):
        # a range searches for a number of a subclass of int one by one
        vals = [int(v) if type(v) is V.IntSub else v for v in vals]
    return kind, r, vals, src.pick(['ctor', 'add', 'rawadd', 'boxed', 'boxed'])


def cases(tier):
    return strategy(gen)


def accepts(r, v):
    k = r[0]
    if k == 'fn':
        if not W.PREDS[r[2]](v):
            return True
        W.effect_messages(r[3])
        return False
    if k == 'range':
        lb, ub = (0, r[2]) if r[1] is None else (r[1], r[2])
        return lb <= v <= ub
    if k == 'stdrange':
        return v in list(range(*r[1:]))
    if k == 'length':
        mn, mx, ex = r[1:4]
        n = sum(1 for _ in v)
        return (mn is None or n >= mn) and (mx is None or n <= mx) and (ex is None or n == ex)
    if k == 'regex':
        pat = re.compile(r[1], r[2])
        return {'match': pat.match, 'full': pat.fullmatch, 'search': pat.search}[r[3]](v) is not None
    if k == 'exclude':
        for x in r[1]:
            if V.same(x, v):
                return False
            if x == v:
                raise Ambiguous
        return True
    if k == 'or':
        for s in r[1]:
            if accepts(s, v):
                return True
        return False
    raise AssertionError(r)


def message(r, v):
    k = r[0]
    if k == 'or':
        return 'All validations failed for the given value'
    if k == 'regex':
        fm = r[4]
        if fm is None:
            return 'Value failed pattern validation'
        text = fm.format(value=v, pattern=re.compile(r[1], r[2]))
        return text or W.FAILED
    if k == 'exclude':
        if len(r[1]) == 1:
            return 'Value cannot be %r' % (r[1][0],)
        return 'Value cannot be one from: ' + ', '.join(map(repr, r[1]))
    if k == 'range':
        lb, ub = (0, r[2]) if r[1] is None else (r[1], r[2])
        return 'Value must be equal to %s' % lb if lb == ub else 'Value must be in range %s to %s inclusive' % (lb, ub)
    if k == 'stdrange' and r[3] == 1 and r[1] < r[2]:
        return message(('range', r[1], r[2] - 1), v)
    if k == 'length':
        mn, mx, ex = r[1:4]
        if ex is not None or mn == mx:
            return 'Value length must be exactly %s characters' % (mn if ex is None else ex)
        if mn is None:
            return 'Value length must be less than %s characters' % mx
        if mx is None:
            return 'Value length must be greater than %s characters' % mn
        return 'Value length must be between %s to %s characters' % (mn, mx)
    return None


def degenerate(r):
    if r[0] == 'or':
        return not r[1] or any(degenerate(x) for x in r[1])
    if r[0] == 'range':
        return r[1] is not None and r[1] >= r[2] or r[2] <= 0
    if r[0] == 'length':
        return 0 in r[1:] or (None not in r[1:3] and r[1] >= r[2])
    return False


def run(o, case, rec):
    kind, r, values, how = case
    w = W.World(o, [])
    F = o.fields
    kinds = {'int': F.Integer, 'str': F.String, 'any': F.Any, 'list': F.List, 'dict': F.Dict, 'set': F.Set}
    validator = w.rule_fn(r)
    box = lambda v: v
    if how == 'boxed':
        # the raw value is another one than the value to be judged
        class Boxed(kinds[kind]):
            def value_load(self, value, context):
                return cell[0]
        field = Boxed(validators=[validator])
        cell, turn = [None], iter(range(10 ** 6))
        others = [x for x in list(r[1] if r[0] == 'exclude' else ()) + values if x is not None]

        def box(v):
            cell[0] = v
            n = next(turn)
            return others[n // 2 % len(others)] if n % 2 else (v,)
    elif how == 'ctor':
        field = kinds[kind](validators=[validator])
    else:
        field = kinds[kind]()
        field.add_validator(validator, **({'raw': True} if how == 'rawadd' and r[0] != 'fn' else {}))
    S = type(o.Schema)('S', (o.Schema,), {'f': field, 'g': F.Integer(required=False)})
    yes = no = False
    base = None
    for v in values:
        if v is None:
            continue
        foreign = ok = None
        try:
            ok = accepts(r, v)
        except tuple(W.FOREIGN.values()) as exc:
            foreign = type(exc)
        rec.checks += 1
        given = box(v)
        attempts = [('init', lambda: S({'f': given}))]
        if base is not None:
            attempts += [('update', lambda: base.update({'f': given})), ('assign', lambda: setattr(base, 'f', given))]
        for name, fn in attempts:
            before = base.f if base is not None else None
            del w.log[:]
            try:
                res = fn()
            except o.ValidationError as err:
                M.check(ok is False, '%s: %r rejected %r: %s', name, r, v, err.raw())
                msgs = err.raw()
                exp = message(r, v)
                M.check(list(msgs) == ['f'] and len(msgs['f']) == 1, '%s: %r rejected %r with %r', name, r, v, msgs)
                M.check(msgs['f'][0] == exp if exp is not None else msgs['f'][0], '%s: %r rejected %r with %r, expected %r', name, r, v,
                        msgs, exp)
                M.check(base is None or base.f is before, '%s: the rejected value was kept', name)
                no = True
            except tuple(W.FOREIGN.values()) as exc:
                M.check(foreign is type(exc), '%s: %r raised %r for %r', name, r, exc, v)
            else:
                M.check(ok is True, '%s: %r accepted %r', name, r, v)
                if name == 'init':
                    base = res
                M.check(base.f is v, '%s: %r is not kept as it is: %r', name, v, base.f)
                yes = True
            for ev in w.log:
                if ev[0] == 'val':
                    M.check(ev[2] is v and ev[5].value is given and ev[5].schema is ev[4] and type(ev[4]) is S,
                            'a validator in Or got %r for %r', ev[2:], v)
    rec.label(r[0])
    rec.label('field ' + kind)
    if degenerate(r):
        rec.label('degenerate parameters')
    rec.nt(yes and no or degenerate(r))
