"""Type expressions: a small grammar, its translation to typing objects and
an independent decision procedure (conforms) for 'value has this type'.

Specs are plain tuples:

  ('c', name)                 a plain class (NAMES below)
  ('any',)                    typing.Any
  ('none',)                   None as a type
  ('union', style, (s, ...))  style: 'U' Union[...], '|' a | b, 'O' Optional[s0]
  ('lit', (v, ...))
  ('list', style, s) ('set', style, s) ('dict', style, k, v)
  ('map', style, k, v) ('seq', style, s)
  ('tup', style, (s, ...)) ('tupn', style, s)
  ('bare', name)              typing.List, typing.Dict, ... without arguments
  ('td', tdspec)              a TypedDict
  ('unsup', name)             an expression oblate documents as unsupported
  ('self', name)              the TypedDict called name around it, by a forward reference
tdspec: (name, flavour 't' | 'te' | 'ts' | 'tes', ((total, ((key, marker, s), ...)), ...))  one entry per inheritance layer
"""
import collections.abc
import itertools
import types
import typing as t

import typing_extensions as te
from . import vals as V

NAMES = {
    'int': int, 'str': str, 'float': float, 'bool': bool, 'bytes': bytes, 'object': object,
    'plainlist': list, 'plaindict': dict, 'plainset': set, 'plaintuple': tuple,
    'IntSub': V.IntSub, 'StrSub': V.StrSub, 'Opaque': V.Opaque, 'Color': V.Color,
    'complex': complex, 'frozenset': frozenset, 'NoneType': type(None),
}
BARE = {'List': t.List, 'Dict': t.Dict, 'Set': t.Set, 'Tuple': t.Tuple,
        'Sequence': t.Sequence, 'Mapping': t.Mapping}

_TV = t.TypeVar('_TV')
_NT = t.NewType('_NT', int)


class _Gen(t.Generic[_TV]):
    pass


UNSUP = {
    'typevar': lambda: _TV, 'newtype': lambda: _NT, 'frozenset': lambda: t.FrozenSet[int],
    'type': lambda: t.Type[int], 'callable': lambda: t.Callable[[int], int],
    'annotated': lambda: te.Annotated[int, 'x'], 'iterable': lambda: t.Iterable[int],
    'generic': lambda: _Gen[int], 'deque': lambda: t.Deque[int],
}
UNSUP_NAMES = sorted(UNSUP)


class Ambiguous(Exception):
    """Whether the value conforms is not settled by the documentation."""


# --------------------------------------------------------------------- build

_REG = {}      # types named by string annotations
_SELF = {}     # name of a recursive TypedDict -> its spec, the name of the class being built
_count = itertools.count()


def build_td(spec):
    name, flavour, layers = spec
    base = (te if flavour.startswith('te') else t).TypedDict
    cls = None
    if name.startswith('Rec'):
        ref = 'rec%d' % next(_count)
        _SELF[name] = ('td', spec), ref
    for i, (total, keys) in enumerate(layers):
        ann = {}
        for key, marker, s in keys:
            tp = build(s)
            if flavour.endswith('s'):
                # annotations as strings, as with "from __future__ import annotations"
                _REG[id(tp)] = tp
                tp = '_REG[%d]' % id(tp)
                ann[key] = {'R': 'te.Required[%s]', 'N': 'te.NotRequired[%s]', None: '%s'}[marker] % tp
                continue
            if marker == 'R':
                tp = te.Required[tp]
            elif marker == 'N':
                tp = te.NotRequired[tp]
            ann[key] = tp
        nm = name if i == len(layers) - 1 else '%s_%d' % (name, i)
        if cls is None:
            cls = base(nm, ann, total=total)
        else:
            cls = types.new_class(nm, (cls,), {'total': total},
                                  lambda ns, ann=ann: ns.update(__annotations__=ann, __module__=__name__))
    if name.startswith('Rec'):
        _REG[ref] = cls
    return cls


def build(s):
    k = s[0]
    if k == 'c':
        return NAMES[s[1]]
    if k == 'any':
        return t.Any
    if k == 'none':
        return None
    if k == 'union':
        parts = [build(x) for x in s[2]]
        if s[1] == 'O':
            return t.Optional[parts[0]]
        if s[1] == '|':
            out = parts[0]
            try:
                for p in parts[1:]:
                    out = out | p
                return out
            except TypeError:
                pass
        return t.Union.__getitem__(tuple(parts))
    if k == 'lit':
        return t.Literal.__getitem__(tuple(s[1]))
    if k == 'list':
        return t.List[build(s[2])] if s[1] == 't' else list[build(s[2])]
    if k == 'set':
        return t.Set[build(s[2])] if s[1] == 't' else set[build(s[2])]
    if k == 'dict':
        return t.Dict[build(s[2]), build(s[3])] if s[1] == 't' else dict[build(s[2]), build(s[3])]
    if k == 'map':
        return (t.Mapping if s[1] == 't' else collections.abc.Mapping)[build(s[2]), build(s[3])]
    if k == 'seq':
        return (t.Sequence if s[1] == 't' else collections.abc.Sequence)[build(s[2])]
    if k == 'tup':
        args = tuple(build(x) for x in s[2])
        return (t.Tuple if s[1] == 't' else tuple)[args]
    if k == 'tupn':
        return (t.Tuple if s[1] == 't' else tuple)[build(s[2]), ...]
    if k == 'bare':
        return BARE[s[1]]
    if k == 'td':
        return build_td(s[1])
    if k == 'unsup':
        return UNSUP[s[1]]()
    if k == 'self':
        return '_REG[%r]' % _SELF[s[1]][1]
    raise AssertionError(s)


# ------------------------------------------------------------------- decide

def td_keys(spec):
    """{key: (type spec, required)} of a TypedDict spec, over all layers."""
    out = {}
    if spec[0].startswith('Rec'):
        _SELF[spec[0]] = ('td', spec), None
    for total, keys in spec[2]:
        for key, marker, s in keys:
            out[key] = (s, marker == 'R' or (marker is None and total))
    return out


def lit_ok(args, v):
    hit = False
    for a in args:
        try:
            eq = bool(a == v)
        except Exception:
            raise Ambiguous
        if eq:
            if type(a) is type(v):
                return True
            hit = True
    if hit:
        raise Ambiguous
    return False


def conforms(s, v):
    k = s[0]
    if k == 'c':
        return isinstance(v, NAMES[s[1]])
    if k in ('any', 'unsup'):
        return True
    if k == 'none':
        return v is None
    if k == 'union':
        if s[1] == 'O' and v is None:
            return True
        amb = False
        for x in (s[2][:1] if s[1] == 'O' else s[2]):
            try:
                if conforms(x, v):
                    return True
            except Ambiguous:
                amb = True
        if amb:
            raise Ambiguous
        return False
    if k == 'lit':
        return lit_ok(s[1], v)
    if k == 'list':
        return isinstance(v, list) and _all(s[2], v)
    if k == 'set':
        return isinstance(v, set) and _all(s[2], v)
    if k in ('dict', 'map'):
        if not isinstance(v, dict if k == 'dict' else collections.abc.Mapping):
            return False
        ok = _all(s[2], list(v.keys()))
        return _all(s[3], list(v.values())) and ok
    if k == 'seq':
        return seq_shape(v) and _all(s[2], v)
    if k == 'tup':
        return isinstance(v, tuple) and len(v) == len(s[2]) and _allp(list(zip(s[2], v)))
    if k == 'tupn':
        return isinstance(v, tuple) and _all(s[2], v)
    if k == 'bare':
        n = s[1]
        if n == 'Sequence':
            return seq_shape(v)
        return isinstance(v, {'List': list, 'Dict': dict, 'Set': set, 'Tuple': tuple,
                              'Mapping': collections.abc.Mapping}[n])
    if k == 'self':
        return conforms(_SELF[s[1]][0], v)
    if k == 'td':
        if not isinstance(v, dict):
            return False
        keys = td_keys(s[1])
        if any(x not in keys for x in v):
            return False
        if any(req and x not in v for x, (_, req) in keys.items()):
            return False
        return _allp([(keys[x][0], y) for x, y in v.items()])
    raise AssertionError(s)


def seq_shape(v):
    if isinstance(v, list) or type(v) in (set, tuple):
        return True
    if isinstance(v, (collections.abc.Sequence, collections.abc.Set, collections.deque, bytearray)):
        raise Ambiguous          # str, bytes, range, subclasses: not settled by the docs
    return False


def _all(s, items):
    return _allp([(s, x) for x in items])


def _allp(pairs):
    amb = False
    for s, x in pairs:
        try:
            if not conforms(s, x):
                return False
        except Ambiguous:
            amb = True
    if amb:
        raise Ambiguous
    return True


# ----------------------------------------------------------------- messages

def top_errors(s, v):
    """For a rejected value: [(kind, locator)] one entry per message expected at
    the top level of the expression, or None if only 'at least one' is known."""
    k = s[0]
    if k == 'list' and isinstance(v, list):
        return [('index', i) for i, x in enumerate(v) if not conforms(s[2], x)]
    if k == 'seq' and type(v) in (list, tuple):
        return [('index', i) for i, x in enumerate(v) if not conforms(s[2], x)]
    if k == 'tupn' and isinstance(v, tuple):
        return [('index', i) for i, x in enumerate(v) if not conforms(s[2], x)]
    if k == 'set' and isinstance(v, set):
        return [('item', None) for x in v if not conforms(s[2], x)]
    if k == 'tup' and isinstance(v, tuple) and len(v) == len(s[2]):
        return [('index', i) for i, (a, x) in enumerate(zip(s[2], v)) if not conforms(a, x)]
    if (k == 'dict' and isinstance(v, dict)) or (k == 'map' and isinstance(v, collections.abc.Mapping)):
        out = []
        for i, (a, b) in enumerate(v.items()):
            if not conforms(s[2], a):
                out.append(('keyidx', i))
            elif not conforms(s[3], b):
                out.append(('key', a))
        return out
    if k == 'td' and isinstance(v, dict):
        keys = td_keys(s[1])
        out = [('key', x) for x in v if x not in keys]
        out += [('key', x) for x, y in v.items() if x in keys and not conforms(keys[x][0], y)]
        out += [('key', x) for x, (_, req) in keys.items() if req and x not in v]
        return out
    return None


def match_errors(expected, messages):
    """Whether the messages point at exactly the expected places."""
    if len(expected) != len(messages):
        return False
    taken = {}     # index of a message -> index of the place it stands for

    def place(i, seen):
        for n, m in enumerate(messages):
            if n not in seen and _fits(expected[i], m):
                seen.add(n)
                if n not in taken or place(taken[n], seen):
                    taken[n] = i
                    return True
        return False
    return all(place(i, set()) for i in range(len(expected)))


def _fits(place, m):
    kind, loc = place
    return kind == 'item' or (kind in ('index', 'keyidx') and _has_index(m, loc)) or (kind == 'key' and repr(loc) in m)


def _has_index(m, i):
    return ('index %d:' % i) in m


# --------------------------------------------------------------- generators

_BIG = [0, 1, -1, 2 ** 70, 1000000]
_STRS = ['', 'a', 'b', 'abc', '0', '1', 'true', 'False', ' 12 ', '-7', '1_0', '3.5', 'nan',
         'inf', '1e3', 'x y', 'None', '\u00e9', '\u0663', 'no', 'YES', 'l\nm', '%s {}']
_FLOATS = [0.5, -1.5, 3.25, float('inf'), float('-inf'), float('nan'), 1e300, 0.0, -0.0, 2.0]
_BYTES = [b'', b'12', b'a']
_SUBS = [V.IntSub(1003), V.IntSub(0), V.StrSub('sub'), V.StrSub(''), V.FloatSub(7.25), V.Color.RED, V.Word.yes,
         V.Opaque(1), V.Opaque('z'), V.NumLike(3), complex(1, 2), V.BadNum('zde'), V.EqNone(), Ellipsis, NotImplemented]


def g_int(src):
    c = src.below(8)
    return src.pick(_BIG) if c == 7 else src.int(-3, 12) if c > 3 else src.int(2, 9)


def g_str(src):
    if src.chance(60):
        # a long one
        return src.pick(['x', 'ab ', '7', ' ', '\u00e9', 'true']) * src.pick([70, 300, 1500])
    return src.pick(_STRS)


def g_float(src):
    return src.pick(_FLOATS)


def g_bytes(src):
    return src.pick(_BYTES)


def g_bool(src):
    return src.bool()


def g_none(src):
    return None


def g_sub(src):
    return src.pick(_SUBS)


def atoms(src):
    return src.one(g_none, g_bool, g_int, g_str, g_float, g_bytes, g_sub)


def g_tuple1(src):
    return tuple(src.list(g_int, 0, 2))


def g_frozen(src):
    return frozenset(src.list(g_int, 0, 2))


def hashables(src):
    return src.one(g_none, g_bool, g_int, g_str, g_float, g_bytes, g_sub, g_tuple1, g_frozen)


def small(src, elem=atoms):
    c = src.below(9)
    if c in (3, 7, 8):
        d = {hashables(src): elem(src) for _ in range(src.below(4))}
        return d if c == 3 else V.DictSub(d) if c == 7 else V.UMap(d)
    if c in (2, 4):
        return (set if c == 2 else frozenset)(src.list(hashables, 0, 3))
    return {0: list, 1: tuple, 5: V.ListSub, 6: V.TupSub}[c](src.list(elem, 0, 3))


def _l1(src):
    return atoms(src) if src.below(3) < 2 else small(src)


def anyval(src):
    """Any value at all."""
    return atoms(src) if src.below(3) < 2 else small(src, _l1)


_CNAMES = ['int', 'str', 'float', 'bool', 'bytes', 'int', 'str', 'float', 'object', 'plainlist',
           'plaindict', 'plainset', 'plaintuple', 'IntSub', 'StrSub', 'Opaque', 'Color', 'complex', 'NoneType']
_HNAMES = ['int', 'str', 'float', 'bool', 'bytes', 'str', 'int', 'StrSub', 'Opaque']
_LITVALS = ['', 'a', 'b', 'abc', 'owner', 2, 3, 7, -4, 0, 1, b'', b'x', None, True, False]
_WORDS = ['a', 'a ', ' b', 'B', 'b', 'c\n', 'd', '', ' ', 'D', 'abc', 'ab', 'ABC ', '\u00e9', 'e\u0301', '1', '01', 'None']
TD_KEYS = ['a', 'b', 'c', 'id', 'user name', '', 'class', '0', 'x1', 'Key', 'd', 'e', 'None', 'True', "b'a'", '(1,)']
TWINS = {'0': 0, 'None': None, 'True': True, "b'a'": b'a', '(1,)': (1,)}     # other keys of the same text


def _style(src):
    return 't' if src.below(3) < 2 else 'b'


def g_lit(src):
    out = []
    for x in src.list(lambda s: s.pick(_LITVALS), *((6, 14) if src.chance(8) else (1, 4))):
        if not any(x == y for y in out):
            out.append(x)
    if src.chance(10):
        # texts only, and enough of them to make shortcuts worthwhile
        out = src.subset(_WORDS, 5, 12)
    return ('lit', tuple(out))


_COMMON = ['int', 'str', 'float', 'bool']


def leaf(src):
    c = src.below(7)
    if c < 3:
        return ('c', src.pick(_CNAMES if c else _COMMON))
    if c == 3:
        return ('any',)
    if c == 4:
        return ('none',)
    if c == 5:
        return g_lit(src)
    return ('bare', src.pick(sorted(BARE)))


def hashleaf(src):
    c = src.below(6)
    if c < 3:
        return ('c', src.pick(_HNAMES if c else _COMMON))
    return [('none',), None, ('any',)][c - 3] or g_lit(src)


def hash_types(src):
    c = src.below(8)
    if c < 5:
        return hashleaf(src)
    if c == 5:
        return union(src, hashleaf)
    if c == 6:
        return ('tup', _style(src), tuple(src.list(hashleaf, 0, 2)))
    return ('tupn', _style(src), hashleaf(src))


def union(src, inner):
    if src.below(3) == 2:
        return ('union', 'O', (inner(src),))
    style = 'U' if src.below(3) < 2 else '|'
    if src.chance(7):
        names = [n for n in (_HNAMES if inner is hashleaf else _CNAMES) if n != 'object']
        return ('union', style, tuple(('c', n) for n in dict.fromkeys(src.shuffle(names)))[:src.int(5, 16)])
    return ('union', style, tuple(src.list(inner, 2, 4)))


def tdspec(src, inner):
    used = set()
    layers = []
    for _ in range(src.pick([1, 1, 1, 2, 2, 3])):
        total = not src.bool()
        keys = []
        for key in src.subset(TD_KEYS, 0, 12 if src.chance(8) else 4):
            if key not in used:
                used.add(key)
                keys.append((key, src.pick([None, None, 'R', 'N']), inner(src)))
        layers.append((total, tuple(keys)))
    return ('td', ('TD', src.pick(['t', 'te', 't', 'te', 'ts', 'tes']), tuple(layers)))


def recursive(src, inner):
    """A TypedDict that contains itself."""
    me = ('self', 'Rec')
    if src.chance(4):
        # by way of another one
        me = ('td', ('Rec2', src.pick(['t', 'te', 'ts']), ((src.bool(), (('k', src.pick(['N', None]), leaf(src)), ('up', 'R', ('union', 'O', (me,))))),)))
    layers = []
    keys = src.shuffle(TD_KEYS)
    at = src.pick([0, 0, 1])
    for i in range(at + 1):
        total = not src.bool()
        own = [(keys.pop(), src.pick([None, None, 'R', 'N']), inner(src)) for _ in range(src.below(3))]
        if i == at:
            for _ in range(src.pick([1, 1, 2])):
                how = src.below(6)
                ref = [('union', 'O', (me,)), ('union', 'U', (('c', 'int'), me)), ('list', _style(src), me), ('dict', _style(src), ('c', 'str'), me),
                       ('tupn', 't', me), me][how]
                own.insert(src.int(0, len(own)), (keys.pop(), 'N' if how == 5 else src.pick([None, 'R', 'N']), ref))
        layers.append((total, tuple(own)))
    return ('td', ('Rec', src.pick(['t', 'te', 'ts', 'tes']), tuple(layers)))


def embed(src, s, v):
    """A valid value of type s with v where s refers to the TypedDict around it; None if it does not."""
    k = s[0]
    if k == 'self':
        return [v]
    if not mentions(s, 'self'):
        return None
    if k == 'union':
        x = [x for x in s[2] if mentions(x, 'self')][0]
        return embed(src, x, v)
    if k in ('list', 'tupn', 'dict'):
        x = embed(src, s[-1], v)[0]
        return [{'list': [x], 'tupn': (x,), 'dict': {'k': x}}[k]]
    if k == 'td':
        keys = td_keys(s[1])
        at = src.pick([key for key, (x, _) in keys.items() if mentions(x, 'self')])
        out = {key: valid(src, x, False, 6) for key, (x, req) in keys.items() if key != at and (req or src.chance(4))}
        out.update({at: embed(src, keys[at][0], v)[0]})
        return [out]
    raise AssertionError(s)


def rec_value(src, s):
    """A value of a recursive TypedDict, perhaps deep, valid or with one change, deep inside or not."""
    v = valid(src, s, False, src.pick([3, 6]))
    change = src.below(4)
    if change == 0:
        v = near(src, s, v)
    for _ in range(src.pick([0, 0, 1, 2, 3, 5, 9, 14, 25])):
        v = embed(src, s, v)[0]
    if change == 1:
        v = near(src, s, v)
    return v


def extend(src, inner):
    c = src.below(11)
    if c in (0, 1):
        return ('list', _style(src), inner(src))
    if c == 2:
        return ('set', _style(src), hash_types(src))
    if c in (3, 4):
        key = hash_types(src)
        return (['dict', 'map'][c - 3], _style(src), key, key if src.chance(4) else inner(src))
    if c == 5:
        return ('seq', _style(src), inner(src))
    if c == 6:
        if src.chance(6):
            return ('tup', _style(src), (inner(src),) * src.int(2, 5))
        return ('tup', _style(src), tuple(src.list(inner, 0, 4) if src.below(5) else src.list(leaf, 5, 12)))
    if c == 7:
        return ('tupn', _style(src), inner(src))
    if c in (8, 9):
        return union(src, inner)
    return tdspec(src, inner)


def types_shallow(src):
    return leaf(src) if src.below(3) < 2 else extend(src, leaf)


def types_mid(src):
    c = src.below(3)
    return leaf(src) if c == 0 else extend(src, types_shallow if c == 1 else leaf)


def types_deep(src):
    """Supported type expressions, up to four levels deep."""
    c = src.below(4)
    return leaf(src) if c == 0 else extend(src, [leaf, types_shallow, types_mid][c - 1])


def everyday(src, levels=2):
    """The types most code is written with."""
    c = ('c', src.pick(_COMMON[:2] if src.bool() else _COMMON))
    if not levels or src.chance(4):
        return c
    how = src.below(10)
    if src.chance(25):
        return recursive(src, leaf)
    inner = everyday(src, levels - 1)
    if how < 3:
        return (src.pick(['dict', 'dict', 'map']), _style(src), src.pick([('c', 'str'), c]), inner)
    if how < 5:
        return ('list', _style(src), inner)
    if how == 5:
        return ('set', _style(src), c)
    if how == 6:
        return ('tup', _style(src), (c, inner, inner)[:src.int(1, 3)])
    if how == 7:
        return (src.pick(['tupn', 'seq']), _style(src), inner)
    if how == 8:
        return ('union', 'O', (inner,)) if src.bool() else ('union', src.pick('U|'), (inner, everyday(src, levels - 1)))
    return ('td', ('TD', 't', ((True, tuple((k, src.pick([None, None, 'N']), everyday(src, levels - 1))
                                            for k in TD_KEYS[:src.int(1, 3)])),)))


def tower(src):
    """Deep and narrow."""
    s = leaf(src)
    for _ in range(src.int(4, 9)):
        c = src.below(8)
        if c < 2:
            s = ('list', _style(src), s)
        elif c == 2:
            s = ('dict', _style(src), hashleaf(src), s)
        elif c == 3:
            s = ('map', _style(src), hashleaf(src), s)
        elif c == 4:
            s = ('seq', _style(src), s)
        elif c == 5:
            s = ('tup', _style(src), (leaf(src), s)[src.below(2):])
        elif c == 6:
            s = ('tupn', _style(src), s)
        else:
            s = ('union', 'O', (s,)) if src.bool() else \
                ('td', ('TD', src.pick(['t', 'te']), ((True, ((src.pick(TD_KEYS), src.pick([None, 'N']), s),)),)))
    return s


def unsup(src):
    return ('unsup', src.pick(UNSUP_NAMES))


def types_with_unsup(src):
    def l0(s):
        return unsup(s) if s.below(3) < 2 else leaf(s)
    c = src.below(3)
    if c == 0:
        return unsup(src)
    return extend(src, l0 if c == 1 else (lambda s: l0(s) if s.bool() else extend(s, l0)))


def g_list_any(src):
    return src.list(atoms, 0, 3)


_VALS = {
    'int': g_int, 'str': g_str, 'float': g_float, 'bool': g_bool, 'bytes': g_bytes, 'object': atoms,
    'plainlist': g_list_any,
    'plaindict': lambda s: {hashables(s): atoms(s) for _ in range(s.below(4))},
    'plainset': lambda s: set(s.list(hashables, 0, 3)),
    'plaintuple': lambda s: tuple(s.list(atoms, 0, 3)),
    'IntSub': lambda s: V.IntSub(1003), 'StrSub': lambda s: s.pick([V.StrSub('sub'), V.StrSub('')]),
    'Opaque': lambda s: V.Opaque(1), 'Color': lambda s: s.pick([V.Color.RED, V.Color.BLUE]),
    'complex': lambda s: complex(1, 2), 'NoneType': g_none, 'frozenset': g_frozen,
}
_SUBCLASS = {'int': [V.IntSub(1003), V.Color.RED, True], 'str': [V.StrSub('sub')], 'float': [V.FloatSub(7.25)],
             'plainlist': [V.ListSub([1])], 'plaindict': [V.DictSub({'a': 1})], 'plaintuple': [V.TupSub((1,))]}
_sizes = [0, 1, 1, 2, 2, 3, 4, 7]
_short = [0, 1, 1, 1, 1, 2]
_long = [1, 1, 2, 2, 0, 2, 3, 3, 4, 7, 11, 40]


def valid(src, s, hashable=False, depth=0):
    """A value that has the type, by construction."""
    k = s[0]
    if k == 'c':
        if hashable and s[1] == 'object':
            return hashables(src)
        if s[1] in _SUBCLASS and src.chance(12) and not (hashable and s[1] in ('plainlist', 'plaindict')):
            return src.pick(_SUBCLASS[s[1]])
        return _VALS[s[1]](src)
    if k in ('any', 'unsup'):
        return hashables(src) if hashable else _l1(src)
    if k == 'none':
        return None
    if k == 'union':
        opts = list(s[2]) + ([('none',)] if s[1] == 'O' else [])
        if depth > 5:
            opts = [x for x in opts if not mentions(x, 'self')] or opts
        return valid(src, src.pick(opts), hashable, depth)
    if k == 'lit':
        return src.pick(s[1])
    if k in ('list', 'set', 'dict', 'map', 'seq', 'tupn'):
        n = src.pick(_long if depth == 0 else _sizes if depth < 3 else _short)
        if depth > 1 and mentions(s, 'self'):
            n = min(n, 1) if depth < 6 else 0
    if k in ('list', 'seq'):
        if n > 7:
            base = [valid(src, s[2], False, depth + 1) for _ in range(3)]
            out = [V.clone(base[i % 3]) for i in range(n)]
        else:
            out = [valid(src, s[2], False, depth + 1) for _ in range(n)]
        if k == 'seq':
            how = src.pick(['list', 'list', 'tuple', 'set'])
            if how == 'tuple':
                return tuple(out)
            if how == 'set':
                try:
                    return set(out)
                except TypeError:
                    return out
        elif src.chance(10):
            return V.ListSub(out)
        return out
    if k == 'set':
        return {valid(src, s[2], True, depth + 1) for _ in range(min(n, 11))}
    if k in ('dict', 'map'):
        d = {}
        for _ in range(min(n, 11)):
            key = valid(src, s[2], True, depth + 1)
            d[key] = valid(src, s[3], False, depth + 1)
        c = src.below(8)
        if c == 7:
            return V.DictSub(d)
        if k == 'map' and c > 3:
            return V.UMap(d)
        return d
    if k == 'tup':
        return tuple([valid(src, x, hashable, depth + 1) for x in s[2]])
    if k == 'tupn':
        return tuple([valid(src, s[2], hashable, depth + 1) for _ in range(min(n, 11))])
    if k == 'bare':
        return {'List': _VALS['plainlist'], 'Dict': _VALS['plaindict'], 'Set': _VALS['plainset'],
                'Tuple': _VALS['plaintuple'], 'Sequence': _VALS['plainlist'],
                'Mapping': lambda r: V.UMap(_VALS['plaindict'](r))}[s[1]](src)
    if k == 'self':
        return valid(src, _SELF[s[1]][0], hashable, depth + 1)
    if k == 'td':
        out = {}
        for key, (x, req) in td_keys(s[1]).items():
            if req or src.bool() and not (depth > 5 and mentions(x, 'self')):
                out[key] = valid(src, x, False, depth + 1)
        if len(out) > 1 and src.chance(3):
            out = dict(reversed(list(out.items())))
        return out
    raise AssertionError(s)


_NEAR = [True, 0, 1, 2, 2.0, '2', b'2', '', None, [], {}, (), set(), V.IntSub(1003), V.StrSub('sub'), V.Color.RED]
_NEAR_H = [x for x in _NEAR if not isinstance(x, (list, dict, set))]


def near(src, s, v, hashable=False):
    """v (a value of type s) with one change somewhere inside."""
    k = s[0]
    pool = hashables if hashable else anyval
    if k == 'self':
        return near(src, _SELF[s[1]][0], v, hashable)
    if k == 'union':
        opts = list(s[2]) + ([('none',)] if s[1] == 'O' else [])
        for o in opts:
            try:
                if conforms(o, v):
                    return near(src, o, v, hashable)
            except Ambiguous:
                pass
        return pool(src)
    if k in ('list', 'seq', 'tupn', 'tup') and type(v) in (list, tuple, V.ListSub):
        items = list(v)
        how = src.pick(['item', 'item', 'item', 'item', 'add', 'drop', 'shape', 'other'])
        if how == 'item' and items:
            i = src.below(len(items))
            items[i] = near(src, s[2][i] if k == 'tup' and i < len(s[2]) else s[2] if k != 'tup' else ('any',), items[i], hashable)
        elif how in ('add', 'item'):
            items.insert(src.below(len(items) + 1), pool(src))
        elif how == 'drop' and items:
            items.pop()
        elif how == 'shape':
            return (tuple if isinstance(v, list) else list)(items) if not hashable else frozenset()
        elif how == 'other':
            return pool(src)
        return type(v)(items)
    if k == 'set' and type(v) is set:
        how = src.pick(['add', 'add', 'shape', 'other'])
        if how == 'add':
            return v | {hashables(src)}
        if how == 'shape':
            return src.pick([list, frozenset, tuple])(v)
        return pool(src)
    if k in ('dict', 'map') and isinstance(v, (dict, V.UMap)):
        d = dict(v)
        how = src.pick(['key', 'val', 'val', 'add', 'shape', 'other'])
        if how == 'key' and d:
            old = src.pick(list(d))
            new = near(src, s[2], old, True)
            d[new] = d.pop(old)
        elif how == 'val' and d:
            key = src.pick(list(d))
            d[key] = near(src, s[3], d[key])
        elif how in ('add', 'key', 'val'):
            d[hashables(src)] = anyval(src)
        elif how == 'shape':
            return V.UMap(d) if isinstance(v, dict) else d
        else:
            return pool(src)
        return type(v)(d)
    if k == 'td' and isinstance(v, dict):
        d = dict(v)
        how = src.pick(['val', 'val', 'val', 'drop', 'drop', 'extra', 'none', 'shape', 'other', 'twin', 'miss'])
        twins = [key for key in d if key in TWINS]
        if twins and how == 'twin':
            key = src.pick(twins)
            d[TWINS[key]] = d.pop(key)
        elif how == 'val' and d:
            key = src.pick(list(d))
            d[key] = near(src, td_keys(s[1])[key][0], d[key]) if key in td_keys(s[1]) else None
        elif how == 'drop' and d:
            d.pop(src.pick(list(d)))
        elif how == 'none' and d:
            d[src.pick(list(d))] = None
        elif how == 'miss':
            if d:
                d.pop(src.pick(list(d)))
            return V.MissDict(d)
        elif how == 'shape':
            return V.UMap(d)
        elif how == 'other':
            return pool(src)
        else:
            d[src.pick(TD_KEYS) if src.below(3) < 2 else hashables(src)] = anyval(src)
        return d
    if k == 'lit' and type(v) is str and src.bool():
        return src.pick([v.strip(), v + ' ', ' ' + v, v.upper(), v.lower(), v[:-1], v + v, v.encode()])
    if k in ('c', 'lit') and src.bool():
        return V.clone(src.pick(_NEAR_H if hashable else _NEAR))
    return pool(src)


def typed_value(src, s, hashable=False):
    """A value to judge against s: valid, nearly valid or anything."""
    c = src.below(10)
    if c == 9:
        return hashables(src) if hashable else anyval(src)
    v = valid(src, s, hashable)
    if c < 4:
        return v
    v = near(src, s, v, hashable)
    while src.chance(4):
        v = near(src, s, v, hashable)
    return v


def children(s):
    k = s[0]
    if k in ('union', 'tup'):
        return list(s[2])
    if k in ('list', 'set', 'seq', 'tupn'):
        return [s[2]]
    if k in ('dict', 'map'):
        return [s[2], s[3]]
    if k == 'td':
        return [x for _, ks in s[1][2] for _, _, x in ks]
    return []


def depth(s):
    return 1 + max([depth(x) for x in children(s)], default=0)


def mentions(s, kind):
    return s[0] == kind or any(mentions(x, kind) for x in children(s))
