"""Values used in generated cases.

Every value has a ``repr`` that evaluates back to an equal value in the
namespace NS, so a shrunk case can be written to (and replayed from) a plain
text file.
"""
import collections
import collections.abc
import decimal
import enum
import fractions
import types


class _SubRepr:
    def __repr__(self):
        base = next(b for b in type(self).__mro__ if b.__module__ == 'builtins' and b is not object)
        return '%s(%s)' % (type(self).__name__, base.__repr__(self))


class IntSub(_SubRepr, int):
    pass


class StrSub(_SubRepr, str):
    pass


class FloatSub(_SubRepr, float):
    pass


class ListSub(list):
    def __repr__(self):
        return 'ListSub(%s)' % list.__repr__(self)


class TupSub(tuple):
    def __repr__(self):
        return 'TupSub(%s)' % tuple.__repr__(self)


class SetSub(set):
    def __repr__(self):
        return 'SetSub(%s)' % (list(self),)


class DictSub(dict):
    def __repr__(self):
        return 'DictSub(%s)' % dict.__repr__(self)


class MissDict(DictSub):
    """A dict that makes up the values of missing keys, like a defaultdict."""

    def __missing__(self, k):
        self[k] = ['made up']
        return self[k]

    def __repr__(self):
        return 'MissDict(%s)' % dict.__repr__(self)


class UMap(collections.abc.Mapping):
    """A mapping that is not a dict (and has no mutators)."""

    def __init__(self, d):
        self._d = dict(d)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return 'UMap(%r)' % (self._d,)


class BrokenMap(UMap):
    """A mapping that fails ('iter': iterating, 'get': looking up) after n items."""

    def __init__(self, d, how, n):
        UMap.__init__(self, d)
        self.how, self.n = how, n
        self.left = n

    def __iter__(self):
        for i, k in enumerate(self._d):
            if self.how == 'iter' and i >= self.n:
                raise RuntimeError('broken mapping')
            yield k
        if self.how == 'iter':
            raise RuntimeError('broken mapping')

    def __getitem__(self, k):
        if self.how == 'get':
            if self.left <= 0:
                raise RuntimeError('broken mapping')
            self.left -= 1
        return self._d[k]

    def __repr__(self):
        return 'BrokenMap(%r, %r, %r)' % (self._d, self.how, self.n)


class Color(enum.IntEnum):
    RED = 1001
    BLUE = 1002

    def __repr__(self):
        return 'Color.' + self.name


class Word(enum.Enum):
    """Members whose values (or names) are words that mean something as texts."""
    yes = 'yes'
    off = 'false'
    one = '1'
    zero = 0
    real = '2.5'

    def __repr__(self):
        return 'Word.' + self.name


class Holder:
    """An object with attributes that libraries like to look for."""

    def __init__(self, value):
        self.value = self.name = self.real = self.data = value

    def __eq__(self, other):
        return type(other) is Holder and same(other.value, self.value)

    __hash__ = None

    def __repr__(self):
        return 'Holder(%r)' % (self.value,)


class Opaque:
    """An object of no supported type."""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        return type(other) is Opaque and other.tag == self.tag

    def __hash__(self):
        return hash(('Opaque', self.tag))

    def __repr__(self):
        return 'Opaque(%r)' % (self.tag,)


class BadNum:
    """Conversions to int/float fail with an unusual exception."""

    def __init__(self, how):
        self.how = how

    def _boom(self):
        raise {'zde': ZeroDivisionError, 'key': KeyError, 'rt': RuntimeError,
               'ovf': OverflowError, 'type': TypeError}[self.how]('no')

    def __int__(self):
        self._boom()

    def __float__(self):
        self._boom()

    def __eq__(self, other):
        return type(other) is BadNum and other.how == self.how

    def __hash__(self):
        return hash(('BadNum', self.how))

    def __repr__(self):
        return 'BadNum(%r)' % (self.how,)


class NumLike:
    """Convertible to int, float and str, but none of them."""

    def __init__(self, n):
        self.n = n

    def __int__(self):
        return self.n

    def __float__(self):
        return float(self.n)

    def __str__(self):
        return 'numlike%d' % self.n

    def __eq__(self, other):
        return type(other) is NumLike and other.n == self.n

    def __hash__(self):
        return hash(('NumLike', self.n))

    def __repr__(self):
        return 'NumLike(%r)' % (self.n,)


class Conv:
    """An object whose conversions (int, float, index, trunc, str) do as told:
    how is a dict from conversion to a value to return or an exception name."""

    def __init__(self, how):
        self.how = how

    def _do(self, what):
        r = self.how[what]
        if isinstance(r, str) and r.startswith('!'):
            raise EXC[r[1:]]('no')
        return r

    def __repr__(self):
        return 'Conv(%r)' % (self.how,)

    def __str__(self):
        return self.how.get('str', 'conv')

    def __eq__(self, other):
        return type(other) is type(self) and other.how == self.how

    __hash__ = object.__hash__


EXC = {'zde': ZeroDivisionError, 'key': KeyError, 'rt': RuntimeError, 'ovf': OverflowError, 'type': TypeError,
       'val': ValueError, 'as': AssertionError, 'attr': AttributeError, 'idx': IndexError, 'stop': StopIteration,
       'ni': NotImplementedError, 'uni': UnicodeError, 'mem': MemoryError, 'rec': RecursionError, 'os': OSError}


class ConvInt(Conv):
    def __int__(self):
        return self._do('int')


class ConvFloat(Conv):
    def __float__(self):
        return self._do('float')


class ConvIndex(Conv):
    def __index__(self):
        return self._do('index')


class EqNone:
    """Equal to None without being None."""

    def __eq__(self, other):
        return other is None or type(other) is EqNone

    def __hash__(self):
        return hash(None)

    def __repr__(self):
        return 'EqNone()'


class KeyText:
    """Prints like a text without being one."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return 'KeyText(%r)' % (self.text,)

    def __eq__(self, other):
        return type(other) is KeyText and other.text == self.text

    def __hash__(self):
        return hash(('KeyText', self.text))


class Inst:
    """Placeholder for an instance of a generated schema (name, raw data)."""

    def __init__(self, schema, data):
        self.schema = schema
        self.data = data

    def __repr__(self):
        return 'Inst(%r, %r)' % (self.schema, self.data)


class Ref:
    """Placeholder for 'the value currently held by slot n' in a history."""

    def __init__(self, slot, name):
        self.slot = slot
        self.name = name

    def __repr__(self):
        return 'Ref(%r, %r)' % (self.slot, self.name)


mappingproxy = types.MappingProxyType

NS = {
    'IntSub': IntSub, 'StrSub': StrSub, 'FloatSub': FloatSub, 'ListSub': ListSub,
    'TupSub': TupSub, 'SetSub': SetSub, 'DictSub': DictSub, 'MissDict': MissDict, 'UMap': UMap, 'BrokenMap': BrokenMap, 'Color': Color,
    'Opaque': Opaque, 'Word': Word, 'Holder': Holder, 'EqNone': EqNone, 'BadNum': BadNum, 'NumLike': NumLike, 'Inst': Inst, 'Ref': Ref, 'KeyText': KeyText,
    'mappingproxy': mappingproxy, 'OrderedDict': collections.OrderedDict,
    'Decimal': decimal.Decimal, 'Fraction': fractions.Fraction,
    'Conv': Conv, 'ConvInt': ConvInt, 'ConvFloat': ConvFloat, 'ConvIndex': ConvIndex,
    'nan': float('nan'), 'inf': float('inf'), 'range': range, 'frozenset': frozenset, 'set': set,
    'NotImplemented': NotImplemented, 'bytearray': bytearray, 'deque': collections.deque,
}


def literal_eval(text):
    """Evaluates the text of a case."""
    return eval(text, {'__builtins__': {}, 'True': True, 'False': False, 'None': None,
                       'Ellipsis': Ellipsis, **NS})


def same(a, b):
    """Type-sensitive deep equality (1 != True != 1.0, nan == nan)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (collections.abc.Mapping,)):
        if len(a) != len(b):
            return False
        if not all(same(x, y) for x, y in zip(sorted(map(_tk, a)), sorted(map(_tk, b)))):
            return False
        return all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(_tk, a)) == sorted(map(_tk, b))
    if isinstance(a, Inst):
        return a.schema == b.schema and same(a.data, b.data)
    try:
        return bool(a == b)
    except Exception:
        return False


def text(x):
    """repr(), the same for equal sets (the order in which a set shows its items depends on its history)."""
    t = type(x)
    if t in (set, frozenset, SetSub):
        return '%s{%s}' % (t.__name__, ', '.join(sorted(map(text, x))))
    if t in (list, tuple, ListSub, TupSub, collections.deque):
        return '%s(%s)' % (t.__name__, ', '.join(map(text, x)))
    if t in (dict, DictSub, MissDict, collections.OrderedDict):
        return '%s{%s}' % (t.__name__, ', '.join('%s: %s' % (text(k), text(y)) for k, y in x.items()))
    return repr(x)


def _tk(x):
    return type(x).__name__, text(x)


def stretch(v, n, deep=0):
    """v with n more elements like its first one, in front (deep: in the first container inside, if any)."""
    t = type(v)
    if deep and t in (list, tuple, dict) and len(v):
        if t is dict:
            k = next(iter(v))
            return {**v, k: stretch(v[k], n, deep - 1)}
        return t([stretch(v[0], n, deep - 1)] + list(v[1:]))
    if t in (list, tuple, ListSub) and len(v):
        return t([v[0]] * n + list(v))
    if t in (set, frozenset, SetSub) and len(v):
        return t(_like(next(iter(v)), n) + list(v))
    if t in (dict, DictSub, MissDict, UMap) and len(v):
        k = next(iter(v))
        return t({**{x: v[k] for x in _like(k, n) if x not in v}, **{x: v[x] for x in v}})
    return v


def echo(v, i, deep=0):
    """v with the same object twice: item i + 1 (or value) is the item i itself (deep: inside the first container inside)."""
    t = type(v)
    if deep and t in (list, tuple, dict):
        for k, x in (v.items() if t is dict else enumerate(v)):
            y = echo(x, i, deep - 1)
            if y is not x:
                return {**v, k: y} if t is dict else t(y if j == k else z for j, z in enumerate(v))
    if t in (list, tuple) and len(v) > 1:
        i %= len(v)
        return t(v[i] if j == (i + 1) % len(v) else z for j, z in enumerate(v))
    if t is dict and v:
        keys = list(v)
        k = keys[i % len(keys)]
        return {**v, k: v[keys[i % len(keys) - 1]] if len(keys) > 1 else k}
    return v


def _like(x, n):
    if type(x) is int:
        return list(range(100, 100 + n))
    if type(x) is str:
        return ['%s%d' % (x, i) for i in range(n)]
    if type(x) is float:
        return [i + 0.5 for i in range(n)]
    return [x]


def reorder(v):
    """An equal value whose dicts (and sets, as far as possible) iterate the other way round."""
    t = type(v)
    if t in (list, tuple):
        return t([reorder(x) for x in v])
    if t in (dict, DictSub, MissDict):
        return t((k, reorder(x)) for k, x in reversed(list(v.items())))
    if t in (set, SetSub, frozenset):
        return t(reversed(list(v)))
    return clone(v)


def clone(v):
    """Deep copy of a value (leaves of other than builtin types are shared)."""
    t = type(v)
    if t in (list, tuple, ListSub, TupSub, collections.deque):
        return t([clone(x) for x in v])
    if t in (set, SetSub, frozenset):
        return t(sorted([clone(x) for x in v], key=_tk))     # equal sets show their items in the same order
    if t in (dict, DictSub, MissDict, collections.OrderedDict):
        return t((k, clone(x)) for k, x in v.items())
    if t is UMap:
        return UMap({k: clone(x) for k, x in v.items()})
    if t is types.MappingProxyType:
        return mappingproxy({k: clone(x) for k, x in v.items()})
    if t is Inst:
        return Inst(v.schema, clone(v.data))
    if t is bytearray:
        return bytearray(v)
    # an equal value need not be the same object
    if t is str:
        return ''.join(list(v)) if v.isascii() else v
    if t is int:
        return int(str(v)) if -10 ** 20 < v < 10 ** 20 else v
    if t is float:
        return float(repr(v)) if v == v else v
    if t is bytes:
        return bytes(bytearray(v))
    return v


def intrude(v, x, where=0):
    """Puts x in a mutable container of v, in place (where: how deep to prefer); returns the undo, or None."""
    t = type(v)
    if where:
        inner = list(v.values()) if t in (dict, DictSub, MissDict) else list(v) if t in (list, tuple, ListSub) else []
        for y in inner:
            undo = intrude(y, x, where - 1)
            if undo:
                return undo
    if t in (list, ListSub):
        v.append(x)
        return lambda: v.pop()
    if t in (set, SetSub) and x not in v:
        v.add(x)
        return lambda: v.discard(x)
    if t in (dict, DictSub, MissDict) and 'intruder' not in v:
        v['intruder'] = x
        return lambda: v.pop('intruder')
    return None


def usurp(v, x, where=0):
    """As intrude, replacing an item that is there (the size stays)."""
    t = type(v)
    keys = list(v) if t in (dict, DictSub, MissDict) else range(len(v)) if t in (list, tuple, ListSub) else []
    if where:
        for k in keys:
            undo = usurp(v[k], x, where - 1)
            if undo:
                return undo
    if t is tuple or not keys:
        return None
    k = list(keys)[-1]
    old = v[k]
    v[k] = x
    return lambda: v.__setitem__(k, old)
