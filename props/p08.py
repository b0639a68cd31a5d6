"""P08: primitive fields: exact acceptance in strict mode, documented coercion otherwise."""

from lib import model as M
from lib import ops
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is a schema with 1-4 String/Integer/Float/Boolean fields (strict or not, own true/false words, subclasses with '
        'own words) and 1-8 values for them, given on initialization, update or assignment. Non-trivial: a value that is not '
        'an exact instance of the type of its field.')
EXAMPLES = {'quick': 9000, 'thorough': 400000}

_STRS = ['', ' ', '0', '1', '-1', '+7', ' 42\n', '1_000', '_1', '1__0', '0x10', '0b1', '007', '3.0', '3.5', '1e3', '1E-2', '-0.0',
         '.5', '5.', 'nan', 'NaN', '-inf', 'Infinity', 'infinit', '\u0663\u0664', '\u00bd', '\u2167', '\uff11\uff12', 'true', 'TRUE', 'True',
         'tRUE', 'yes', 'Yes', 'YES', 'y', 'no', 'No', 'NO', 'false', 'False', 'FALSE', 'None', 'on', 'off', '9' * 30, '9' * 4400,
         '1' + '0' * 400, 'a', 'abc', '\x00', '1\x00', '\u00a01\u3000', '--1', '1-', "b'1'", ' true', 'true ', '1.0', '0.0', '[]', '()']
_NUMS = [10 ** 900, -10 ** 2000, 0, 1, -1, 2, 10 ** 30, -10 ** 400, 10 ** 308, 0.0, 1.0, -0.0, 1.5, -2.9, 1e308, float('inf'), float('-inf'), float('nan'),
         2.0 ** 53, -(2.0 ** 60), 1e16, 123456789012345678.0, 4503599627370497.5, 1e22, 1e23, 5e-324, 0.1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, -2 ** 31,
         True, False, complex(1, 0), complex(0, 1)]


def text(src):
    if src.below(4) == 3:
        return ''.join(src.list(lambda s: s.pick('0123456789.+-_ eE\u0660\u0661ftrueyno\n'), 0, 6))
    return src.pick(_STRS)


def conv(src):
    bad = '!' + src.pick(sorted(V.EXC))
    c = src.below(6)
    if c == 0:
        return V.ConvInt({'int': src.pick([3, 0, -5, bad, bad, 2.5, 'x', None])})
    if c == 1:
        return V.ConvFloat({'float': src.pick([3.0, 0.0, -5.5, float('nan'), bad, bad, 3, 'x', None])})
    if c == 2:
        return V.ConvIndex({'index': src.pick([3, 0, -5, bad, bad, 2.5, None])})
    return V.Conv({'str': src.pick(['s' * 5000, 'true', 'no', '1', '0', '', 'x', 'True', 'yeah', 'F'])})


def value(src):
    c = src.below(12)
    if c < 3:
        return text(src)
    if c < 5:
        if src.chance(3):
            n = src.int(-9, 9) * 2 ** src.int(0, 70) + src.int(-3, 3)
            return float(n) if src.bool() else str(n) if src.bool() else n
        return src.pick(_NUMS)
    if c == 5:
        return conv(src)
    if c == 6:
        b = text(src).encode()[:12]
        return src.pick([bytes, bytearray])(b)
    if c == 7:
        return src.one(lambda s: V.NS['Decimal'](s.pick(['1', '1.5', 'NaN', 'Infinity', '-0', '1E+400'])),
                       lambda s: V.NS['Fraction'](s.int(-5, 5), s.int(1, 4)),
                       lambda s: V.StrSub(s.pick(_STRS[:20])), lambda s: V.IntSub(s.int(-2, 9)), lambda s: V.FloatSub(1.25),
                       lambda s: V.Color.RED, lambda s: s.pick(list(V.Word)),
                       lambda s: V.Holder(s.pick(['true', 'no', 1, 2.5, '3', None])))
    if c == 8:
        return None
    return T.anyval(src)


_TW = [None, None, ('T', 'yeah'), (), ('on', '1'), ['yeah'], ['yeah', 'T', 'y', 'T'], ('None', '[]'), ('',), ('3', '3.5'), ('false',)]
_FW = [None, None, ('F', 'nope'), (), ('off', '0'), ['F'], ("b''",), ('',), ('3.0', '()'), ('true',)]


def field(src, name):
    k = src.pick(['int', 'float', 'str', 'bool', 'bool', 'int', 'float'])
    strict = src.pick([False, False, True, None])
    f = {'name': name, 'kind': (k, strict), 'none': src.chance(4)}
    if k == 'bool':
        f['kind'] = (k, strict, src.pick(_TW), src.pick(_FW))
        f['sub'] = src.chance(4)
        tw, fw = words(f['kind'])
        if set(tw) & set(fw):
            f['kind'] = (k, strict, None, None)
    return f


def words(kind):
    return W.bool_words(kind)


def gen(src):
    fields = [field(src, n) for n in 'abcd'[:src.int(1, 4)]]
    tries = []
    for _ in range(src.int(1, 8)):
        f = src.pick(fields)
        k = f['kind']
        c = src.below(5)
        if c == 0 and k[0] == 'bool':
            ws = sum(map(list, words(k)), [])
            v = src.pick(ws) if ws else src.bool()
        elif c == 1:
            v = T._VALS[k[0]](src)
        else:
            v = value(src)
        tries.append((f['name'], v, src.pick(['init', 'init', 'update', 'assign'])))
    return fields, tries


def cases(tier):
    return strategy(gen)


PY = {'int': int, 'float': float, 'str': str, 'bool': bool}
WHAT = {'int': 'integer', 'float': 'float', 'bool': 'boolean'}


def expected(f, v):
    """('ok', value, same object) | ('err', message)"""
    k, strict = f['kind'][:2]
    strict = strict is None or strict       # strict by default
    py = PY[k]
    if v is None:
        return ('ok', None, True) if f['none'] else ('err', M.NONE)
    if isinstance(v, py):
        return 'ok', v, True
    if strict:
        return 'err', M.DATATYPE[k]
    if k == 'str':
        return 'ok', str(v), False
    if k == 'bool':
        tw, fw = words(f['kind'])
        if str(v) in tw:
            return 'ok', True, False
        if str(v) in fw:
            return 'ok', False, False
        return 'err', 'Failed to coerce %r to boolean' % (v,)
    try:
        return 'ok', py(v), False
    except Exception:
        return 'err', 'Failed to coerce %r to %s' % (v, WHAT[k])


def make(o, f):
    k = f['kind']
    F = {'int': o.fields.Integer, 'float': o.fields.Float, 'str': o.fields.String, 'bool': o.fields.Boolean}[k[0]]
    kw = {'none': True} if f['none'] else {}
    if k[1] is not None:
        kw['strict'] = k[1]
    if k[0] == 'bool':
        attrs = {}
        for name, ws in (('true_values', k[2]), ('false_values', k[3])):
            if ws is not None:
                if f['sub']:
                    attrs[name.upper()] = V.clone(ws)
                else:
                    kw[name] = V.clone(ws)
        if attrs:
            F = type('OwnBoolean', (F,), attrs)
    return F(**kw, required=False)


def run(o, case, rec):
    fields, tries = case
    by = {f['name']: f for f in fields}
    cls = type(o.Schema)('S', (o.Schema,), {f['name']: make(o, f) for f in fields})
    obj = cls({})
    held = {}
    for fname, v, how in tries:
        rec.checks += 1
        f = by[fname]
        v = V.clone(v)
        exp = expected(f, v)
        err = None
        target = obj
        try:
            if how == 'init':
                target = cls({fname: v})
            elif how == 'update':
                obj.update({fname: v})
            else:
                setattr(obj, fname, v)
        except o.ValidationError as e:
            err = e
        what = '%s %r for %s' % (how, v, f)
        if exp[0] == 'ok':
            M.check(err is None, '%s was rejected: %s', what, err and err.raw())
            got = getattr(target, fname)
            M.check(got is v if exp[2] else V.same(got, exp[1]), '%s: expected %r, got %r', what, exp[1], got)
            if how != 'init':
                held[fname] = got
            M.check(target.dump()[fname] is got, '%s: dumped another value', what)
        else:
            M.check(err is not None, '%s was accepted as %r', what, getattr(target, fname, None))
            M.check(err.raw() == {fname: [exp[1]]}, '%s: expected the error %r, got %r', what, exp[1], err.raw())
        for n, x in held.items():
            M.check(getattr(obj, n) is x, '%s changed %s', what, n)
        k = f['kind'][0]
        rec.nt(type(v) is not PY[k])
        rec.label('%s %s: %s' % (k, 'lenient' if f['kind'][1] is False else 'strict', exp[0] if type(v) is not PY[k] else 'own type'))
