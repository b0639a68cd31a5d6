"""Reference model of oblate's documented behaviour over the specs of world.py.

Independent of the library: it never imports oblate. Schema instances inside raw
data are recognised through the World (instance -> spec name).
"""
import collections.abc
import re

from . import texpr as T
from . import vals as V
from . import world as W

UNKNOWN = 'Invalid or unknown field.'
REQUIRED = 'This field is required.'
NONE = 'This field must not be None.'
DATATYPE = {'str': 'Value must be a string', 'int': 'Value must be an integer',
            'float': 'Value must be a floating point number', 'bool': 'Value must be a boolean',
            'dict': 'Value must be a dictionary', 'td': 'Value must be a dictionary',
            'list': 'Value must be a list', 'set': 'Value must be a set'}
COERCE = {'int': 'integer', 'float': 'float', 'bool': 'boolean'}


class TypeMsgs:
    """The messages of a failed type validation: not spelled out, but as many as
    (and located where) the value has problems."""

    def __init__(self, spec, value):
        self.spec = spec
        self.value = value
        try:
            self.expected = T.top_errors(spec, value)
        except T.Ambiguous:
            self.expected = None

    def matches(self, messages):
        if not messages or not all(isinstance(m, str) and m for m in messages):
            return False
        return self.expected is None or T.match_errors(self.expected, messages)

    def __repr__(self):
        return 'TypeMsgs(%r, %r)' % (self.spec, self.value)


class MInst:
    """Expected schema instance: built from raw data (obj None) or given as is."""

    def __init__(self, name, values=None, obj=None):
        self.name = name
        self.values = values
        self.obj = obj

    def __repr__(self):
        return '<%s %r>' % (self.name, self.values if self.obj is None else self.obj)


class Errs:
    """Expected errors: key -> list of str | Errs | TypeMsgs."""

    def __init__(self):
        self.by_key = {}

    def add(self, key, entries):
        self.by_key.setdefault(key, []).extend(entries)

    def __bool__(self):
        return bool(self.by_key)

    def __repr__(self):
        return 'Errs(%r)' % (self.by_key,)


class MFrozen(Exception):
    def __init__(self, entity):
        self.entity = entity


class Model:
    def __init__(self, world):
        self.w = world
        self.specs = world.specs
        self._fields = {}

    def fields(self, name):
        if name not in self._fields:
            self._fields[name] = W.resolve(self.specs, name)
        return self._fields[name]

    def name_of(self, obj):
        return type(obj).__name__

    # -- one value ---------------------------------------------------------

    def load_value(self, f, v):
        """('ok', final) or ('err', [entries])"""
        kind = f['kind']
        k = kind[0]
        if k == 'str':
            if isinstance(v, str):
                return 'ok', v
            return ('err', [DATATYPE[k]]) if kind[1] else ('ok', str(v))
        if k in ('int', 'float'):
            py = int if k == 'int' else float
            if isinstance(v, py):
                return 'ok', v
            if kind[1]:
                return 'err', [DATATYPE[k]]
            try:
                return 'ok', py(v)
            except Exception:
                return 'err', ['Failed to coerce %r to %s' % (v, COERCE[k])]
        if k == 'bool':
            if isinstance(v, bool):
                return 'ok', v
            if kind[1]:
                return 'err', [DATATYPE[k]]
            tv, fv = W.bool_words(kind)
            word = str(v)
            if word in tv:
                return 'ok', True
            if word in fv:
                return 'ok', False
            return 'err', ['Failed to coerce %r to boolean' % (v,)]
        if k == 'obj':
            cls = self.w.cls[kind[1]]
            if isinstance(v, cls):
                return 'ok', MInst(self.name_of(v), obj=v)
            if isinstance(v, collections.abc.Mapping):
                vals, errs = self.load(kind[1], v, **dict(kind[2]))
                if errs:
                    return 'err', [errs]
                return 'ok', MInst(kind[1], values=vals)
            return 'err', ['Value must be a %s object' % kind[1]]
        if k == 'custom':
            res = W.CUSTOM[kind[1]][0](v)
            if res[0] == 'ok':
                return 'ok', res[1]
            return 'err', W.effect_messages(res[1])
        s = W.type_of_kind(kind)
        if k == 'any' or T.conforms(s, v):
            return 'ok', v
        if k in ('dict', 'td') and not isinstance(v, dict):
            return 'err', [DATATYPE[k]]
        if k == 'list' and not isinstance(v, list):
            return 'err', [DATATYPE[k]]
        if k == 'set' and not isinstance(v, set):
            return 'err', [DATATYPE[k]]
        return 'err', [TypeMsgs(s, v)]

    # -- validators --------------------------------------------------------

    def validate(self, rule, v):
        """Messages of a validator for a value ([]: passes)."""
        if isinstance(v, MInst):
            v = v.obj if v.obj is not None else _SCHEMA
        k = rule[0]
        if k == 'fn':
            return W.effect_messages(rule[3]) if not self.w.quiet and W.PREDS[rule[2]](v) else []
        if k == 'range':
            lb, ub = (0, rule[2]) if rule[1] is None else (rule[1], rule[2])
            if any(v == x for x in range(lb, ub + 1)):
                return []
            return ['Value must be equal to %s' % lb if lb == ub else 'Value must be in range %s to %s inclusive' % (lb, ub)]
        if k == 'stdrange':
            return [] if v in list(range(*rule[1:])) else [Any_]
        if k == 'length':
            mn, mx, ex = rule[1:4]
            if ex is not None:
                mn = mx = ex
            n = len(v)
            if (mn is None or n >= mn) and (mx is None or n <= mx):
                return []
            if mn == mx:
                return ['Value length must be exactly %s characters' % mn]
            if mn is None:
                return ['Value length must be less than %s characters' % mx]
            if mx is None:
                return ['Value length must be greater than %s characters' % mn]
            return ['Value length must be between %s to %s characters' % (mn, mx)]
        if k == 'regex':
            pat = re.compile(rule[1], rule[2])
            how = {'match': pat.match, 'full': pat.fullmatch, 'search': pat.search}[rule[3]]
            if how(v) is not None:
                return []
            if len(rule) > 4 and rule[4] is not None:
                return [rule[4].replace('{value}', str(v)).replace('{pattern}', str(pat))]
            return ['Value failed pattern validation']
        if k == 'exclude':
            if not any(v is x or v == x for x in rule[1]):
                return []
            if len(rule[1]) == 1:
                return ['Value cannot be %r' % (rule[1][0],)]
            return ['Value cannot be one from: ' + ', '.join(map(repr, rule[1]))]
        if k == 'or':
            if any(not self.validate(r, v) for r in rule[1]):
                return []
            return ['All validations failed for the given value']
        raise AssertionError(rule)

    def run_validators(self, f, v, raw):
        out = []
        for how, is_raw, rule in f.get('vals', ()):
            if is_raw == raw:
                out += self.validate(rule, v)
        return out

    # -- schema operations ---------------------------------------------------

    def judge(self, f, v):
        """('ok', final) or ('err', [entries]) for a given value, validators included."""
        errs = self.run_validators(f, v, True)
        if v is None:
            if not f.get('none'):
                errs = errs + [NONE]
            return ('err', errs) if errs else ('ok', None)
        res, out = self.load_value(f, v)
        if res == 'err':
            return 'err', errs + out
        errs = errs + self.run_validators(f, out, False)
        return ('err', errs) if errs else ('ok', out)

    def ignore_extra(self, name, param):
        return W.config_of(self.specs, name)['ignore_extra'] if param is None else param

    def load(self, name, data, ignore_extra=None, state=None):
        spec_pre = None
        for n in W.mro(self.specs, name):
            if self.specs[n].get('pre'):
                spec_pre = self.specs[n]['pre']
                break
        if spec_pre:
            data = W.PRE[spec_pre](data)
        ignore = self.ignore_extra(name, ignore_extra)
        by_key = {W.load_key(f): f for f in self.fields(name).values()}
        values, errs = {}, Errs()
        for key, v in data.items():
            f = by_key.get(key)
            if f is None:
                if not ignore:
                    errs.add(key, [UNKNOWN])
                continue
            res, out = self.judge(f, v)
            if res == 'err':
                errs.add(key, out)
            else:
                values[f['name']] = out
        for key, f in by_key.items():
            if key not in data:
                if W.is_required(f):
                    errs.add(key, [REQUIRED])
                elif 'default' in f:
                    values[f['name']] = self.default(f)
        return values, errs

    def default(self, f):
        val = f['default'][1]
        if isinstance(val, V.Inst):
            # an instance of a schema, or None where there is none from this data
            values, errs = self.load(val.schema, self.w.materialise(val.data))
            return None if errs else MInst(val.schema, values=values)
        return val

    def update(self, name, old, data, ignore_extra=None):
        """(new values, errors); raises MFrozen."""
        if W.config_of(self.specs, name)['frozen']:
            raise MFrozen(None)
        ignore = self.ignore_extra(name, ignore_extra)
        by_key = {W.load_key(f): f for f in self.fields(name).values()}
        values, errs = dict(old), Errs()
        for key, v in data.items():
            f = by_key.get(key)
            if f is None:
                if not ignore:
                    errs.add(key, [UNKNOWN])
                continue
            if f.get('frozen'):
                raise MFrozen(f['name'])
            res, out = self.judge(f, v)
            if res == 'err':
                errs.add(key, out)
            else:
                values[f['name']] = out
        return (old if errs else values), errs

    def assign(self, name, old, fname, v):
        if W.config_of(self.specs, name)['frozen']:
            raise MFrozen(None)
        f = self.fields(name)[fname]
        if f.get('frozen'):
            raise MFrozen(fname)
        errs = Errs()
        res, out = self.judge(f, v)
        if res == 'err':
            errs.add(W.load_key(f), out)
            return old, errs
        return dict(old, **{fname: out}), errs

    def dump_value(self, f, v):
        """('ok', raw) or ('err', [entries])"""
        kind = f['kind']
        if kind[0] == 'obj':
            if v is None:
                return 'ok', None
            res, out = self.dump(self.name_of(v.obj) if v.obj is not None else v.name,
                                 self.values_of(v))
            return ('err', [out]) if res == 'err' else ('ok', out)
        if kind[0] == 'custom':
            res = W.CUSTOM[kind[1]][1](v)
            return res if res[0] == 'ok' else ('err', W.effect_messages(res[1]))
        return 'ok', v

    def values_of(self, m):
        """Field values of an expected instance."""
        if m.obj is None:
            return m.values
        return self.snapshot(m.obj)

    def snapshot(self, obj):
        """Observes an instance through the public API: {field name: value}; nested
        instances become MInst (by identity)."""
        out = {}
        for fname in self.fields(self.name_of(obj)):
            v = obj.get_value_for(fname, _NOTHING)
            if v is _NOTHING:
                continue
            if isinstance(v, self.w.o.Schema):
                v = MInst(self.name_of(v), obj=v)
            out[fname] = v
        return out

    def dump(self, name, values, include=None, exclude=None):
        fields = self.fields(name)
        out, errs = {}, Errs()
        for fname, v in values.items():
            if include is not None and fname not in include:
                continue
            if exclude is not None and fname in exclude:
                continue
            f = fields[fname]
            res, raw = self.dump_value(f, v)
            if res == 'err':
                errs.add(W.load_key(f), raw)
            else:
                out[W.dump_key(f)] = raw
        return ('err', errs) if errs else ('ok', out)


class _Nothing:
    def __repr__(self):
        return '<nothing>'


_NOTHING = _Nothing()
Any_ = '<any message>'


class _SchemaValue:
    """Stands for a loaded schema instance in validator predicates."""


_SCHEMA = _SchemaValue()


# ------------------------------------------------------------------ comparing

class Mismatch(Exception):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def compare_values(model, name, obj, values, where=''):
    """The instance holds exactly the expected values."""
    w = model.w
    check(type(obj) is w.cls[name], '%s: expected an instance of %s, got %r', where or 'instance', name, type(obj).__name__)
    for fname, f in model.fields(name).items():
        path = '%s.%s' % (where, fname) if where else fname
        got = obj.get_value_for(fname, _NOTHING)
        exp = values.get(fname, _NOTHING)
        if exp is _NOTHING:
            check(got is _NOTHING, '%s: expected no value, got %r', path, got)
            continue
        check(got is not _NOTHING, '%s: expected %r, but no value is set', path, exp)
        compare_value(model, got, exp, path)
        check(getattr(obj, fname) is got, '%s: attribute differs from get_value_for', path)


def compare_value(model, got, exp, path):
    if isinstance(exp, MInst):
        if exp.obj is not None:
            check(got is exp.obj, '%s: expected the given instance itself', path)
        else:
            compare_values(model, exp.name, got, exp.values, path)
        return
    check(V.same(got, exp), '%s: expected %r, got %r', path, exp, got)


def compare_raw(errs, raw, where=''):
    """ValidationError.raw() matches the expected errors (order within a key free)."""
    check(isinstance(raw, dict), '%sraw() is not a dict: %r', where, raw)
    check(set(errs.by_key) == set(raw), '%serror keys: expected %r, got %r', where, sorted(map(str, errs.by_key)), raw)
    for key, exp in errs.by_key.items():
        compare_entries(exp, raw[key], '%s%r: ' % (where, key))


def compare_entries(exp, got, where):
    check(isinstance(got, list), '%sexpected a list of errors, got %r', where, got)
    rest = list(got)
    nested = [e for e in exp if isinstance(e, Errs)]
    types = [e for e in exp if isinstance(e, TypeMsgs)]
    texts = [e for e in exp if isinstance(e, str)]
    for e in nested:
        cands = [g for g in rest if isinstance(g, dict)]
        check(cands, '%sexpected nested errors %r, got %r', where, e, got)
        compare_raw(e, cands[0], where)
        rest.remove(cands[0])
    for e in texts:
        if e == Any_:
            continue
        check(e in rest, '%sexpected message %r, got %r', where, e, got)
        rest.remove(e)
    for e in texts:
        if e == Any_:
            check(rest and isinstance(rest[0], str) and rest[0], '%sa message is missing in %r', where, got)
            rest.pop(0)
    if types:
        check(len(types) == 1 and types[0].matches(rest), '%smessages %r do not fit %r', where, got, types)
    else:
        check(not rest, '%sunexpected errors %r (expected %r)', where, rest, exp)


def raw_lines(model, name, err):
    """(level, text) of every line of the printed form of an error."""
    out = []

    def nested_name(f, errors, key):
        # an instance of a subclass may be dumped: the nested errors tell which
        target = f['kind'][1]
        if any(target in W.mro(model.specs, n)[1:] for n in model.specs):
            for e in errors:
                if (e.key is key or e.key == key) and isinstance(e.message, dict):
                    for sub in e.message.values():
                        for x in sub:
                            return type(x.schema).__name__
        return target

    def nested_errors(errors, key):
        return [x for e in errors if (e.key is key or e.key == key) and isinstance(e.message, dict) for sub in e.message.values() for x in sub]

    def walk(raw, name, level, errors):
        fields = {W.load_key(f): f for f in model.fields(name).values()} if name in model.specs else {}
        for key, entries in raw.items():
            f = fields.get(key)
            head = 'In field %s:' % (key,)
            if f is not None and f['name'] != key:
                head = 'In field %s (%s):' % (key, f['name'])
            out.append((level, head))
            for e in entries:
                if isinstance(e, dict):
                    sub = nested_name(f, errors, key) if f is not None and f['kind'][0] == 'obj' else None
                    walk(e, sub, level + 1, nested_errors(errors, key))
                else:
                    out.append((level + 1, e))
    walk(err.raw(), name, 0, err.errors)
    return out


_PREFIX = re.compile(r'^[\s\u2502\u2514\u251c\u2500]*')


def compare_text(model, name, err):
    """str(err): the number of keys, the schema, and every key and message of raw()."""
    raw = err.raw()
    text = str(err)
    exp = raw_lines(model, name, err)
    if any('\n' in str(e) for _, e in exp):
        for _, e in exp:
            check(str(e) in text, 'printed error lacks %r: %s', e, text)
        return
    got = [_PREFIX.sub('', l) for l in text.split('\n')]
    got = [l for l in got if l]
    head = '%d validation error%s in schema %r' % (len(raw), 's' if len(raw) > 1 else '', name)
    check(got and got[0] == head, 'printed error starts with %r, expected %r', got[:1], head)
    want = sorted(_PREFIX.sub('', t) for _, t in exp)
    want = [x for x in want if x]
    check(sorted(got[1:]) == want, 'printed error shows %r, expected %r', sorted(got[1:]), want)
    # the indentation shows what is of which field
    if all(t and not _PREFIX.match(t).group() for _, t in exp):
        shown = [(len(_PREFIX.match(l).group()), _PREFIX.sub('', l)) for l in text.split('\n')]
        shown = [x for x in shown if x[1]][1:]
        check(outline(shown) == outline(exp), 'printed error shows an outline of %r, expected %r', outline(shown), outline(exp))


def outline(lines):
    """[(indentation, text)] as a sorted tree."""
    top = []
    stack = [(-1, top)]
    for indent, t in lines:
        while stack[-1][0] >= indent:
            stack.pop()
        children = []
        stack[-1][1].append((t, children))
        stack.append((indent, children))

    def canonical(nodes):
        return sorted((t, canonical(c)) for t, c in nodes)
    return canonical(top)
