"""Generated schemas: plain-data specs, their translation to oblate schemas and
the strategies that generate specs and raw data for them.

A world is a list of schema specs; a schema spec is a dict

  name      class name
  bases     names of earlier schema specs ([] -> oblate.Schema)
  config    None or a dict of SchemaConfig options
  fields    list of field specs, in definition order
  inherited list of (field name, validator spec): @validate.field('name') on inherited fields
  pre       None or the name of a preprocessing (PRE)
  post      bool: records the post-init hook
  kwinit    bool: __init__ takes a keyword of its own, records it and calls the one of the library
  dunder    absent or the name of a special method that the class defines (DUNDERS)

A field spec is a dict

  name, kind (tuple), none, required, frozen (bools or absent)
  default   absent, ('v', value) or ('call', value)
  load_key, dump_key, data_key
  vals      list of validator specs

A validator spec is (how, raw, rule):
  how   'ctor' | 'add' | 'deco' | 'decostr' | 'cls'
  rule  ('fn', id, pred, effect) or a prebuilt one
        ('range', lb|None, ub) ('length', min, max, exact) ('regex', pattern, flags, mode)
        ('exclude', values) ('or', (rule, ...)) ('stdrange', a, b, step)
"""
import collections.abc
import contextlib
import functools
import re
import types
import zlib

from . import texpr as T
from . import vals as V

# ------------------------------------------------------------- predicates

PREDS = {
    'always': lambda v: True,
    'never': lambda v: False,
    'falsy': lambda v: _truth(v) is False,
    'none': lambda v: v is None,
    'isstr': lambda v: isinstance(v, str),
    'isint': lambda v: isinstance(v, int),
    'big': lambda v: isinstance(v, int) and v > 5,
    'odd': lambda v: _sized(v) and len(v) % 2 == 1,
    'long': lambda v: _sized(v) and len(v) > 1,
}


def _sized(v):
    return hasattr(v, '__len__') and not hasattr(type(v), '__fields__')


def _truth(v):
    if hasattr(type(v), '__fields__'):
        return True     # an instance of a schema, whatever its class defines
    try:
        return bool(v)
    except Exception:
        return True


class VErr(ValueError):
    """A subclass of ValueError, with its own str()."""

    def __str__(self):
        return 'verr:' + ''.join(map(str, self.args))


# effect: (exception kind, message)
#   VE AE FE  ValueError / AssertionError / FieldError with the message
#   VE0 AE0   without a message
#   FEL FET   FieldError with a list / tuple of messages
#   FEN FSN   FieldError with many messages / with a set of them (FSN not in EFFECTS)
#   FEF FE1   FieldError with falsy messages / a message that is no string
#   FES FLS   FieldError with a message / a list of messages and a state (not in EFFECTS)
#   VS        subclass of ValueError
RESULTS = {'1': True, '2': NotImplemented, '3': 'failed', '4': ValueError('failed'), '5': ['failed'], '6': None, '7': ValueError, '8': 0}
EFFECTS = ('VE', 'AE', 'FE', 'VE0', 'AE0', 'FEL', 'FET', 'VS', 'VE2', 'FEN', 'FEF', 'FE1')
FAILED = 'Validation failed for this field.'


def effect_messages(eff):
    kind, msg = eff
    if kind in ('VE', 'AE', 'FE', 'FES'):
        return [msg]
    if kind in ('VE0', 'AE0'):
        return [FAILED]
    if kind in ('FEL', 'FET', 'FLS'):
        return [msg + '/1', msg + '/2']
    if kind == 'FEF':
        return ['', '0', msg, 'None']
    if kind == 'FE1':
        return [str(len(msg) % 3)]
    if kind in ('FEN', 'FSN'):
        return ['%s/%d' % (msg, i) for i in range(25)]
    if kind == 'VS':
        return ['verr:' + msg]
    if kind == 'VE2':
        return [str(ValueError(msg, 2))]
    raise FOREIGN[kind](msg)


class Foreign(Exception):
    """Not a validation failure: must propagate as it is."""


class ForeignType(TypeError):
    """As Foreign, of a kind that libraries like to catch."""


class ForeignKey(KeyError):
    """As Foreign."""


class ForeignAttr(AttributeError):
    """As Foreign."""


class Abort(BaseException):
    """As Foreign, and not even an Exception."""


FOREIGN = {'FG': Foreign, 'FT': ForeignType, 'FK': ForeignKey, 'FA': ForeignAttr, 'BX': Abort}


def stated_error(oblate):
    """A user's subclass of FieldError."""
    class StatedError(oblate.FieldError):
        code = 5
    return StatedError


def raise_effect(oblate, eff):
    kind, msg = eff
    if kind == 'VE':
        raise ValueError(msg)
    if kind == 'AE':
        raise AssertionError(msg)
    if kind == 'FE':
        raise oblate.FieldError(msg)
    if kind == 'VE0':
        raise ValueError
    if kind == 'AE0':
        raise AssertionError()
    if kind == 'FEL':
        raise oblate.FieldError([msg + '/1', msg + '/2'])
    if kind == 'FET':
        raise oblate.FieldError((msg + '/1', msg + '/2'))
    if kind == 'FEF':
        raise oblate.FieldError(['', 0, msg, None])
    if kind == 'FE1':
        raise oblate.FieldError(len(msg) % 3)
    if kind in ('FES', 'FLS'):
        raise stated_error(oblate)(msg if kind == 'FES' else [msg + '/1', msg + '/2'], state={'of': msg})
    if kind == 'FSN':
        raise oblate.FieldError(set(effect_messages(eff)))
    if kind == 'FEN':
        raise oblate.FieldError(effect_messages(eff))
    if kind == 'VS':
        raise VErr(msg)
    if kind == 'VE2':
        raise ValueError(msg, 2)
    raise FOREIGN[kind](msg)


# ---------------------------------------------------------- preprocessing

class _Helper:
    frozen = ignore_extra = True
    slotted = add_repr = False


HELPERS = {'Kind': _Helper, 'Tag': str, 'config': 'text', 'MAX': 3, 'Err': ValueError, 'meta': {'frozen': True}}


def _pre_rename(d):
    d = dict(d)
    if 'old' in d:
        d['a'] = d.pop('old')
    return d


def _pre_fill(d):
    return {**d, 'a': d.get('a', 3)}


PRE = {
    'copy': lambda d: dict(d),
    'rename': _pre_rename,
    'fill': _pre_fill,
    'proxy': lambda d: V.UMap(d),
    'dropx': lambda d: {k: v for k, v in d.items() if k != 'x'},
}

# ----------------------------------------------------------- custom fields
# load: value -> ('ok', v) | ('err', effect);  dump: value -> ('ok', v) | ('err', effect)


def _c_double(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return 'ok', v * 2
    return 'err', ('VE', 'not a number: %s' % type(v).__name__)


def _c_csv(v):
    if isinstance(v, str):
        return 'ok', v.split(',')
    return 'err', ('FEL', 'not csv')


def _c_pick(v):
    if isinstance(v, str):
        for e in EFFECTS + tuple(FOREIGN):
            if v == 'raise ' + e:
                return 'err', (e, 'picked')
    return 'ok', v


def _c_fdump(v):
    return 'ok', v


def _d_half(v):
    return 'ok', v // 2 if isinstance(v, int) else v


def _d_join(v):
    return 'ok', ','.join(v) if isinstance(v, list) and all(isinstance(x, str) for x in v) else v


def _d_fail(v):
    if isinstance(v, str):
        for e in EFFECTS + tuple(FOREIGN):
            if v == 'dump ' + e:
                return 'err', (e, 'undumpable')
    return 'ok', v


CUSTOM = {
    'double': (_c_double, _d_half),
    'csv': (_c_csv, _d_join),
    'pick': (_c_pick, lambda v: ('ok', v)),
    'fdump': (_c_fdump, _d_fail),
    'none2': (lambda v: ('ok', None if v == 'null' else v), lambda v: ('ok', 'null' if v is None else v)),
}

# ------------------------------------------------------------------ mixins
# classes that are not schemas and take part in the inheritance of schemas


def _mixin_plain(w):
    return type('Plain', (), {'__slots__': (), 'helper': lambda self: type(self).__name__, 'constant': 5})


def _mixin_post(w):
    def __schema_post_init__(self):
        w.log.append(('post', self))
        super(mx, self).__schema_post_init__()
    mx = type('Post', (), {'__slots__': (), '__schema_post_init__': __schema_post_init__})
    return mx


def _mixin_pre(w):
    def preprocess_data(self, data):
        w.log.append(('pre', self, data))
        return super(mx, self).preprocess_data(data)
    mx = type('Pre', (), {'__slots__': (), 'preprocess_data': preprocess_data})
    return mx


# special methods of schema classes that mean nothing to the library

def _everything(self, other):
    return isinstance(other, type(self))


DUNDERS = {
    'len': {'__len__': lambda self: 0},
    'bool': {'__bool__': lambda self: False},
    'eq': {'__eq__': _everything, '__hash__': object.__hash__},
    'nohash': {'__eq__': _everything, '__hash__': None},
    'iter': {'__iter__': lambda self: iter(()), '__contains__': lambda self, x: True, '__call__': lambda self, *args: None},
}

MIXINS = {'plain': _mixin_plain, 'post': _mixin_post, 'pre': _mixin_pre}


def callable_as(fn, style):
    """A function of two arguments as some other kind of callable."""
    if style == 'fn':
        return fn
    if style == 'lambda':
        return lambda *args: fn(*args)
    if style == 'partial':
        return functools.partial(lambda tag, ctx, field: fn(ctx, field), 'tag')
    if style == 'class':
        return type('Factory', (), {'__new__': lambda cls, ctx, field: fn(ctx, field)})
    attrs = {'__call__': lambda self, ctx, field: fn(ctx, field), 'make': lambda self, ctx, field: fn(ctx, field)}
    if style == 'falsy':
        attrs['__bool__'] = lambda self: False
    if style == 'empty':
        attrs['__len__'] = lambda self: 0
    if style == 'odd':      # equal to everything
        attrs['__eq__'] = lambda self, other: True
        attrs['__hash__'] = lambda self: 0
    obj = type('Factory', (), attrs)()
    return obj.make if style == 'method' else obj


def validator_as(fn, vid):
    """A validator function as the kind of callable that goes with its id."""
    form = int(vid[1:]) % 9 if vid[1:].isdigit() else 0
    if form == 2:
        return types.MethodType(lambda self, schema, value, ctx: fn(schema, value, ctx), ['some object'])
    if form == 4:
        return functools.partial(lambda tag, schema, value, ctx: fn(schema, value, ctx), 'tag')
    if form in (6, 8):
        attrs = {'__call__': lambda self, schema, value, ctx: fn(schema, value, ctx)}
        if form == 8:
            attrs['__len__'] = lambda self: 0
        return type('Validate', (), attrs)()
    return fn


STYLES = ('fn', 'lambda', 'partial', 'class', 'falsy', 'empty', 'odd', 'method', 'object')

# ------------------------------------------------------------------ builder


class World:
    """The oblate classes of a list of schema specs."""
    alias = True           # some of the equal containers in data are one object

    def __init__(self, oblate, specs, hooks=None):
        self.o = oblate
        self.specs = {}
        self.cls = {}
        self.cfgs = {}
        self.log = []          # events recorded by user code
        self.fns = {}          # (id of a rule, raw) -> its function
        self.hooks = hooks or {}
        self.quiet = False     # functions registered as validators do nothing
        for spec in specs:
            self.add(spec)

    def add(self, spec):
        self.specs[spec['name']] = spec
        self.cls[spec['name']] = self.build_schema(spec)

    # -- validators
    def rule_fn(self, rule):
        o, v = self.o, self.o.validate
        k = rule[0]
        if k == 'fn':
            return self._fn(rule)
        if k == 'range':
            return v.Range(rule[2]) if rule[1] is None else v.Range(rule[1], rule[2])
        if k == 'stdrange':
            return v.Range.from_standard(range(rule[1], rule[2], rule[3]))
        if k == 'length':
            kw = {n: x for n, x in zip(('min', 'max', 'exact'), rule[1:4]) if x is not None}
            return v.Length(**kw)
        if k == 'regex':
            kw = {'full': {'full_match': True}, 'search': {'search': True}, 'match': {}}[rule[3]]
            if len(rule) > 4 and rule[4] is not None:
                kw = dict(kw, fail_message=rule[4])
            if len(rule) > 5 and rule[5]:
                return v.Regex(re.compile(rule[1], rule[2]), **kw)
            return v.Regex(rule[1], rule[2], **kw) if rule[2] else v.Regex(rule[1], **kw)
        if k == 'exclude':
            return v.Exclude(*rule[1])
        if k == 'or':
            return v.Or(*[self.rule_fn(r) for r in rule[1]])
        raise AssertionError(rule)

    def _fn(self, rule, cls=False, raw=False, plain=False):
        _, vid, pred, eff = rule
        test = PREDS[pred]
        o, log, hooks = self.o, self.log, self.hooks

        def body(schema, value, ctx):
            if self.quiet:
                return
            log.append(('val', vid, value, raw, schema, ctx))
            if 'validator' in hooks:
                hooks['validator'](vid, schema, value, ctx)
            if test(hooks['seen'](value) if 'seen' in hooks else value):
                raise_effect(o, eff)
            return RESULTS[vid[-1:]] if vid[-1:] in RESULTS else False     # the result of a validator means nothing

        if not cls:
            # registered once more, a rule is the same function
            if (repr(rule), raw) in self.fns and not plain:
                return self.fns[repr(rule), raw]

            def validator(self, value, ctx):
                return body(self, value, ctx)
            if not plain:
                validator = validator_as(validator, vid)
                self.fns[repr(rule), raw] = validator
            return validator

        class V_(o.validate.Validator, raw=raw):
            def validate(self, value, ctx):
                return body(ctx.schema, value, ctx)
        return V_()

    # -- fields
    def build_field(self, f, deco=None):
        o, F = self.o, self.o.fields
        kw = {}
        for n in ('none', 'required', 'frozen', 'load_key', 'dump_key', 'data_key', 'extras'):
            if n in f:
                kw[n] = f[n]
        if 'default' in f:
            how, val = f['default'][:2]
            if how == 'v':
                kw['default'] = self.default(val)
            else:
                log, hooks, fname = self.log, self.hooks, f['name']

                def default(ctx, field, val=val):
                    out = self.default(val)
                    log.append(('default', fname, ctx, field, out))
                    if 'default' in hooks:
                        hooks['default'](fname, ctx, field)
                    return out
                kw['default'] = callable_as(default, f['default'][2] if len(f['default']) > 2 else 'fn')
        ctor = []
        later = []
        for how, raw, rule in f.get('vals', ()):
            if how in ('deco', 'decostr'):
                continue
            if how == 'cls':
                assert rule[0] == 'fn'
                (ctor if raw else later).append((self._fn(rule, cls=True, raw=raw), None))
            elif how == 'ctor' and not raw:
                ctor.append((self.rule_fn(rule) if rule[0] != 'fn' else self._fn(rule, raw=False), None))
            else:
                later.append((self.rule_fn(rule) if rule[0] != 'fn' else self._fn(rule, raw=raw), raw))
        if ctor:
            kw['validators'] = [c for c, _ in ctor]
        field = self.make_field(f['kind'], kw)
        for fn, raw in later:
            if raw is None:
                field.add_validator(fn)
            else:
                field.add_validator(fn, raw=raw)
        return field

    def default(self, val):
        if not isinstance(val, V.Inst):
            return V.clone(val)
        raw = self.materialise(val.data)
        try:
            return self.cls[val.schema](raw)
        except self.o.ValidationError:
            return None

    def arg(self, name, value):
        """Called with every container that a field is given besides the common options."""
        return value

    def make_field(self, kind, kw):
        F = self.o.fields
        k = kind[0]
        wrap = self.hooks.get('field_cls', lambda c: c)
        if k == 'str':
            return wrap(F.String)(strict=kind[1], **kw)
        if k == 'int':
            return wrap(F.Integer)(strict=kind[1], **kw)
        if k == 'float':
            return wrap(F.Float)(strict=kind[1], **kw)
        if k == 'bool':
            if kind[2] is not None:
                kw['true_values'] = self.arg('true_values', V.clone(kind[2]))
            if kind[3] is not None:
                kw['false_values'] = self.arg('false_values', V.clone(kind[3]))
            return wrap(F.Boolean)(strict=kind[1], **kw)
        if k == 'any':
            return wrap(F.Any)(**kw)
        if k == 'lit':
            return wrap(F.Literal)(*kind[1], **kw)
        if k == 'union':
            return wrap(F.Union)(*[T.build(s) for s in kind[1]], **kw)
        if k == 'expr':
            return wrap(F.TypeExpr)(T.build(kind[1]), **kw)
        if k == 'dict':
            return wrap(F.Dict)(*[T.build(s) for s in kind[1:]], **kw)
        if k == 'td':
            return wrap(F.TypedDict)(T.build(kind[1]), **kw)
        if k == 'list':
            return wrap(F.List)(*[T.build(s) for s in kind[1:]], **kw)
        if k == 'set':
            return wrap(F.Set)(*[T.build(s) for s in kind[1:]], **kw)
        if k == 'obj':
            if kind[2]:
                kw['init_kwargs'] = self.arg('init_kwargs', dict(kind[2]))
            return wrap(F.Object)(self.cls[kind[1]], **kw)
        if k == 'custom':
            return self.custom(kind[1])(**kw)
        raise AssertionError(kind)

    def custom(self, name):
        o, log, hooks = self.o, self.log, self.hooks
        load, dump = CUSTOM[name]

        class Custom(o.fields.Field):
            def value_load(self, value, ctx):
                log.append(('load', self.name, value, ctx))
                if 'load' in hooks:
                    hooks['load'](self, value, ctx)
                res = load(value)
                if res[0] == 'err':
                    raise_effect(o, res[1])
                return res[1]

            def value_dump(self, value, ctx):
                log.append(('dump', self.name, value, ctx))
                if 'dump' in hooks:
                    hooks['dump'](self, value, ctx)
                res = dump(value)
                if res[0] == 'err':
                    raise_effect(o, res[1])
                return res[1]
        return self.hooks.get('field_cls', lambda c: c)(Custom)

    # -- schemas
    def build_schema(self, spec):
        o = self.o
        attrs = {}
        if spec.get('slots') is not None:
            attrs['__slots__'] = tuple(spec['slots'])
        n = 0
        decos = []
        for f in spec['fields']:
            attrs[f['name']] = field = self.build_field(f)
            for how, raw, rule in f.get('vals', ()):
                if how in ('deco', 'decostr'):
                    target = field if how == 'deco' else f['name']
                    decos.append((target, raw, rule))
        decos += [(name, raw, rule) for name, (how, raw, rule) in spec.get('inherited', ())]
        for target, raw, rule in decos:
            fn = self._fn(rule, raw=raw, plain=True)
            # not in alphabetical order
            attrs['_%s%d' % ('pzkaqmb'[n % 7], n)] = (o.validate.field(target, raw=True) if raw else o.validate.field(target))(fn)
            n += 1
        if spec.get('config') is not None:
            above = o.SchemaConfig
            if spec.get('cfg_via') == 'parent':
                above = next((self.cfgs[n] for n in mro(self.specs, spec['bases'][0]) if n in self.cfgs), above)
            cfg = spec.get('cfg_name', 'Config')
            attrs[cfg] = self.cfgs[spec['name']] = type(cfg, (above,), dict(spec['config']))
        attrs.update(DUNDERS.get(spec.get('dunder'), {}))
        for h in spec.get('helpers', ()):
            # classes (and others) in the body that mean nothing to the library
            attrs[h] = HELPERS[h]
        if spec.get('pre'):
            pre, log, hooks = PRE[spec['pre']], self.log, self.hooks

            def preprocess_data(self, data):
                log.append(('pre', self, data))
                if 'pre' in hooks:
                    hooks['pre'](self, data)
                return pre(data)
            attrs['preprocess_data'] = preprocess_data
        if spec.get('repr'):
            attrs['__repr__'] = lambda self, tag=spec['repr']: tag
        if spec.get('post'):
            log2, hooks2 = self.log, self.hooks

            def __schema_post_init__(self):
                log2.append(('post', self))
                if 'post' in hooks2:
                    hooks2['post'](self)
            attrs['__schema_post_init__'] = __schema_post_init__
        bases = tuple(self.cls[b] for b in spec.get('bases', ())) or (o.Schema,)
        for where, mixin in spec.get('mixins', ()):
            mx = MIXINS[mixin](self)
            bases = (mx,) + bases if where == 'first' else bases + (mx,)
        made = []
        if spec.get('kwinit'):
            # an __init__ with a keyword of its own
            def __init__(self, data, *, flavour=None, **kw):
                self_log.append(('init', self, flavour))
                super(made[0], self).__init__(data, **kw)
            self_log = self.log
            attrs['__init__'] = __init__
        made.append(type(o.Schema)(spec['name'], bases, attrs))
        return made[0]

    @contextlib.contextmanager
    def quietly(self):
        self.quiet = True
        try:
            yield
        finally:
            self.quiet = False

    # -- data
    def materialise(self, data, insts=None):
        """Fresh containers, Inst placeholders replaced by schema instances. Some of the equal ones
        are one object."""
        return self._materialise(data, insts, {} if self.alias else None)

    def _materialise(self, data, insts, memo):
        if memo is None or type(data) not in (dict, list, set, bytearray, V.Inst):
            return self._fresh(data, insts, memo)
        text = V.text(data)
        key = type(data), text
        if key not in memo or zlib.crc32(text.encode()) & 1:
            memo[key] = self._fresh(data, insts, memo)
        return memo[key]

    def _fresh(self, data, insts, memo):
        if isinstance(data, V.Ref):
            return insts[data.slot % len(insts)] if insts else None
        if isinstance(data, V.Inst):
            raw = self._materialise(data.data, insts, memo)
            try:
                return self.cls[data.schema](raw)
            except (self.o.ValidationError,) + tuple(FOREIGN.values()):
                return raw
        t = type(data)
        if t in (dict, V.DictSub, V.MissDict):
            return t((k, self._materialise(v, insts, memo)) for k, v in data.items())
        if t is V.UMap:
            return V.UMap({k: self._materialise(v, insts, memo) for k, v in data.items()})
        if t is V.BrokenMap:
            return V.BrokenMap({k: self._materialise(v, insts, memo) for k, v in data._d.items()}, data.how, data.n)
        if t is V.mappingproxy:
            return V.mappingproxy({k: self._materialise(v, insts, memo) for k, v in data.items()})
        if t is list or t is tuple:
            return t([self._materialise(v, insts, memo) for v in data])
        return V.clone(data)


# ---------------------------------------------------------------- resolution

def mro(specs, name):
    """Names of the schemas in the method resolution order of a spec."""
    shadow = {}
    for n, s in specs.items():
        shadow[n] = type(n, tuple(shadow[b] for b in s.get('bases', ())) or (object,), {})
        if n == name:
            break
    return [c.__name__ for c in shadow[name].__mro__ if c is not object]


def owned(specs, name):
    """The fields that the body of a schema defines: its own ones, and the inherited ones
    for which it registers validators."""
    s = specs[name]
    out = {f['name']: f for f in s['fields']}
    if s.get('inherited'):
        above = collect(specs, mro(specs, name)[1:])
        for fname, vspec in s['inherited']:
            f = dict(out[fname] if fname in out else above[fname])
            f['vals'] = list(f.get('vals', ())) + [vspec]
            out[fname] = f
    return out


def collect(specs, names):
    out = {}
    for n in reversed(names):
        out.update(owned(specs, n))
    return out


def resolve(specs, name):
    """{field name: field spec} of a schema, inherited ones included."""
    return collect(specs, mro(specs, name))


def config_of(specs, name):
    cfg = {'ignore_extra': False, 'frozen': False, 'slotted': True, 'add_repr': True}
    for n in mro(specs, name):
        if specs[n].get('config') is not None:
            if specs[n].get('cfg_via') == 'parent':
                cfg = config_of(specs, specs[n]['bases'][0])
            cfg.update(specs[n]['config'])
            return cfg
    return cfg


def load_key(f):
    if 'data_key' in f:
        return f['data_key']
    return f.get('load_key', f['name'])


def dump_key(f):
    if 'data_key' in f:
        return f['data_key']
    return f.get('dump_key', f['name'])


def is_required(f):
    return f.get('required', True) and 'default' not in f


# ---------------------------------------------------------------- generators

FIELD_NAMES = ['a', 'b', 'c', 'd', 'e', 'id', 'name', 'x', 'value', 'items', 'keys', 'type', '_p', '__q', 'na\u00efve', 'self', 'data', 'k1', 'k2', 'k3']
LONG_KEYS = ['k' * 80, 'a long key ' * 30]
KEY_POOL = LONG_KEYS + ['a', 'b', 'c', 'd', 'id', 'A', 'userId', 'user id', '', 'x', 'key', 'L1', 'L2', 'class', '\u00e9', '0', 'f1', '1', 'None', '(1,)']
EXTRA_KEYS = ['extra', 'zz', '', 'A', 'old', 'x', 'unknown key', 'a', 'b', 'name', 'L1', 0, 1, None, (1,), b'a', 'a ', 'Id',
              0.0, True, 'e' * 90, 'long ' * 60]

_TV = [None, None, ('T', 'yeah'), ['yeah', 'T', 'y', 'T'], (), ('on', '1'), ('0',), ('',)]
_FV = [None, None, ('F', 'nope'), ['nope', 'F', 'n', 'F'], (), ('off', '0'), ('None',), ('',)]


def _strict(src):
    return src.below(3) < 2


def prim_kind(src):
    k = src.pick(['int', 'str', 'float', 'bool'])
    strict = _strict(src)
    if k == 'bool':
        return (k, strict, src.pick(_TV), src.pick(_FV))
    return (k, strict)


def struct_kind(src):
    c = src.below(9)
    if c in (0, 2, 4):
        return (['dict', 'list', 'set'][c // 2],)
    if c == 1:
        return ('dict', T.hash_types(src), T.types_shallow(src))
    if c == 3:
        return ('list', src.one(T.types_shallow, T.everyday))
    if c == 5:
        return ('set', T.hash_types(src))
    if c == 6:
        return ('td', T.tdspec(src, T.leaf))
    return ('expr', src.one(T.types_shallow, T.everyday))


def custom_kind(src):
    return ('custom', src.pick(['double', 'csv', 'pick', 'fdump', 'none2']))


def union_kind(src):
    return ('union', tuple(src.list(lambda s: s.one(lambda r: ('c', r.pick(T._CNAMES)), T.leaf, T.types_shallow), 2, 4)))


def flat_kind(src):
    c = src.below(9)
    if c < 3:
        return prim_kind(src)
    if c == 3:
        return ('any',)
    if c == 4:
        return ('lit', T.g_lit(src)[1])
    if c == 5:
        return union_kind(src)
    if c in (6, 7):
        return struct_kind(src)
    return custom_kind(src)


def type_of_kind(kind):
    """The type spec equivalent to a field kind (None: not expressible)."""
    k = kind[0]
    if k in ('str', 'int', 'float', 'bool'):
        return ('c', k)
    if k == 'any':
        return ('any',)
    if k == 'lit':
        return ('lit', kind[1])
    if k == 'union':
        return ('union', 'U', kind[1])
    if k == 'expr':
        return kind[1]
    if k == 'dict':
        return ('dict', 't', kind[1], kind[2]) if len(kind) > 1 else ('c', 'plaindict')
    if k == 'list':
        return ('list', 't', kind[1]) if len(kind) > 1 else ('c', 'plainlist')
    if k == 'set':
        return ('set', 't', kind[1]) if len(kind) > 1 else ('c', 'plainset')
    if k == 'td':
        return kind[1]
    return None


_LENIENT = {
    'int': ['0', '1', ' 12 ', '-7', '1_0', '\u0663', 3.7, -0.5, True, False, b'12', V.NumLike(3), V.FloatSub(7.25)],
    'float': ['3.5', 'nan', 'inf', '1e3', 2, True, ' 12 ', b'12', V.NumLike(3)],
}


def bool_words(kind):
    tv = kind[2] if kind[2] is not None else ['TRUE', 'True', 'true', 'YES', 'Yes', 'yes', '1']
    fv = kind[3] if kind[3] is not None else ['FALSE', 'False', 'false', 'NO', 'No', 'no', '0']
    return list(tv), list(fv)


def field_value(src, specs, f, mode, depth=0):
    """A raw value for a field. mode: 'ok' (accepted by the field), 'near', 'any'."""
    kind = f['kind']
    k = kind[0]
    if f.get('none') and src.chance(7):
        return None
    if mode == 'any':
        return T.anyval(src)
    if k == 'obj':
        return object_value(src, specs, kind, mode, depth)
    if k == 'custom':
        c = kind[1]
        if mode == 'near':
            if c == 'pick':
                return 'raise ' + src.pick(EFFECTS)
            return T.atoms(src)
        if c == 'double':
            return T.g_int(src)
        if c == 'csv':
            return T.g_str(src)
        if c == 'none2':
            return src.pick(['null', 'x', 1])
        if c == 'fdump' and src.chance(4):
            return 'dump ' + src.pick(EFFECTS)
        return T.atoms(src)
    if not (k in ('str', 'int', 'float', 'bool') and not kind[1]):
        s = type_of_kind(kind)
        v = T.valid(src, s)
        return v if mode == 'ok' else T.near(src, s, v)
    if mode == 'near':
        return T.atoms(src)
    if src.bool():
        return T._VALS[k](src)
    if k == 'bool':
        words = sum(bool_words(kind), [])
        return src.pick(words) if words else src.bool()
    if k == 'str':
        return T.atoms(src) if not f.get('none') else T.g_int(src)
    return src.pick(_LENIENT[k])


def object_value(src, specs, kind, mode, depth):
    target = kind[1]
    c = src.below(10)
    if mode == 'near' and c == 9:
        others = [n for n in specs if target not in mro(specs, n)]
        if others:
            return V.Inst(src.pick(others), {})
        return T.anyval(src)
    sub = data(src, specs, target, 'ok' if mode == 'ok' else src.pick(['one', 'one', 'chaos']), depth + 1)
    if c in (7, 8):
        subs = [n for n in specs if target in mro(specs, n)]
        tgt = src.pick(subs)
        if tgt != target:
            sub = data(src, specs, tgt, 'ok', depth + 1)
        return V.Inst(tgt, dict(sub))
    return sub


def data(src, specs, name, mode='ok', depth=0, partial=False):
    """Raw data for a schema. mode 'ok': accepted by the fields; 'one': one thing
    wrong; 'chaos': anything may be wrong."""
    fields = resolve(specs, name)
    out = {}
    given = []
    names = list(fields)
    bad = what = None
    if mode == 'one':
        what = src.pick(['near', 'near', 'near', 'drop', 'none', 'any', 'extra'])
        if names:
            bad = src.pick(names)
    for fname in names:
        f = fields[fname]
        present = True
        if partial:
            present = src.bool()
        elif not is_required(f):
            present = src.below(3) < 2
        vm = 'ok'
        if mode == 'chaos':
            c = src.below(10)
            if c == 9:
                present = False
            elif c == 8:
                out[load_key(f)] = None
                continue
            elif c in (6, 7):
                vm = 'near'
            elif c == 5:
                vm = 'any'
        elif fname == bad:
            if what == 'drop':
                continue
            if what == 'none':
                out[load_key(f)] = None
                continue
            if what in ('near', 'any'):
                vm, present = what, True
        if present:
            v = None
            if given and src.chance(6):
                # the same value for another field
                kind, v = src.pick(given)
                v = V.clone(v) if vm == 'any' or kind == f['kind'] and vm == 'ok' else None
            if v is None:
                v = field_value(src, specs, f, vm, depth)
            out[load_key(f)] = v
            given.append((f['kind'], v))
    if what == 'extra' or (mode == 'chaos' and src.chance(3)):
        for key in src.subset(EXTRA_KEYS, 1, 2):
            if key not in out:
                out[key] = T.atoms(src)
        if names and src.chance(3):
            lk = load_key(fields[src.pick(names)])
            if src.bool():
                out.pop(lk, None)
            out[src.pick([V.KeyText(lk), lk.encode(), (lk,), lk + ' ', lk.upper() + '_', int(lk) if lk in ('0', '1') else V.KeyText(lk)])] = \
                T.atoms(src)
    if out and src.chance(12):
        # a key that is equal to the load key without being the same object, or of the same type
        k = src.pick(list(out))
        if type(k) is str:
            out = {(V.StrSub(k) if x is k else x): v for x, v in out.items()}
    if len(out) > 1 and src.chance(4):
        out = dict(reversed(list(out.items())))
    c = src.below(20)
    return V.UMap(out) if c > 17 else V.MissDict(out) if c == 17 else out


# -- validators

MESSAGES = ['bad value', 'nope', 'm1', 'x: y', 'sum = 0', ' ']
ALL_PREDS = ['never', 'falsy', 'none', 'isstr', 'isint', 'big', 'odd', 'long', 'always']


def fn_rule(src, vid, preds=None, effects=EFFECTS):
    return ('fn', vid, src.pick(preds or ALL_PREDS), (src.pick(effects), src.pick(MESSAGES)))


def int_rule(src):
    c = src.below(4)
    a, b = src.int(-4, 9), src.int(-4, 9)
    if c == 0:
        return ('range', None, b)
    if c == 1:
        return ('range', a, b)
    if c == 2:
        return ('stdrange', a, b, src.pick([1, 1, 2, 3, -1]))
    return ('exclude', tuple(src.list(lambda s: s.int(-4, 9), 1, 3)))


def len_rule(src):
    how, a, b = src.pick(['min', 'max', 'exact', 'both']), src.int(0, 3), src.int(0, 4)
    return {'min': ('length', a, None, None), 'max': ('length', None, a, None), 'exact': ('length', None, None, a),
            'both': ('length', min(a, b), max(a, b), None)}[how]


REGEXES = ['a', '^a', '[a-c]+', '', 'b$', r'\d+', '(a|b)*', 'A', '.', 'c']


def str_rule(src):
    c = src.below(4)
    if c < 2:
        return ('regex', src.pick(REGEXES), src.pick([0, 0, int(re.I)]), src.pick(['match', 'full', 'search']))
    if c == 2:
        return ('exclude', tuple(src.list(T.g_str, 1, 3)))
    return len_rule(src)


class Counter:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return 'v%d' % self.n


def validator_specs(src, kind, counter, effects=EFFECTS, sizes=(0, 0, 0, 1, 1, 2)):
    out = []
    for _ in range(src.pick(sizes)):
        raw = src.chance(3)
        preds = ['never', 'none', 'always'] if kind[0] == 'obj' else None
        rule = None
        if not raw and src.below(3) == 2:
            if kind[0] == 'int':
                rule = int_rule(src)
            elif kind[0] == 'str':
                rule = str_rule(src)
            elif kind[0] in ('list', 'dict', 'set', 'td'):
                rule = len_rule(src)
        if rule is None:
            rule = fn_rule(src, counter.next(), preds, effects)
            how = src.pick(['ctor', 'add', 'deco', 'decostr', 'cls'])
            if not raw and src.chance(6):
                rule = ('or', (rule,) + tuple(fn_rule(src, counter.next(), preds, effects) for _ in range(src.pick([1, 0, 2, 4]))))
                how = src.pick(['ctor', 'add'])
        else:
            how = src.pick(['ctor', 'add'])
            if src.chance(4):
                rule = ('or', (rule, fn_rule(src, counter.next(), preds, effects))[:src.int(1, 2)])
        out.append((how, raw, rule))
    if len(out) > 1 and src.chance(3):
        # all fail alike
        out = [(how, raw, rule[:2] + out[0][2][2:] if rule[0] == out[0][2][0] == 'fn' else rule) for how, raw, rule in out]
    return order(out)


def order(vs):
    """Registration order: constructor, then add_validator, then decorators."""
    def rank(v):
        how, raw, rule = v
        if how in ('deco', 'decostr'):
            return 2
        if how == 'cls':
            return 0 if raw else 1
        return 0 if how == 'ctor' and not raw else 1
    return sorted(vs, key=rank)


DEFAULTS = [None, 0, '', False, [], {}, ['x'], 'dflt', 7, {'k': []}]


def field_spec(src, name, specs, counter, kinds=flat_kind, objs=(), validators=True, frozen=False, defaults=True,
               used_load=(), used_dump=(), keys=True, allow_none=True, effects=EFFECTS):
    if objs and src.below(3) == 2:
        kw = src.pick([(), (), (('ignore_extra', True),), (('ignore_extra', False),)])
        kind = ('obj', src.pick(list(objs)), kw)
    else:
        kind = kinds(src)
    f = {'name': name, 'kind': kind}
    if allow_none and src.chance(3):
        f['none'] = src.pick([True, True, True, 1])
    c = src.below(6)
    if c == 3:
        f['required'] = False
    elif c > 3 and defaults:
        f['default'] = (src.pick(['v', 'v', 'call']), V.clone(src.pick(DEFAULTS)) if src.bool() else T.atoms(src))
        if kind[0] == 'obj':
            f['default'] = (f['default'][0], None)
        if src.chance(4):
            f['required'] = True
    if frozen and src.chance(4):
        f['frozen'] = src.pick([True, True, True, 1])
    if keys and src.below(3) == 2:
        pool_l = [k for k in KEY_POOL if k not in used_load] or ['lk ' + name]
        pool_d = [k for k in KEY_POOL if k not in used_dump] or ['dk ' + name]
        both = [k for k in pool_l if k in pool_d] or ['bk ' + name]
        how = src.pick(['data', 'load', 'dump', 'both'])
        if how == 'data':
            f['data_key'] = src.pick(both)
        if how in ('load', 'both'):
            f['load_key'] = src.pick(pool_l)
        if how in ('dump', 'both'):
            f['dump_key'] = src.pick(pool_d)
    if load_key(f) in used_load or dump_key(f) in used_dump:
        for k in ('load_key', 'dump_key', 'data_key'):
            f.pop(k, None)
        if name in used_load or name in used_dump:
            f['data_key'] = 'key of ' + name
    if validators:
        vs = validator_specs(src, kind, counter, effects)
        if vs:
            f['vals'] = vs
    return f


def schema_spec(src, name, specs, counter, nfields=None, bases=(), objs=(), config=True, avoid=(), **opts):
    inherited = {}
    if bases:
        probe = dict(specs)
        probe[name] = {'name': name, 'bases': list(bases), 'fields': []}
        inherited = resolve(probe, name)
    if nfields is None:
        nfields = src.pick([2, 1, 1, 2, 3, 3, 0, 4, 5])
    pool = [n for n in FIELD_NAMES + ['f%d' % i for i in range(max(0, nfields - 10))] if n not in avoid]
    names = src.subset(pool, nfields, nfields)
    keep = {n: f for n, f in inherited.items() if n not in names}
    ul = {load_key(f) for f in keep.values()}
    ud = {dump_key(f) for f in keep.values()}
    fields = []
    rest = list(names)
    for n in names:
        rest.remove(n)
        # half of the time a custom key may be the name of a field still to come
        block = set(rest) if src.bool() else set()
        f = field_spec(src, n, specs, counter, objs=objs, used_load=ul | block, used_dump=ud | block, **opts)
        ul.add(load_key(f))
        ud.add(dump_key(f))
        fields.append(f)
    if opts.get('keys', True) and not bases and len(fields) > 1 and src.chance(8):
        # the load keys cross the names
        keys = [f['name'] for f in fields]
        for f, key in zip(fields, keys[1:] + keys[:1]):
            dk = dump_key(f)
            f.pop('data_key', None)
            f['load_key'] = key
            if dk != f['name']:
                f['dump_key'] = dk
    spec = {'name': name, 'bases': list(bases), 'fields': fields, 'config': None}
    if config and src.chance(3):
        cfg = {}
        if src.bool():
            cfg['ignore_extra'] = src.pick([True, False, True, False, 1, 0])
        if src.chance(5):
            cfg['slotted'] = src.bool()
        spec['config'] = cfg
    if src.chance(8):
        spec['dunder'] = src.pick(list(DUNDERS))
    return spec


def consistent(specs, name):
    """Load and dump keys of a schema are unique (the documented use)."""
    fs = resolve(specs, name).values()
    lk = [load_key(f) for f in fs]
    dk = [dump_key(f) for f in fs]
    return len(set(lk)) == len(lk) and len(set(dk)) == len(dk)


def world(src, max_schemas=4, inherit=True, main_fields=None, n=None, many=True, **opts):
    """[spec, ...]; the last one is the schema under test."""
    if n is None:
        n = src.pick([1, 2, 1, 2, 3, max_schemas])
    if many and src.chance(45):
        main_fields = src.pick([10, 20, 40])
    counter = Counter()
    out = []
    specs = {}
    for i in range(n):
        name = 'S%d' % i
        bases = []
        if inherit and i and src.chance(4):
            bases = [src.pick(out)['name']]
        objs = [s['name'] for s in out]
        spec = schema_spec(src, name, specs, counter, bases=bases, objs=objs,
                           nfields=main_fields if i == n - 1 else None, **opts)
        trial = dict(specs)
        trial[name] = spec
        if not consistent(trial, name):
            spec = dict(spec, bases=[])
            trial[name] = spec
        specs = trial
        out.append(spec)
    return out


def by_name(specs):
    return {s['name']: s for s in specs}


def chain(src, n, **opts):
    """A world of n schemas, each nested in the next one."""
    specs = world(src, n=n, inherit=False, max_schemas=n, **opts)
    for prev, spec in zip(specs, specs[1:]):
        used = {load_key(f) for f in spec['fields']} | {dump_key(f) for f in spec['fields']}
        f = {'name': 'sub', 'kind': ('obj', prev['name'], ())}
        if src.chance(3):
            f['none'] = True
        if src.chance(3) and 'LK' not in used:
            f[src.pick(['load_key', 'data_key'])] = 'LK'
        spec['fields'].append(f)
    return specs
