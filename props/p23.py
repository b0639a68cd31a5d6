"""P23: configuration is inherited, overridable and isolated."""
import typing as t
import warnings

from lib import model as M
from lib import ops
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 2-5 schemas, in inheritance chains with any options defined, redefined or derived from the base at any level, '
        'nested in each other, and a history of up to 12 steps: initializations and updates with unknown keys under every value of '
        'the ignore_extra parameter, assignments, extra attributes, representations, and changes (valid and refused) of the global '
        'configuration by attribute or replacement. Outcomes are compared with the resolved options. Non-trivial: the schema '
        'operated on has at least two classes with a configuration in its world, or the global configuration was changed.')
EXAMPLES = {'quick': 5000, 'thorough': 200000}


def config(src):
    cfg = {}
    for opt in ('ignore_extra', 'frozen', 'slotted', 'add_repr'):
        if src.chance(3):
            cfg[opt] = src.pick([True, False, True, False, 1, 0])
    return cfg


def gen(src):
    counter = W.Counter()
    specs, by = [], {}
    for i in range(src.pick([2, 1, 2, 3, 4, 5])):
        name = 'S%d' % i
        bases = [src.pick(specs)['name']] if specs and src.below(3) < 2 else []
        spec = W.schema_spec(src, name, by, counter, nfields=src.pick([1, 2, 1, 3, 0]), bases=bases, config=False,
                             objs=[s['name'] for s in specs], validators=src.chance(4), kinds=W.prim_kind)
        if not W.consistent({**by, name: spec}, name):
            spec['bases'] = []
        if src.bool():
            spec['config'] = config(src)
            if spec['bases'] and src.chance(3):
                spec['cfg_via'] = 'parent'
            if src.chance(4):
                spec['cfg_name'] = src.pick(['Settings', 'Meta', 'options', '_C'])
        if src.chance(5):
            spec['slots'] = src.pick([('extra',), ('extra', 'more'), ()])
        if src.chance(6):
            spec['repr'] = 'repr of ' + name
        if src.chance(5):
            spec['mixins'] = [(src.pick(['first', 'last']), 'plain')]
        if src.chance(3):
            spec['helpers'] = src.subset(list(W.HELPERS), 1, 3)
        by[name] = spec
        specs.append(spec)
    # the caller passes parameters to nested schemas, too
    steps = []
    for _ in range(src.int(1, 12)):
        name = src.pick([specs[-1]['name'], src.pick(specs)['name']])
        fields = W.resolve(by, name)
        c = src.below(12)
        if c < 3:
            d = dict(W.data(src, by, name, src.pick(['ok', 'ok', 'one', 'chaos'])))
            if src.bool():
                for k in src.subset(W.EXTRA_KEYS, 1, 2):
                    d.setdefault(k, 1)
            nest(src, by, fields, d)
            steps.append(('init', name, d, src.pick([None, None, True, False])))
        elif c < 5 or c < 7 and not fields:
            d = dict(W.data(src, by, name, src.pick(['ok', 'ok', 'one']), partial=True))
            if src.bool():
                d.setdefault(src.pick(W.EXTRA_KEYS), 1)
            nest(src, by, fields, d)
            steps.append(('update', name, d, src.pick([None, None, True, False])))
        elif c == 5:
            f = src.pick(list(fields))
            steps.append(('assign', name, f, W.field_value(src, by, fields[f], src.pick(['ok', 'near']))))
        elif c == 6:
            steps.append(('inner', name))
        elif c == 7:
            steps.append(('attr', name, src.pick(['zzz', 'extra', 'more', 'helper'])))
        elif c == 8:
            steps.append(('repr', name))
        elif c == 9:
            steps.append(('global', src.pick(['attr', 'replace']), src.pick(['base', 'A', 'B', 'sub'])))
        elif c == 10:
            steps.append(('refuse', src.pick(['attr', 'ctor']), src.pick(['cls', 'warn']), src.below(8)))
        else:
            steps.append(('warn', src.pick(['attr', 'replace', 'keep']), src.bool(), src.below(3)))
    bases = {s['name']: [W.data(src, by, s['name'], 'ok') for _ in range(2)] for s in specs}
    # code of the user sets the class in the middle of an operation: {step: [(call, class), ...]}
    switches = {}
    if src.chance(3):
        for i, step in enumerate(steps):
            if step[0] in ('init', 'update', 'assign') and src.bool():
                switches[i] = [(src.below(8), src.pick(['base', 'A', 'B', 'sub'])) for _ in range(src.int(1, 3))]
    return specs, bases, steps, switches


def nest(src, by, fields, d):
    """Unknown keys inside the data of nested schemas."""
    for f in fields.values():
        k = W.load_key(f)
        if f['kind'][0] == 'obj' and isinstance(d.get(k), dict) and src.bool():
            d[k] = dict(d[k])
            d[k].setdefault(src.pick(W.EXTRA_KEYS), 1)
            nest(src, by, W.resolve(by, f['kind'][1]), d[k])


def cases(tier):
    return strategy(gen)


BAD_CLS = [ValueError, Exception, object, int, 5, None, 'ValidationError', BaseException]
BAD_WARN = [1, 0, None, 'yes', '', [], 1.0, 'True']


def open_to(specs, name, attr):
    """Whether instances accept an attribute that is no field."""
    for n in W.mro(specs, name):
        s = specs[n]
        if s.get('slots') is not None:
            if attr in s['slots']:
                return True
        elif not W.config_of(specs, n)['slotted']:
            return True
    return False


def expected_repr(m, name, obj):
    """'custom', 'added', 'default' or None (not specified)."""
    order = W.mro(m.specs, name)
    for n in order:
        if m.specs[n].get('repr'):
            return m.specs[n]['repr'], None
    for n in order:
        if W.config_of(m.specs, n)['add_repr']:
            if n != name and not W.config_of(m.specs, name)['add_repr']:
                return None, None
            parts = ['%s=%r' % (f, obj.get_value_for(f)) for f in m.fields(name) if obj.get_value_for(f, M._NOTHING) is not M._NOTHING]
            return None, parts
    return None, False


def initializer(init, call, depth):
    def __init__(self, data, /, **kw):
        depth[0] += 1
        try:
            init(self, data, **kw)
        finally:
            depth[0] -= 1
            if depth[0]:
                call()
    return __init__


def run(o, case, rec):
    specs, bases, steps, switches = case
    planned = [0, []]

    def call():
        for at, which in planned[1]:
            if at == planned[0]:
                o.config.validation_error_cls = classes[which]
                rec.label('global: error class set within an operation')
                rec.nt()
        planned[0] += 1

    def wrap(cls):
        class Wrapped(cls):
            def value_load(self, value, ctx):
                call()
                try:
                    return super().value_load(value, ctx)
                finally:
                    call()
        Wrapped.__name__ = cls.__name__
        return Wrapped

    w = W.World(o, specs, {'field_cls': wrap} if switches else None)
    if switches:
        # also when the initialization of a nested schema has ended
        depth = [0]
        for c in w.cls.values():
            if '__init__' not in vars(c):
                c.__init__ = initializer(o.Schema.__init__, call, depth)
    m = M.Model(w)
    insts = {}

    class A(o.ValidationError):
        pass

    class B(o.ValidationError):
        def raw(self):
            return 'B'

    class Sub(A):
        pass
    classes = {'base': o.ValidationError, 'A': A, 'B': B, 'sub': Sub}
    cls_ve, warn = o.ValidationError, True
    spare = o.GlobalConfig()
    configs = sum(s['config'] is not None for s in specs)
    fresh = []     # [type, has been warned about]

    def get(name):
        if name not in insts:
            insts[name] = ops.first_ok(w, m, name, bases[name])[0]
        return insts[name]

    for n, step in enumerate(steps):
        how = step[0]
        what = 'step %d %r' % (n, step[:2])
        rec.checks += 1
        planned[1] = []
        M.check(o.config.validation_error_cls is cls_ve and o.config.warn_unsupported_types is warn, '%s: global options are %r, %r', what,
                o.config.validation_error_cls, o.config.warn_unsupported_types)
        M.check(spare.validation_error_cls is o.ValidationError and spare.warn_unsupported_types is True,
                '%s: another GlobalConfig changed', what)
        if how == 'global':
            cls_ve = classes[step[2]]
            if step[1] == 'attr':
                o.config.validation_error_cls = cls_ve
            else:
                o.config = o.GlobalConfig(validation_error_cls=cls_ve)
                warn = True
            probe(o, cls_ve, what)
            rec.label('global: error class')
            rec.nt()
            continue
        if how == 'refuse':
            bad = (BAD_CLS if step[2] == 'cls' else BAD_WARN)[step[3]]
            opt = 'validation_error_cls' if step[2] == 'cls' else 'warn_unsupported_types'
            try:
                if step[1] == 'attr':
                    setattr(o.config, opt, bad)
                else:
                    o.GlobalConfig(**{opt: bad})
            except TypeError:
                pass
            else:
                raise M.Mismatch('%s: %r was accepted for %s' % (what, bad, opt))
            rec.label('refused value')
            continue
        if how == 'warn':
            if step[1] == 'attr':
                o.config.warn_unsupported_types = step[2]
                warn = step[2]
            elif step[1] == 'replace':
                o.config = o.GlobalConfig(warn_unsupported_types=step[2])
                warn, cls_ve = step[2], o.ValidationError
            if step[3] >= len(fresh):
                fresh.append([t.TypeVar('FreshP23_%d' % len(fresh)), False])
            tv = fresh[min(step[3], len(fresh) - 1)]
            cls = type(o.Schema)('T', (o.Schema,), {'k': o.fields.TypeExpr(tv[0])})
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter('always')
                cls({'k': 1})
            # one warning is enough for a type, but it must not be lost while warnings are off
            M.check(len(seen) <= 1 and (not seen if not warn else seen or tv[1]), '%s: %d warnings, configured %r, %s', what, len(seen),
                    warn, 'after an earlier one' if tv[1] else 'the first one')
            tv[1] = tv[1] or bool(seen)
            rec.label('global: warnings ' + ('on' if warn else 'off'))
            continue
        name = step[1]
        cls = w.cls[name]
        if n in switches:
            get(name)
            planned[:] = [0, switches[n]]
        cfg = W.config_of(w.specs, name)
        rec.nt(configs > 1)
        if how == 'init':
            data = w.materialise(step[2])
            values, errs = m.load(name, data, step[3])
            try:
                obj = cls(data, **({} if step[3] is None else {'ignore_extra': step[3]}))
            except o.ValidationError as err:
                planned[1], cls_ve = [], o.config.validation_error_cls
                M.check(errs, '%s: unexpected %r', what, err.errors)
                M.check(type(err) is cls_ve, '%s: raised %s, configured %s', what, type(err).__name__, cls_ve.__name__)
                M.check({e.key for e in err.errors} == set(errs.by_key), '%s: errors of %r, expected %r', what, err.errors, errs)
                rec.label('init failed')
                continue
            planned[1], cls_ve = [], o.config.validation_error_cls
            M.check(not errs, '%s: accepted, expected %r', what, errs)
            M.compare_values(m, name, obj, values)
            if any(k not in {W.load_key(f) for f in m.fields(name).values()} for k in data):
                rec.label('unknown keys ignored by ' + ('parameter' if step[3] is not None else 'option'))
            insts[name] = obj
            check_config(obj, cfg, what)
            continue
        obj = get(name)
        if obj is None:
            continue
        if how in ('update', 'assign'):
            before = m.snapshot(obj)
            op = ('update', w.materialise(step[2]), step[3]) if how == 'update' else ('assign', step[2], w.materialise(step[3]))
            kind, values, errs, exc = ops.apply(w, m, name, obj, op)
            planned[1], cls_ve = [], o.config.validation_error_cls
            if kind == 'error':
                M.check(type(exc) is cls_ve, '%s: raised %s, configured %s', what, type(exc).__name__, cls_ve.__name__)
                M.check({e.key for e in exc.errors} == set(errs.by_key), '%s: errors of %r, expected %r', what, exc.errors, errs)
            if kind == 'frozen':
                M.check(exc.entity is (obj if cfg['frozen'] else getattr(cls, errs)), '%s: entity %r', what, exc.entity)
                M.check((name if cfg['frozen'] else errs) in str(exc), '%s: message %s', what, exc)
            M.compare_values(m, name, obj, values)
            rec.label('%s %s' % (how, kind))
        elif how == 'inner':
            # nested instances obey their own configuration
            for fname, v in m.snapshot(obj).items():
                if isinstance(v, M.MInst):
                    inner = v.obj
                    icfg = W.config_of(w.specs, type(inner).__name__)
                    check_config(inner, icfg, what)
                    for param in (None, True, False):
                        exp = 'frozen' if icfg['frozen'] else 'ok' if (icfg['ignore_extra'] if param is None else param) else 'error'
                        got = 'ok'
                        try:
                            inner.update({'no such key': 1}, **({} if param is None else {'ignore_extra': param}))
                        except o.FrozenError as err:
                            got = 'frozen'
                            M.check(err.entity is inner, '%s: entity is not the nested instance', what)
                        except o.ValidationError as err:
                            got = 'error'
                            M.check(type(err) is cls_ve, '%s: raised %s', what, type(err).__name__)
                        M.check(got == exp, '%s: update of nested %s: %s, expected %s', what, fname, got, exp)
                    rec.label('nested instance')
        elif how == 'attr':
            want = open_to(w.specs, name, step[2])
            try:
                setattr(obj, step[2], 5)
                got = True
            except AttributeError:
                got = False
            if step[2] == 'helper' and any('mixins' in w.specs[x] for x in W.mro(w.specs, name)):
                continue
            M.check(got == want, '%s: setting attribute %r %s', what, step[2], 'succeeded' if got else 'failed')
            if got:
                M.check(getattr(obj, step[2]) == 5, '%s: attribute lost', what)
            rec.label('attribute %s' % got)
            M.check(hasattr(obj, '__dict__') == open_to(w.specs, name, ''), '%s: __dict__', what)
        elif how == 'repr':
            custom, parts = expected_repr(m, name, obj)
            text = repr(obj)
            if custom is not None:
                M.check(text == custom, '%s: repr %r, expected %r', what, text, custom)
                rec.label('repr: custom')
            elif parts is None:
                pass
            elif parts is False:
                M.check(text == object.__repr__(obj), '%s: repr %r though add_repr is False', what, text)
                rec.label('repr: default')
            else:
                M.check(text.startswith(name + '(') and text.endswith(')'), '%s: repr %r', what, text)
                M.check(all(p in text for p in parts) and len(text) == len(name) + 2 + sum(map(len, parts)) + 2 * max(0, len(parts) - 1),
                        '%s: repr %r, expected %r', what, text, parts)
                rec.label('repr: added')


def probe(o, cls_ve, what):
    """Every failing operation, of a schema and of one that holds it, raises the configured class."""
    class Picky(o.fields.Field):
        def value_load(self, value, ctx):
            if value == 'bad':
                raise ValueError('not loaded')
            return value

        def value_dump(self, value, ctx):
            if value == 'undumpable':
                raise ValueError('not dumped')
            return value

    inner = type(o.Schema)('Inner', (o.Schema,), {'a': Picky(), 'b': Picky(required=False)})
    outer = type(o.Schema)('Outer', (o.Schema,), {'a': Picky(required=False), 'i': o.fields.Object(inner)})
    for cls, wrong, fname in ((inner, {'a': 'bad'}, 'a'), (inner, {}, 'a'), (outer, {'i': {'a': 'bad'}}, 'i'), (outer, {'i': 3}, 'i')):
        fine = cls({'a': 1} if cls is inner else {'i': {'a': 1}})
        odd = cls({'a': 'undumpable'} if cls is inner else {'i': {'a': 'undumpable'}})
        for how, fn in (('initialization', lambda: cls(wrong)), ('update', lambda: fine.update(wrong or {'zz': 1})),
                        ('assignment', lambda: setattr(fine, fname, wrong.get(fname, 'bad'))), ('dump', lambda: odd.dump())):
            try:
                fn()
            except o.ValidationError as err:
                M.check(type(err) is cls_ve, '%s: %s of %s raised %s, configured %s', what, how, cls.__name__, type(err).__name__,
                        cls_ve.__name__)
            else:
                raise M.Mismatch('%s: %s of %s did not fail' % (what, how, cls.__name__))


def check_config(obj, cfg, what):
    c = obj.context.config
    for k, v in cfg.items():
        M.check(getattr(c, k) is v, '%s: context.config.%s is %r, expected %r', what, k, getattr(c, k), v)
