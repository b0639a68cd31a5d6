"""P26: misuse is refused with the documented exception and changes nothing."""
from lib import model as M
from lib import ops
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas, instances of the last one, and 1-8 acts of misuse (validators and fields with arguments '
        'they refuse, definitions with unknown or bound fields, unknown names, contradictory arguments, configuration values, '
        'unimplemented or wrong hooks), each with generated arguments. Each must raise its exception and leave all schemas, fields, '
        'validators, configurations and instances as they were; data loaded and updates applied afterwards are as the model '
        'prescribes. Non-trivial: an act concerned an existing schema or instance with at least one field.')
EXAMPLES = {'quick': 4000, 'thorough': 160000}
JUNK = [None, 3, 'x', (), [], {}, 1.5, b'v']
BAD_CLASS = [int, Exception, ValueError, object, dict]
LOOSE = ('range', 'length', 'regex', 'union', 'dict', 'object', 'ctor', 'unbound', 'config', 'newconfig', 'noimpl')
BOUND = ('validator', 'unknown', 'unknown', 'reuse', 'reuse', 'byname', 'byname', 'incexc', 'format', 'raises', 'noload', 'nodump',
         'novalidate', 'copybound')


def gen(src):
    specs = W.world(src, frozen=src.chance(6), main_fields=src.pick([1, 2, 3, 4, 5]))
    by = W.by_name(specs)
    name = specs[-1]['name']
    loads = [W.data(src, by, name, 'ok') for _ in range(3)]
    acts = []
    for _ in range(src.int(1, 8)):
        target = src.pick(specs)['name'] if src.chance(3) else name
        fields = list(W.resolve(by, target))
        k = src.pick(BOUND) if fields and src.below(3) else src.pick(LOOSE)
        if k == 'length':
            arg = src.pick([{}, {'exact': 1, 'min': 0}, {'exact': src.int(0, 3), 'max': src.int(0, 5)},
                            {'exact': 2, 'min': 1, 'max': 3}])
        elif k == 'regex':
            arg = src.pick(W.REGEXES)
        elif k == 'union':
            arg = [T.types_shallow(src) for _ in range(src.below(2))]
        elif k == 'dict':
            arg = T.hash_types(src)
        elif k == 'object':
            arg = src.pick(['int', 'Field', 'SchemaConfig', 'instance', 'None', 'ValidationError'])
        elif k == 'ctor':
            arg = ([src.pick(['fn', 'none'])] * src.below(3), src.pick(JUNK))
        elif k == 'unbound':
            arg = (src.pick(['name', 'schema']), W.flat_kind(src))
        elif k in ('config', 'newconfig'):
            arg = src.pick([('validation_error_cls', c) for c in range(len(BAD_CLASS))]
                           + [('warn_unsupported_types', j) for j in (None, 0, 1, 'yes', [])])
        elif k == 'validator':
            arg = (src.pick(fields), src.pick(['add', 'remove']), src.pick(JUNK), src.pick([None, True, False]))
        elif k == 'unknown':
            arg = (src.pick(['nosuch', '', 'Config', 'dump', '__fields__', 'nosuch ']), src.pick(fields), src.pick(['first', 'last', 'no']),
                   src.bool())
        elif k in ('reuse', 'copybound'):
            arg = (src.pick(fields), src.pick(['same', 'other']), src.bool())
        elif k == 'byname':
            arg = (src.pick(['nosuch', '', ' ', 'dump', '__fields__', '_field_values', 'context']), src.pick([None, 'd']), src.bool())
        elif k == 'incexc':
            arg = (src.subset(fields + ['zz'], 0, 2), src.subset(fields + ['zz'], 0, 2))
        elif k in ('format', 'raises', 'noload', 'nodump', 'novalidate'):
            arg = (src.pick(['init', 'update', 'assign']), src.pick([3, (), b'x', 1.5, ['m'], {'a': 'b'}]), src.bool())
        else:
            arg = None
        acts.append((k, target, arg))
    after = [(W.data(src, by, name, src.pick(['ok', 'one', 'chaos'])), src.pick([None, True])) for _ in range(2)]
    upd = W.data(src, by, name, src.pick(['ok', 'one']), partial=True)
    return specs, loads, acts, after, upd


def cases(tier):
    return strategy(gen)


def refused(exc, fn, what):
    try:
        res = fn()
    except exc:
        return
    except Exception as err:
        raise M.Mismatch('%s raised %s: %s, not %s' % (what, type(err).__name__, err, exc))
    raise M.Mismatch('%s was accepted: %r' % (what, res))


class Exec:
    def __init__(self, o, specs, loads):
        self.o = o
        self.w = W.World(o, specs)
        self.m = M.Model(self.w)
        self.name = specs[-1]['name']
        self.obj, self.values = ops.first_ok(self.w, self.m, self.name, loads)
        self.data = loads

    def state(self):
        """Everything that exists, as a user can see it."""
        out = [('config', self.o.config.validation_error_cls, self.o.config.warn_unsupported_types)]
        for name, cls in self.w.cls.items():
            fields = []
            for fname in self.m.fields(name):
                f = getattr(cls, fname)
                fields.append((fname, id(f), f.name, f.schema, f.load_key, f.dump_key, f.none, f.required, f.frozen,
                               [id(v) for v in f.walk_validators(raw=True)], [id(v) for v in f.walk_validators(raw=False)]))
            out.append((name, fields, cls.__config__))
        if self.obj is not None:
            out.append([(f, id(self.obj.get_value_for(f, M._NOTHING))) for f in self.m.fields(self.name)])
        return out

    def act(self, k, target, arg, rec):
        o, w = self.o, self.w
        v, F = o.validate, o.fields
        cls = w.cls[target]
        what = '%s %r on %s' % (k, arg, target)
        meta = type(o.Schema)
        if k == 'range':
            refused(TypeError, lambda: v.Range(), what)
        elif k == 'length':
            refused(TypeError, lambda: v.Length(**arg), what)
        elif k == 'regex':
            refused(TypeError, lambda: v.Regex(arg, full_match=True, search=True), what)
        elif k == 'union':
            refused(TypeError, lambda: F.Union(*[T.build(t) for t in arg]), what)
        elif k == 'dict':
            refused(TypeError, lambda: F.Dict(T.build(arg)), what)
        elif k == 'object':
            bad = {'int': int, 'Field': F.Field, 'SchemaConfig': o.SchemaConfig, 'instance': self.obj, 'None': None,
                   'ValidationError': o.ValidationError}[arg]
            refused(TypeError, lambda: F.Object(bad), what)
        elif k == 'ctor':
            fns = [(lambda s, x, c: None)] * len(arg[0])
            refused(TypeError, lambda: F.String(validators=fns + [arg[1]]), what)
        elif k == 'unbound':
            field = w.make_field(arg[1], {})
            for f in (field, field.copy()):
                refused(RuntimeError, lambda: getattr(f, arg[0]), what)
        elif k == 'config':
            value = BAD_CLASS[arg[1]] if arg[0] == 'validation_error_cls' else arg[1]
            refused(TypeError, lambda: setattr(o.config, arg[0], value), what)
        elif k == 'newconfig':
            value = BAD_CLASS[arg[1]] if arg[0] == 'validation_error_cls' else arg[1]
            refused(TypeError, lambda: o.GlobalConfig(**{arg[0]: value}), what)
        elif k == 'noimpl':
            for x in (F.Field().value_load, F.Field().value_dump, v.Validator().validate):
                refused(NotImplementedError, lambda: x(1, None), what)
        elif k == 'validator':
            field = getattr(cls, arg[0])
            kw = {} if arg[3] is None else {'raw': arg[3]}
            fn = field.add_validator if arg[1] == 'add' else field.remove_validator
            refused(TypeError, lambda: fn(arg[2], **kw), what)
        elif k == 'unknown':
            self.unknown(cls, arg, what)
        elif k == 'reuse':
            field = getattr(cls, arg[0])
            fname = arg[0] if arg[1] == 'same' else 'another'
            base = cls if arg[2] else o.Schema
            refused(RuntimeError, lambda: meta('Reuses', (base,), {fname: field}), what)
        elif k == 'copybound':
            # the copy is a field of its own; bound, it is refused as well
            copy = getattr(cls, arg[0]).copy()
            fname = arg[0] if arg[1] == 'same' else 'another'
            one = meta('One', (o.Schema,), {fname: copy})
            M.check(copy.name == fname and copy.schema is one, '%s: the copy is %s of %r', what, copy.name, copy.schema)
            refused(RuntimeError, lambda: meta('Two', (o.Schema,), {fname: copy}), what)
            M.check(copy.name == fname and copy.schema is one, '%s: the copy is %s of %r', what, copy.name, copy.schema)
        elif self.obj is None:
            return
        elif k == 'byname':
            names = set(self.m.fields(self.name)) | {W.load_key(f) for f in self.m.fields(self.name).values()}
            if arg[0] not in names:
                args = (arg[0],) if not arg[2] else (arg[0], arg[1])
                refused(RuntimeError, lambda: self.obj.get_value_for(*args), what)
        elif k == 'incexc':
            refused(TypeError, lambda: self.obj.dump(include=arg[0], exclude=arg[1]), what)
        else:
            self.hook(k, arg, what)
        rec.label(k)
        if k in BOUND and self.m.fields(target):
            rec.nt()

    def unknown(self, cls, arg, what):
        """A class whose body registers validators for fields of cls, and for one that there is not."""
        o = self.o
        bad, good, order, raw = arg
        if bad in dir(cls) and isinstance(getattr(cls, bad), o.fields.Field):
            return

        def of(fname):
            def check(self, value, ctx):
                raise ValueError('of the refused class')
            return o.validate.field(fname, raw=raw)(check)
        attrs = [('_v1', of(bad))]
        if order != 'no':
            attrs.insert(0 if order == 'last' else 1, ('_v0', of(good)))
        refused(TypeError, lambda: type(o.Schema)('Refused', (cls,), dict(attrs)), what)

    def hook(self, k, arg, what):
        """A field that does not do its part, in a schema that inherits from the one under test."""
        o = self.o
        how, value, twice = arg
        cls = self.w.cls[self.name]
        F = o.fields
        given, exc = 1, NotImplementedError
        if k == 'format':
            class Bad(F.Integer):
                def format_error(self, code, ctx):
                    return value
            given, exc, bad = 'no integer', TypeError, Bad(required=False)
        elif k == 'raises':
            class Bad(F.Integer):
                def format_error(self, code, ctx):
                    raise LookupError('format_error failed')
            given, exc, bad = 'no integer', LookupError, Bad(required=False)
        elif k == 'noload':
            bad = type('NoLoad', (F.Field,), {'value_dump': lambda self, v, ctx: v})(required=False)
        elif k == 'nodump':
            bad = type('NoDump', (F.Field,), {'value_load': lambda self, v, ctx: v})(required=False)
        else:
            bad = F.Any(required=False, validators=[type('NoValidate', (o.validate.Validator,), {})()])
        used = set(self.m.fields(self.name)) | {W.load_key(f) for f in self.m.fields(self.name).values()}
        fname = next(n for n in ('bad', 'worse', 'worst', 'bad0') if n not in used)
        child = type(o.Schema)('Child', (cls,), {fname: bad})
        with self.w.quietly():
            obj = None
            for d in self.data:
                d = self.w.materialise(d)
                if not self.m.load(self.name, d)[1]:
                    obj = child(d)
                    break
            if obj is None:
                return
            before = {f: id(obj.get_value_for(f, M._NOTHING)) for f in self.m.fields(self.name)}
            frozen = W.config_of(self.w.specs, self.name)['frozen']
            if k == 'nodump':
                obj = child({**d, fname: given})
                refused(exc, obj.dump, what)
                refused(exc, lambda: obj.dump(include=[fname]), what)
                rest = obj.get_value_for(fname)
                M.check(rest == given, '%s: holds %r', what, rest)
                return
            for _ in range(2 if twice else 1):
                if how == 'init':
                    refused(exc, lambda: child({**d, fname: given}), what)
                elif frozen:
                    refused(o.FrozenError, lambda: obj.update({fname: given}), what)
                elif how == 'update':
                    refused(exc, lambda: obj.update({fname: given}), what)
                else:
                    refused(exc, lambda: setattr(obj, fname, given), what)
            M.check(obj.get_value_for(fname, M._NOTHING) is M._NOTHING, '%s: the value was set', what)
            for f, i in before.items():
                M.check(id(obj.get_value_for(f, M._NOTHING)) == i, '%s: %s changed', what, f)


def run(o, case, rec):
    specs, loads, acts, after, upd = case
    ex = Exec(o, specs, loads)
    for n, (k, target, arg) in enumerate(acts):
        before = ex.state()
        ex.act(k, target, arg, rec)
        now = ex.state()
        M.check(now == before, 'act %d %s %r on %s changed %r to %r', n, k, arg, target,
                [b for a, b in zip(now, before) if a != b], [a for a, b in zip(now, before) if a != b])
        rec.checks += 1
    w, m = ex.w, ex.m
    for d, ignore in after:
        d = w.materialise(d)
        try:
            obj, values, errs, exc = ops.load(w, m, ex.name, d, ignore)
        except tuple(W.FOREIGN.values()):
            rec.label('outside the domain')
            continue
        if errs:
            ops.check_error(m, ex.name, exc, errs)
        else:
            M.compare_values(m, ex.name, obj, values)
        rec.checks += 1
    if ex.obj is not None:
        kind, values, errs, exc = ops.apply(w, m, ex.name, ex.obj, ('update', w.materialise(upd), None))
        M.compare_values(m, ex.name, ex.obj, values)
