"""P25: fields, validators and schemas that extend others compose with them."""
import collections.abc

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy
from props.p17 import attempt, norm

RULE = ('A case is 1-4 generated schemas, nested and inheriting, some of whose fields are extended by subclasses that transform the '
        'raw value before or the final value after the inherited value_load (and back for value_dump), some of whose prebuilt '
        'validators are subclasses that look at a transformed value, and some of which override __init__, update and dump, data and '
        'up to 8 operations: results must be those of the plain schemas on the plain data, transformed. Then up to 3 fields with '
        'subclasses that catch the errors of the inherited methods. Non-trivial: an extended field was given a value, or an '
        'error was caught.')
EXAMPLES = {'quick': 4000, 'thorough': 160000}
VER, TAG = '\x00ver', '\x00tag'


class Box:
    """What the extended parts wrap values in."""

    def __init__(self, inner):
        self.inner = inner

    def __repr__(self):
        return 'Box(%r)' % (self.inner,)


def unbox(v):
    return v.inner if type(v) is Box else v


def gen_ext(src):
    if src.chance(3):
        return None
    return src.bool(), src.bool(), src.bool(), src.chance(5)


def gen(src):
    specs = W.world(src, frozen=src.chance(5), main_fields=src.pick([1, 2, 3, 4, 6]))
    if src.chance(4):
        specs = W.chain(src, src.int(2, 4), main_fields=src.pick([1, 2, 3]))
    for s in specs:
        if src.chance(8):
            s['config'] = dict(s['config'] or {}, frozen=True)
        for f in s['fields']:
            f['ext'] = gen_ext(src)
            if src.chance(12):
                f['kind'] = ('custom', src.pick(['fdump', 'pick']))
                f.pop('vals', None)
        s['over'] = src.subset(['init', 'dump', 'update'], 0, 2) if src.chance(3) else []
    by = W.by_name(specs)
    name = specs[-1]['name']
    steps = [('init', W.data(src, by, name, src.pick(['ok', 'ok', 'ok', 'one', 'chaos'])), src.pick([None, None, True, False]))]
    fields = W.resolve(by, name)
    for _ in range(src.below(8)):
        c = src.below(6)
        if c == 0:
            steps.append(('init', W.data(src, by, name, src.pick(['ok', 'one', 'chaos'])), src.pick([None, None, True, False])))
        elif c < 3:
            steps.append(('update', W.data(src, by, name, src.pick(['ok', 'one', 'chaos']), partial=True),
                          src.pick([None, None, True, False])))
        elif c == 3 and fields:
            f = src.pick(list(fields))
            steps.append(('assign', f, None if src.chance(8) else
                          W.field_value(src, by, fields[f], src.pick(['ok', 'ok', 'near', 'any']))))
        elif c > 3:
            steps.append(('dump', src.pick(['include', 'exclude', None]), src.subset(list(fields), 0, len(fields))))
    catch = []
    if src.chance(2):
        counter = W.Counter()
        for _ in range(src.int(1, 3)):
            f = W.field_spec(src, src.pick(W.FIELD_NAMES), by, counter, objs=list(by), validators=False, defaults=False)
            f['required'] = False
            if src.chance(5):
                f['kind'] = ('custom', 'fdump')
            catch.append((f, [('dump ' + src.pick(W.EFFECTS) if f['kind'] == ('custom', 'fdump') and src.bool() else
                               W.field_value(src, by, f, src.pick(['ok', 'near', 'any'])), src.pick(['init', 'update', 'assign']))
                              for _ in range(src.int(1, 3))]))
    return specs, steps, catch


def cases(tier):
    return strategy(gen)


class Extended(W.World):
    """The same schemas, with everything that is to be extended replaced by a subclass."""

    def build_field(self, f, deco=None):
        self.ext = f.get('ext')
        return super().build_field(f, deco)

    def rule_fn(self, rule):
        res = super().rule_fn(rule)
        if rule[0] == 'fn':
            return res
        cls = type(res)

        class Looks(cls, raw=False):
            def validate(self, value, ctx):
                return super().validate(unbox(value), ctx)
        # same state, as the constructors differ
        new = Looks.__new__(Looks)
        for c in cls.__mro__:
            for a in getattr(c, '__slots__', ()):
                if hasattr(res, a):
                    setattr(new, a, getattr(res, a))
        if hasattr(res, '__dict__'):
            vars(new).update(vars(res))
        return new

    def _fn(self, rule, cls=False, raw=False, plain=False):
        res = super()._fn(rule, cls, raw, plain)
        if not cls:
            return res

        class Calls(type(res), raw=raw):
            def __call__(self, schema, value, ctx):
                return super().__call__(schema, Box(value), ctx)

            def validate(self, value, ctx):
                if type(value) is not Box:
                    raise AssertionError('validate was given %r' % (value,))
                return super().validate(value.inner, ctx)
        return Calls()

    def build_schema(self, spec):
        plain = super().build_schema(spec)
        over = spec.get('over')
        if not over:
            return plain
        attrs = {'__slots__': ()}

        def strip(data):
            if isinstance(data, collections.abc.Mapping) and VER in data:
                return {k: v for k, v in data.items() if k != VER}
            return data

        if 'init' in over:
            def __init__(self, data, **kw):
                super(cls, self).__init__(strip(data), **kw)
            attrs['__init__'] = __init__
        if 'update' in over:
            def update(self, data, **kw):
                super(cls, self).update(strip(data), **kw)
            attrs['update'] = update
        if 'dump' in over:
            def dump(self, **kw):
                return {**super(cls, self).dump(**kw), TAG: spec['name']}
            attrs['dump'] = dump
        cls = type(self.o.Schema)(spec['name'], (plain,), attrs)
        return cls

    def wrap(self, cls):
        ext = self.ext
        if ext is None:
            return cls
        pre, post, dmp, twice = ext

        class Ext(cls):
            def value_load(self, value, ctx):
                if pre:
                    if type(value) is not Box:
                        raise AssertionError('value_load was given %r' % (value,))
                    value = value.inner
                if twice:
                    super().value_load(value, ctx)
                out = super().value_load(value, ctx)
                return Box(out) if post else out

            def value_dump(self, value, ctx):
                value = unbox(value)
                if twice:
                    super().value_dump(value, ctx)
                out = super().value_dump(value, ctx)
                return Box(out) if dmp else out
        return Ext


class Mapper:
    """From the plain to the extended schemas."""

    def __init__(self, specs, plain):
        self.specs = W.by_name(specs)
        self.plain = plain

    def over(self, name, what):
        return [n for n in W.mro(self.specs, name) if what in self.specs[n]['over']]

    def load(self, name, data, what='init'):
        if not isinstance(data, (dict, V.UMap)):
            return data
        by = {W.load_key(f): f for f in W.resolve(self.specs, name).values()}
        out = {}
        if self.over(name, what):
            out[VER] = 1
        for k, v in data.items():
            out[k] = self.value(by[k], v) if k in by else v
        return V.UMap(out) if isinstance(data, V.UMap) else out

    def value(self, f, v):
        if v is None:
            return None
        if isinstance(v, V.Inst) and not isinstance(self.plain.materialise(v), self.plain.o.Schema):
            v = v.data      # what is given then, see World.materialise
        if isinstance(v, V.Inst):
            v = V.Inst(v.schema, self.load(v.schema, v.data))
        elif f['kind'][0] == 'obj':
            v = self.load(f['kind'][1], v)
        return Boxed(v) if f['ext'] and f['ext'][0] else v

    def check_dump(self, o, name, obj, plain, ext, what):
        tags = self.over(name, 'dump')
        M.check((TAG in ext) == bool(tags), '%s: the overridden dump of %s was not used', what, name)
        if tags:
            M.check(ext[TAG] == tags[0], '%s: dump of %s was tagged %r', what, name, ext[TAG])
        ext = {k: v for k, v in ext.items() if k != TAG}
        M.check(set(ext) == set(plain), '%s: dumped %r, plain %r', what, ext, plain)
        for f in W.resolve(self.specs, name).values():
            k = W.dump_key(f)
            if k not in plain:
                continue
            e = ext[k]
            if f['ext'] and f['ext'][2]:
                M.check(type(e) is Box, '%s: what value_dump returned for %s is not in the dump: %r', what, f['name'], e)
                e = e.inner
            if f['kind'][0] == 'obj' and plain[k] is not None:
                sub = unbox(obj.get_value_for(f['name']))
                self.check_dump(o, type(sub).__name__, sub, plain[k], e, what)
            else:
                M.check(V.same(plain[k], e), '%s: %s dumped as %r, plain %r', what, f['name'], e, plain[k])

    def check_values(self, o, name, p, e, what):
        for f in W.resolve(self.specs, name).values():
            a, b = (x.get_value_for(f['name'], M._NOTHING) for x in (p, e))
            if a is M._NOTHING or b is M._NOTHING:
                M.check(a is b, '%s: %s is %r, plain %r', what, f['name'], b, a)
                continue
            if not (f['ext'] and f['ext'][1]):
                M.check(type(b) is not Box, '%s: %s holds %r', what, f['name'], b)
            elif type(b) is not Box:
                # not loaded: a default or None
                M.check(a is None or 'default' in f, '%s: %s holds %r, not what value_load returned', what, f['name'], b)
            b = unbox(b)
            if isinstance(a, o.Schema):
                M.check(isinstance(b, o.Schema) and type(a).__name__ == type(b).__name__, '%s: %s is %r, plain %r', what, f['name'], b, a)
                self.check_values(o, type(a).__name__, a, b, what)
            else:
                M.check(V.same(a, b), '%s: %s is %r, plain %r', what, f['name'], b, a)


class Boxed:
    """A Box to be made with the data (see materialise)."""

    def __init__(self, v):
        self.v = v


def materialise(w, v):
    """World.materialise for data with boxes."""
    if type(v) is Boxed:
        return Box(materialise(w, v.v))
    if type(v) is V.Inst:
        raw = materialise(w, v.data)
        try:
            return w.cls[v.schema](raw)
        except (w.o.ValidationError,) + tuple(W.FOREIGN.values()):
            return raw
    t = type(v)
    if t is V.UMap or t is dict:
        return t({k: materialise(w, x) for k, x in v.items()})
    return w.materialise(v)


def run(o, case, rec):
    specs, steps, catch = case
    hooks = {'seen': unbox}
    wp = W.World(o, specs)
    we = Extended(o, [], hooks)
    hooks['field_cls'] = we.wrap
    for s in specs:
        we.add(s)
    m = Mapper(specs, wp)
    name = specs[-1]['name']
    fields = W.resolve(m.specs, name)
    extended = {W.load_key(f) for f in fields.values() if f['ext'] and any(f['ext'][:3])}
    P, E = wp.cls[name], we.cls[name]
    p = e = None
    for n, op in enumerate(steps):
        what = 'step %d %s' % (n, op[0])
        rec.checks += 1
        if op[0] != 'init' and p is None:
            continue
        if op[0] in ('init', 'update'):
            pd, ed = wp.materialise(op[1]), materialise(we, m.load(name, op[1], op[0]))
            kw = {} if op[2] is None else {'ignore_extra': op[2]}
            if op[0] == 'init':
                a, b = attempt_any(o, wp, lambda: P(pd, **kw)), attempt_any(o, we, lambda: E(ed, **kw))
            else:
                a, b = attempt_any(o, wp, lambda: p.update(pd, **kw)), attempt_any(o, we, lambda: e.update(ed, **kw))
            rec.nt(extended & set(op[1]))
        elif op[0] == 'assign':
            pv, ev = wp.materialise(op[2]), materialise(we, m.value(fields[op[1]], op[2]))
            a = attempt_any(o, wp, lambda: setattr(p, op[1], pv))
            b = attempt_any(o, we, lambda: setattr(e, op[1], ev))
            rec.nt(W.load_key(fields[op[1]]) in extended)
        else:
            kw = {op[1]: op[2]} if op[1] else {}
            a, b = attempt_any(o, wp, lambda: p.dump(**kw)), attempt_any(o, we, lambda: e.dump(**kw))
            if a[0] == 'ok' and b[0] == 'ok':
                m.check_dump(o, name, e, a[1], b[1], what)
        M.check(a[0] == b[0], '%s: extended: %r, plain: %r', what, b, a)
        rec.label(op[0] + ' ' + a[0])
        if a[0] == 'invalid':
            M.check(norm(a[1].raw()) == norm(b[1].raw()), '%s: errors of extended fields %r, of plain ones %r', what,
                    b[1].raw(), a[1].raw())
            for err in b[1].errors:
                f = next((f for f in fields.values() if W.load_key(f) == err.key), None)
                M.check(err.field is (getattr(E, f['name']) if f else None), '%s: field of the error of %r is %r', what,
                        err.key, err.field)
        elif a[0] != 'ok':
            M.check(a[1] == b[1], '%s: extended: %r, plain: %r', what, b, a)
        elif op[0] == 'init':
            p, e = a[1], b[1]
        if p is not None:
            m.check_values(o, name, p, e, what)
    for f, values in catch:
        caught(o, wp, f, values, rec)


def attempt_any(o, w, fn):
    try:
        return attempt(o, w, fn)[0]
    except tuple(W.FOREIGN.values()) as err:
        return 'raised', (type(err).__name__, err.args)


def caught(o, w, f, values, rec):
    """A subclass catches the errors of the inherited methods."""
    marker = V.Opaque('fallback')
    refused = (o.FieldError, ValueError, AssertionError)
    seen = []

    def wrap(cls):
        class Catches(cls):
            def value_load(self, value, ctx):
                try:
                    return super().value_load(value, ctx)
                except refused:
                    seen.append('load')
                    return marker

            def value_dump(self, value, ctx):
                if value is marker:
                    return 'dumped'
                try:
                    return super().value_dump(value, ctx)
                except refused:
                    seen.append('dump')
                    return marker
        return Catches

    name = f['name']
    make = type(o.Schema)
    plain = make('P', (o.Schema,), {name: w.build_field(f)})
    w.hooks['field_cls'] = wrap
    lenient = make('C', (o.Schema,), {name: w.build_field(f)})
    del w.hooks['field_cls']
    key = W.load_key(f)
    for v, how in values:
        v = w.materialise(v)

        def load(cls):
            obj = cls({key: v} if how == 'init' else {})
            if how == 'update':
                obj.update({key: v})
            elif how == 'assign':
                setattr(obj, name, v)
            return obj
        frozen = f.get('frozen') and how != 'init'
        del seen[:]
        a, b = attempt_any(o, w, lambda: load(plain)), attempt_any(o, w, lambda: load(lenient))
        rec.checks += 1
        if v is None or frozen or a[0] == 'raised':
            M.check(a[0] == b[0], '%s of %r: %r, plain %r', how, v, b, a)
        else:
            M.check(b[0] == 'ok', '%s of %r: the subclass caught the error, and it is still reported: %r', how, v, b)
            M.check((seen == ['load']) == (a[0] == 'invalid'), '%s of %r: plain %r, caught: %r', how, v, a, seen)
            if a[0] == 'invalid':
                rec.nt()
                rec.label('caught on ' + how)
                M.check(b[1].get_value_for(name) is marker, '%s of %r: holds %r', how, v, b[1].get_value_for(name))
                M.check(V.same(b[1].dump(), {W.dump_key(f): 'dumped'}), 'dumped %r', b[1].dump())
                continue
        if a[0] != 'ok' or b[0] != 'ok':
            continue
        x, y = a[1].get_value_for(name), b[1].get_value_for(name)
        M.check(isinstance(x, o.Schema) and type(x) is type(y) or V.same(x, y), '%s of %r: %r, plain %r', how, v, y, x)
        del seen[:]
        a, b = attempt_any(o, w, a[1].dump), attempt_any(o, w, b[1].dump)
        M.check((seen == ['dump']) == (a[0] == 'invalid'), 'dump: plain %r, caught: %r', a, seen)
        if a[0] == 'invalid':
            rec.label('caught on dump')
            M.check(b[0] == 'ok' and b[1] == {W.dump_key(f): marker}, 'dump: caught, result %r', b)
        else:
            M.check(V.same(a, b), 'dump: %r, plain %r', b, a)
