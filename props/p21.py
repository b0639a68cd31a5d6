"""P21: hooks and contexts see the operation as it is."""

import collections

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas, nested and inheriting, all of whose fields, validators, hooks and default functions '
        'record their calls and leave marks in the states they are given, and a history of up to 8 initializations (with states), '
        'updates, assignments, dumps and copies, successful or not. The calls, their arguments and the contexts are compared with '
        'those the model prescribes. Non-trivial: an operation in which at least three user-code calls were checked.')
EXAMPLES = {'quick': 4000, 'thorough': 160000}
STATES = [None, {}, {'k': 1}, [], 'text', 0, V.Opaque(1), False]


def gen(src):
    opts = dict(main_fields=src.pick([1, 2, 3, 4]), frozen=src.chance(5), validators=src.below(3) < 2)
    specs = W.chain(src, src.int(2, 3), **opts) if src.chance(3) else W.world(src, **opts)
    for s in specs:
        if src.chance(3):
            s['pre'] = src.pick(list(W.PRE))
        if src.bool():
            s['post'] = True
        for f in s['fields']:
            if f['kind'][0] == 'obj' and src.chance(3):
                f['kind'] = f['kind'][:2] + (f['kind'][2] + (('state', src.pick([{'n': 1}, 'nested', 0])),),)
    by = W.by_name(specs)
    name = specs[-1]['name']
    fields = W.resolve(by, name)
    steps = []
    for i in range(src.int(1, 8)):
        c = src.below(11) if i else 0
        slot = src.below(4)
        if c < 4:
            d = W.data(src, by, name, src.pick(['ok', 'ok', 'ok', 'one', 'chaos']))
            steps.append(('init', d, src.pick(STATES), src.pick([None, None, True])))
        elif c < 6 or not fields:
            steps.append(('update', slot, W.data(src, by, name, src.pick(['ok', 'ok', 'one', 'chaos']), partial=True),
                          src.pick([None, True])))
        elif c == 6:
            f = src.pick(list(fields))
            steps.append(('assign', slot, f, None if src.chance(6) else W.field_value(src, by, fields[f], src.pick(['ok', 'near']))))
        elif c < 9:
            steps.append(('dump', slot, src.pick(['all', 'include', 'exclude']), src.subset(list(fields) + ['zz'], 0, len(fields) + 1)))
        elif c == 9:
            steps.append(('copy', slot))
        else:
            steps.append(('badpre', src.pick([None, [], 'x', 3, [('a', 1)], ()]), src.bool()))
    return specs, steps, src.chance(3)


def cases(tier):
    return strategy(gen)


class Recorder:
    """Records what the user code of a world sees."""

    def __init__(self, o, specs, rec):
        self.o, self.rec = o, rec
        self.op = 0
        self.events = []
        self.keep = []
        self.given = {}           # id(context) -> (context, value given to value_load)
        self.ctxs = {}            # (id(instance), field, depth) -> context of the value
        self.states = {}          # id(instance) -> (instance, expected state)
        self.expect_state = None
        self.on_post = None
        self.w = W.World(o, specs, {'field_cls': self.wrap, 'validator': self.validator, 'pre': self.pre, 'post': self.post,
                                    'default': self.default})
        self.m = M.Model(self.w)

    def wrap(self, cls):
        r = self

        class Wrapped(cls):
            def value_load(self, value, ctx):
                r.value('load', self, value, ctx, r.o.LoadContext)
                return super().value_load(value, ctx)

            def value_dump(self, value, ctx):
                r.value('dump', self, value, ctx, r.o.DumpContext)
                return super().value_dump(value, ctx)
        Wrapped.__name__ = cls.__name__
        return Wrapped

    def same_context(self, schema, ctx, who):
        """One context per value: a field is given at most once in an operation."""
        first = self.ctxs.setdefault((id(schema), ctx.field.name, self.post_depth), ctx)
        M.check(first is ctx, '%s got another context than the rest of the user code that sees this value', who)

    def tag(self, ctx):
        return self.op, id(ctx.schema), ctx.field.name

    def value(self, kind, field, value, ctx, want):
        schema = ctx.schema
        M.check(isinstance(ctx, want), '%s context is a %s', kind, type(ctx).__name__)
        M.check(ctx.field is field, '%s of %s: context of field %r', kind, field.name, ctx.field)
        M.check(getattr(type(schema), field.name) is field, '%s of %s: schema of the context does not have the field', kind, field.name)
        M.check(ctx.value is value, '%s of %s: context has value %r, not %r', kind, field.name, ctx.value, value)
        if kind == 'load':
            self.same_context(schema, ctx, 'value_load of ' + field.name)
            self.given[id(ctx)] = ctx, value
        marks = dict(ctx.state)
        for k, t in marks.items():
            M.check(t == self.tag(ctx), '%s of %s: state of the context is not its own: %r', kind, field.name, marks)
            M.check(kind == 'load' and k == 'validator' and ctx.is_update(), '%s of %s: the context was used before: %r', kind,
                    field.name, marks)
        ctx.state[kind] = self.tag(ctx)
        self.keep.append((schema, value, ctx))
        upd = ctx.is_update() if kind == 'load' else None
        inc = set(ctx.included_fields) if kind == 'dump' else None
        self.check_schema(schema, kind)
        M.check(upd is None or upd == schema.context.is_initialized(), 'is_update() is %r', upd)
        self.events.append((kind, schema, field.name, value, upd, inc, self.post_depth))

    post_depth = 0

    def check_schema(self, schema, kind):
        ctx = schema.context
        M.check(ctx.schema is schema, '%s: context of the schema is of another one', kind)
        M.check(isinstance(ctx, self.o.SchemaContext), 'context is a %s', type(ctx).__name__)
        cfg = W.config_of(self.w.specs, type(schema).__name__)
        M.check((ctx.config.ignore_extra, ctx.config.frozen) == (cfg['ignore_extra'], cfg['frozen']), 'config of the context')
        if id(schema) in self.states:
            M.check(ctx.state is self.states[id(schema)][1], '%s: state of the schema is %r', kind, ctx.state)
        else:
            self.keep.append(schema)

    def validator(self, vid, schema, value, ctx):
        M.check(ctx.schema is schema, 'validator %s: schema of the context', vid)
        self.same_context(schema, ctx, 'validator %s' % vid)
        raw = value is ctx.value
        _, given = self.given.get(id(ctx), (ctx, ctx.value))
        M.check(ctx.value is given, 'validator %s: the context has value %r, the raw value is %r', vid, ctx.value, given)
        for k, t in ctx.state.items():
            M.check(t == self.tag(ctx), 'validator %s: state of the context is not its own: %r', vid, ctx.state)
        self.check_schema(schema, 'validator')
        M.check(ctx.is_update() == schema.context.is_initialized(), 'is_update() in a validator')
        readable = [n for n in self.m.fields(type(schema).__name__) if hasattr(schema, n)]
        self.events.append(('validator', schema, vid, value, ctx.is_update(), ('load' in ctx.state, raw, readable), self.post_depth))
        ctx.state['validator'] = self.tag(ctx)
        self.keep.append((value, ctx))

    def pre(self, schema, data):
        for n in self.m.fields(type(schema).__name__):
            fb = object()
            M.check(schema.get_value_for(n, fb) is fb and not hasattr(schema, n), '%s is set in preprocess_data', n)
            try:
                getattr(schema, n)
            except self.o.FieldNotSet as err:
                M.check(err.schema is schema and err.field is getattr(type(schema), n), 'FieldNotSet in preprocess_data')
        M.check(schema.context.is_initialized() is False, 'initialized in preprocess_data')
        if self.expect_state is not None and type(schema).__name__ == self.expect_state[0]:
            M.check(schema.context.state is self.expect_state[1], 'state in preprocess_data is %r', schema.context.state)
        self.check_schema(schema, 'preprocess_data')
        self.events.append(('pre', schema, None, data, None, None, self.post_depth))
        self.keep.append((schema, data))

    def post(self, schema):
        M.check(schema.context.is_initialized() is True, 'not initialized in the post-init hook')
        self.check_schema(schema, 'post-init')
        self.events.append(('post', schema, None, self.m.snapshot(schema), None, None, self.post_depth))
        self.keep.append(schema)
        if self.on_post is not None:
            fn, self.on_post = self.on_post, None
            self.post_depth += 1
            try:
                fn(schema)
            finally:
                self.post_depth -= 1

    def default(self, fname, ctx, field):
        M.check(ctx.is_initialized() is False, 'initialized in a default function')
        M.check(ctx.schema.context is ctx, 'a default got a context that is not of its schema')
        M.check(getattr(type(ctx.schema), fname) is field, 'a default got field %r', field)
        self.check_schema(ctx.schema, 'default')


def expected(m, name, data, ev, ignore=None):
    """Counts the calls of an initialization: (kind, schema name, field or id of data, id of value)."""
    pre = next((m.specs[n]['pre'] for n in W.mro(m.specs, name) if m.specs[n].get('pre')), None)
    values, errs = m.load(name, data, ignore)
    if pre:
        ev[('pre', name, None, id(data))] += 1
        data = W.PRE[pre](data)
    by_key = {W.load_key(f): f for f in m.fields(name).values()}
    for key, v in data.items():
        if key in by_key:
            expected_value(m, name, by_key[key], v, ev)
    if not errs and any(m.specs[n].get('post') for n in W.mro(m.specs, name)):
        ev[('post', name, None, None)] += 1
    return values, errs


def expected_value(m, name, f, v, ev):
    if v is None:
        return
    ev[('load', name, f['name'], id(v))] += 1
    if f['kind'][0] == 'obj' and not isinstance(v, m.w.o.Schema) and isinstance(v, collections.abc.Mapping):
        expected(m, f['kind'][1], v, ev, dict(f['kind'][2]).get('ignore_extra'))


def expected_dump(m, obj, names, ev):
    name = m.name_of(obj)
    for fname, f in m.fields(name).items():
        v = obj.get_value_for(fname, M._NOTHING)
        if v is M._NOTHING or names is not None and fname not in names:
            continue
        ev[('dump', name, fname, id(v))] += 1
        if isinstance(v, m.w.o.Schema):
            expected_dump(m, v, None, ev)


def tally(events, kinds):
    out = collections.Counter()
    for kind, schema, fname, value, _, _, _ in events:
        if kind in kinds:
            out[(kind, type(schema).__name__, fname, None if kind == 'post' else id(value))] += 1
    return out


def compare(what, got, want):
    M.check(got == want, '%s: calls %r, expected %r', what, sorted((k[:3], n) for k, n in (got - want).items()),
            sorted((k[:3], n) for k, n in (want - got).items()))


def check_order(what, r, events, given):
    """On initialization preprocessing comes first, validators after all loads of the instance, post last."""
    seen = {}
    for kind, schema, x, value, upd, extra, depth in events:
        if depth:
            continue
        seen.setdefault(id(schema), (schema, []))[1].append((kind, x, value, upd, extra))
    for schema, evs in seen.values():
        kinds = [e[0] for e in evs]
        if 'dump' in kinds:
            continue
        M.check('pre' not in kinds[1:], '%s: preprocess_data after %r', what, kinds)
        M.check('post' not in kinds[:-1], '%s: calls after the post-init hook: %r', what, kinds)
    return seen


def run(o, case, rec):
    specs, steps, reassign = case
    r = Recorder(o, specs, rec)
    w, m = r.w, r.m
    name = specs[-1]['name']
    cls = w.cls[name]
    insts = []
    for n, step in enumerate(steps):
        how = step[0]
        if how not in ('init', 'badpre') and not insts:
            continue
        r.op = n
        del r.events[:], r.keep[:]
        r.ctxs.clear()
        what = 'step %d (%s)' % (n, how)
        want = collections.Counter()
        exc = None
        if how == 'badpre':
            bad(r, cls, step, what)
            continue
        if how == 'init':
            data = w.materialise(step[1])
            del r.events[:]
            r.ctxs.clear()
            state = V.clone(step[2])
            kw = {} if step[2] is None else {'state': state}
            if step[3] is not None:
                kw['ignore_extra'] = step[3]
            values, errs = expected(m, name, data, want, step[3])
            again = None
            if reassign:
                fs = [f for f in m.fields(name).values() if not f.get('frozen') and not W.config_of(w.specs, name)['frozen']
                      and W.load_key(f) in data]
                if fs:
                    again = fs[0]['name'], data[W.load_key(fs[0])]

                    def fn(schema):
                        if type(schema) is cls:
                            try:
                                setattr(schema, *again)
                            except o.ValidationError:
                                pass
                    r.on_post = fn
            r.expect_state = (name, state) if not any(f['kind'][0] == 'obj' and f['kind'][1] == name
                                                      for s in specs for f in s['fields']) else None
            try:
                obj = cls(data, **kw)
            except o.ValidationError as err:
                exc = err
                obj = err.schema
            r.on_post = r.expect_state = None
            M.check(bool(errs) == (exc is not None), '%s: expected %r, got %r', what, errs, exc and exc.raw())
            M.check(type(obj) is cls and obj.context.schema is obj, '%s: schema of the error', what)
            M.check(obj.context.state is state, '%s: context.state is %r, not %r', what, obj.context.state, state)
            M.check(obj.context.is_initialized() is (exc is None), '%s: is_initialized() is wrong', what)
            if exc is None:
                insts.append(obj)
                r.states[id(obj)] = obj, state
            compare(what, tally([e for e in r.events if not e[6]], ('pre', 'load', 'post')), want)
            if again and any(e[6] for e in r.events):
                inner = [e for e in r.events if e[6] and e[0] == 'load' and e[1] is obj]
                M.check(all(e[4] is True for e in inner), '%s: is_update() is False for an assignment in the post-init hook', what)
                rec.label('assignment in the post-init hook')
            seen = check_order(what, r, r.events, data)
            for schema, evs in seen.values():
                given = {e[1] for e in evs if e[0] == 'load'}
                loads_done = max([i for i, e in enumerate(evs) if e[0] == 'load'], default=-1)
                for i, e in enumerate(evs):
                    if e[0] in ('load', 'validator'):
                        M.check(e[3] is False, '%s: is_update() is True on initialization', what)
                    if e[0] == 'validator':
                        M.check(i > loads_done, '%s: validator %s ran before all fields were loaded', what, e[1])
                        ok = [x for x, f in m.fields(type(schema).__name__).items() if x in given]
                        if schema is obj and not errs:
                            M.check(set(ok) <= set(e[4][2]), '%s: validator %s cannot read %r', what, e[1], set(ok) - set(e[4][2]))
                    if e[0] == 'post' and schema is obj:
                        M.check(set(e[2]) == set(values), '%s: the post-init hook sees %r, expected %r', what, sorted(e[2]), sorted(values))
            for e in r.events:
                if e[0] == 'pre' and e[1] is obj:
                    M.check(e[3] is data, '%s: preprocess_data got other data', what)
        else:
            obj = insts[step[1] % len(insts)]
            if how == 'copy':
                new = obj.copy()
                M.check(new.context.schema is new and new.context.is_initialized(), '%s: context of the copy', what)
                M.check(V.same(new.context.state, obj.context.state), '%s: state of the copy is %r', what, new.context.state)
                insts.append(new)
                r.states[id(new)] = new, new.context.state
                M.check(not r.events, '%s: copying called user code', what)
                continue
            if how in ('update', 'assign'):
                if how == 'update':
                    data = w.materialise(step[2])
                    pairs = [(f, data[k]) for k in data for f in m.fields(name).values() if W.load_key(f) == k]
                else:
                    v = w.materialise(step[3])
                    pairs = [(m.fields(name)[step[2]], v)]
                del r.events[:]
                r.ctxs.clear()
                frozen = W.config_of(w.specs, name)['frozen'] or any(f.get('frozen') for f, _ in pairs)
                for f, v in pairs:
                    expected_value(m, name, f, v, want)
                try:
                    if how == 'update':
                        obj.update(data, **({} if step[3] is None else {'ignore_extra': step[3]}))
                    else:
                        setattr(obj, step[2], v)
                except o.ValidationError as err:
                    exc = err
                except o.FrozenError:
                    M.check(frozen, '%s: unexpected FrozenError', what)
                got = tally(r.events, ('pre', 'load', 'post'))
                if frozen:
                    M.check(not (got - want), '%s: unexpected calls %r', what, got - want)
                else:
                    compare(what, got, want)
                for e in r.events:
                    if e[0] in ('load', 'validator'):
                        M.check(e[4] is (e[1] is obj), '%s: is_update() is %r in %s', what, e[4], e[0])
                check_order(what, r, [e for e in r.events if e[1] is not obj], None)
            else:
                names = None if step[2] == 'all' else [x for x in m.fields(name) if (x in step[3]) == (step[2] == 'include')]
                expected_dump(m, obj, names, want)
                try:
                    obj.dump(**({} if step[2] == 'all' else {step[2]: list(step[3])}))
                except o.ValidationError as err:
                    exc = err
                compare(what, tally(r.events, ('dump', 'pre', 'load', 'post', 'validator')), want)
                for e in r.events:
                    sel = set(m.fields(type(e[1]).__name__))
                    if e[1] is obj and names is not None:
                        sel = set(names)
                    M.check(e[2] in e[5] and e[5] <= sel, '%s: included_fields of %s is %r, selected %r', what, e[2], e[5], sel)
                    unset = {x for x in sel if e[1].get_value_for(x, M._NOTHING) is M._NOTHING}
                    M.check(sel - unset <= e[5], '%s: included_fields of %s is %r, selected %r', what, e[2], e[5], sel)
        # validators share the context of the load
        for e in r.events:
            if e[0] == 'validator' and not e[6]:
                loaded, raw, _ = e[5]
                M.check(loaded or raw, '%s: validator %s has not the context of the deserialization', what, e[2])
        rec.checks += len(r.events)
        rec.nt(len(r.events) >= 3)
        for e in r.events:
            rec.label(how + ': ' + e[0])
        if exc is not None:
            rec.label(how + ' failed')


def bad(r, cls, step, what):
    """Data or preprocessed data that is not a mapping."""
    o = r.o
    value = V.clone(step[1])
    calls = []

    if step[2]:
        attrs = {'preprocess_data': lambda self, data: calls.append(data) or value,
                 '__schema_post_init__': lambda self: calls.append('post')}
        sub = type(cls)('Bad', (cls,), attrs)
        data = {}
        fn = lambda: sub(data)
    else:
        fn = lambda: cls(value)
    try:
        fn()
    except TypeError:
        pass
    else:
        raise M.Mismatch('%s: %r was accepted' % (what, value))
    M.check(not r.events, '%s: user code ran for data that is no mapping: %r', what, [e[0] for e in r.events])
    if step[2]:
        M.check(len(calls) == 1 and calls[0] is data, '%s: hooks: %r', what, calls)
    r.rec.label('not a mapping')
