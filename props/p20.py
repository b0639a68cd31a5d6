"""P20: defaults fill exactly the absent fields, and unset fields stay unset."""

from lib import model as M
from lib import ops
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-3 generated schemas most of whose fields have a default (falsy, None, invalid for the field, mutable, any '
        'kind of callable, also combined with required=True) or are optional, and a history of initializations from data lacking '
        'any subset of the keys, updates, assignments, dumps and copies. Every field is compared with the expected value or the '
        'expected FieldNotSet after each step, and the calls of default functions are counted. Non-trivial: a default was applied '
        'or an unset field was read.')
EXAMPLES = {'quick': 5000, 'thorough': 200000}

VALUES = [None, 0, '', False, [], {}, (), 0.0, 'dflt', 7, True, ['x'], {'k': []}, set(), V.Opaque(1), {'id': 1}, b'', 'None',
          V.UMap({}), Ellipsis]
NAMES = ['nosuch', 'zz', '', '_field_values', 'context', 'dump']


def plain(v):
    return V.clone(v)


def retrofit(src, f):
    """Makes defaults and optional fields frequent."""
    c = src.below(8)
    f.pop('default', None)
    f.pop('required', None)
    if c < 3:
        f['default'] = ('v', plain(src.pick(VALUES)) if src.below(3) else T.anyval(src))
    elif c < 5:
        f['default'] = ('call', plain(src.pick(VALUES)) if src.below(3) else T.anyval(src), src.pick(W.STYLES))
    elif c < 7:
        f['required'] = False
    if 'default' in f and f['kind'][0] == 'obj':
        f['default'] = (f['default'][0], None) + f['default'][2:]
    if 'default' in f and src.chance(3):
        f['required'] = src.bool()


def gen(src):
    specs = W.world(src, max_schemas=3, main_fields=src.pick([1, 2, 3, 4, 5]), frozen=src.chance(4), validators=src.chance(3))
    for s in specs:
        for f in s['fields']:
            retrofit(src, f)
    by = W.by_name(specs)
    for s in specs:
        for f in s['fields']:
            if 'default' in f and f['kind'][0] == 'obj' and src.bool():
                inst = V.Inst(f['kind'][1], W.data(src, by, f['kind'][1], 'ok'))
                # without instances inside, and not of a class with __call__, whose instances would be taken for functions
                if 'Inst(' not in repr(inst.data) and not any(x.get('dunder') == 'iter' for x in specs):
                    f['default'] = (f['default'][0], inst) + f['default'][2:]
    name = specs[-1]['name']
    fields = W.resolve(by, name)
    many = len(fields) > 8
    steps = []
    for i in range(src.int(1, 9)):
        c = src.below(10) if i else 0
        slot = src.below(4)
        if c < 4:
            mode = src.pick(['ok', 'ok', 'ok', 'one', 'chaos'])
            d = W.data(src, by, name, mode, partial=src.chance(3))
            if many and src.bool():
                # next to nothing is given
                d = {k: d[k] for k in d if any(W.load_key(f) == k and W.is_required(f) for f in fields.values()) or src.chance(12)}
            steps.append(('init', d, src.pick([None, None, True]), src.pick([None, {'s': 1}, 'st'])))
        elif c < 6 or not fields:
            steps.append(('update', slot, W.data(src, by, name, src.pick(['ok', 'ok', 'one', 'chaos']), partial=True),
                          src.pick([None, None, True])))
        elif c == 6:
            f = src.pick(list(fields))
            steps.append(('assign', slot, f, W.field_value(src, by, fields[f], src.pick(['ok', 'near']))))
        elif c == 7:
            f = src.pick(list(fields))
            # names that may be neither a field nor a load key
            steps.append(('get', slot, src.pick([f, W.load_key(fields[f]), W.dump_key(fields[f]), src.pick(NAMES)]),
                          src.pick([None, 0, 'fb', False, V.Opaque(2), Ellipsis])))
        elif c == 8:
            steps.append(('copy', slot))
        else:
            names = [f for f in fields] + ['zz']
            steps.append(('dump', slot, src.pick(['all', 'include', 'exclude']), src.subset(names, 0, len(names))))
    return specs, steps


def cases(tier):
    return strategy(gen)


class _FB:
    pass


def raises(exc, fn):
    try:
        fn()
    except exc as err:
        return err
    return None


def check_not_set(o, obj, cls, fname, f, used, err):
    field = getattr(cls, fname)
    M.check(err is not None, 'reading unset %s as %r did not raise', fname, used)
    M.check(type(err) is o.FieldNotSet and isinstance(err, AttributeError) and isinstance(err, o.OblateException),
            'reading unset %s as %r raised %r', fname, used, err)
    M.check(err.field is field, 'FieldNotSet.field is %r', err.field)
    M.check(err.schema is obj, 'FieldNotSet.schema is another instance')
    M.check(err.name == used, 'FieldNotSet.name is %r, not %r', err.name, used)
    M.check(repr(fname) in str(err.args[0]), 'FieldNotSet says %r', err.args)


def check_values(o, m, w, obj, name, values, rec):
    """Set fields hold what is expected; all forms of reading agree."""
    cls = w.cls[name]
    M.compare_values(m, name, obj, values)
    keys = {W.load_key(f): n for n, f in m.fields(name).items()}
    for fname, f in m.fields(name).items():
        names = [fname]
        if W.load_key(f) not in m.fields(name):
            names.append(W.load_key(f))
        rec.checks += 1
        if fname in values:
            for n in names:
                fb = _FB()
                got = obj.get_value_for(n)
                M.check(got is obj.get_value_for(n, fb) and got is getattr(obj, fname) and got is not fb,
                        'ways of reading %s differ', fname)
                M.check(hasattr(obj, fname), 'hasattr of a set field is False')
            continue
        rec.nt()
        rec.label('unset field read')
        for n in names:
            fb = _FB()
            M.check(obj.get_value_for(n, fb) is fb, 'get_value_for(%r, fallback) is not the fallback', n)
            M.check(obj.get_value_for(n, None) is None, 'get_value_for(%r, None) is not None', n)
            check_not_set(o, obj, cls, fname, f, n, raises(Exception, lambda: obj.get_value_for(n)))
        check_not_set(o, obj, cls, fname, f, fname, raises(Exception, lambda: getattr(obj, fname)))
        M.check(not hasattr(obj, fname) and getattr(obj, fname, 5) == 5, 'an unset field is not like an absent attribute')
    return keys


def check_definitions(w, m):
    for name in w.cls:
        for fname, f in m.fields(name).items():
            field = getattr(w.cls[name], fname)
            M.check(field.required is W.is_required(f), '%s.required is %r', fname, field.required)
            M.check(field.has_default() is ('default' in f), '%s.has_default() is %r', fname, field.has_default())
            if 'default' in f and f['default'][0] == 'v':
                if isinstance(f['default'][1], V.Inst):
                    M.compare_value(m, field.default, m.default(f), fname + '.default')
                    continue
                M.check(V.same(field.default, f['default'][1]), '%s.default is %r, not %r', fname, field.default, f['default'][1])
            elif 'default' not in f:
                M.check(field.default is None, '%s.default is %r', fname, field.default)


def reads_inside(o, w, schema, found):
    """All forms of reading agree in the midst of an operation, too."""
    try:
        for fname, field in type(schema).__fields__.items():
            fb = _FB()
            held = schema.get_value_for(fname, fb)
            if held is fb:
                for fb in (None, False, '', 0, [], _FB()):
                    M.check(schema.get_value_for(fname, fb) is fb, 'inside: get_value_for(%r, %r) is something else', fname, fb)
                M.check(not hasattr(schema, fname), 'inside: unset %s is an attribute', fname)
                check_not_set(o, schema, type(schema), fname, None, fname, raises(Exception, lambda: getattr(schema, fname)))
                check_not_set(o, schema, type(schema), fname, None, fname, raises(Exception, lambda: schema.get_value_for(fname)))
            else:
                M.check(schema.get_value_for(fname) is held and getattr(schema, fname) is held and
                        schema.get_value_for(fname, None) is held, 'inside: ways of reading %s differ', fname)
            if field.load_key not in type(schema).__fields__:
                M.check(schema.get_value_for(field.load_key, held) is held, 'inside: %r reads something else', field.load_key)
    except M.Mismatch as exc:
        found.append(exc)


def run(o, case, rec):
    specs, steps = case
    found = []
    w = W.World(o, [], {'validator': lambda vid, schema, value, ctx: reads_inside(o, w, schema, found),
                           'default': lambda fname, ctx, field: reads_inside(o, w, ctx.schema, found)})
    for s in specs:
        w.add(s)      # may make instances, for defaults
    m = M.Model(w)
    name = specs[-1]['name']
    cls = w.cls[name]
    check_definitions(w, m)
    insts = []                 # [(instance, expected values)]
    for step in steps:
        how = step[0]
        if how != 'init' and not insts:
            continue
        del w.log[:]
        if how == 'init':
            data = w.materialise(step[1])
            state = V.clone(step[3])
            kw = {} if step[3] is None else {'state': state}
            obj, values, errs, err = ops.load(w, m, name, data, step[2], **kw)
            calls = [ev for ev in w.log if ev[0] == 'default']
            if obj is None:
                M.compare_raw(errs, err.raw())
                for ev in calls:
                    M.check(sum(e[3] is ev[3] and e[2] is ev[2] for e in calls) == 1, 'a default was called twice')
                rec.label('failed init')
                continue
            insts.append((obj, values))
            applied = 0
            for fname, f in m.fields(name).items():
                field = getattr(cls, fname)
                mine = [ev for ev in calls if ev[3] is field and ev[2] is obj.context]
                given = W.load_key(f) in data
                if 'default' not in f or given:
                    M.check(not mine, 'the default of %s was called though %s', fname, 'it is given' if given else 'there is none')
                    continue
                applied += 1
                got = getattr(obj, fname)
                if f['default'][0] == 'v':
                    M.check(got is field.default, 'default of %s is not the given object', fname)
                else:
                    M.check(len(mine) == 1, 'the default of %s was called %d times', fname, len(mine))
                    M.check(mine[0][4] is got, 'default of %s is not what the function returned', fname)
                    rec.label('callable default, ' + f['default'][2])
                    M.check(V.same(mine[0][2].state, state) and mine[0][2].schema is obj, 'context of the default of %s', fname)
            M.check(all(ev[2].schema is not obj or ev[2] is obj.context for ev in calls), 'a default got another context')
            rec.nt(applied)
            if applied:
                rec.label('default applied')
            if any(v is None for v in data.values()):
                rec.label('None given')
        else:
            obj, values = insts[step[1] % len(insts)]
            slot = step[1] % len(insts)
            if how in ('update', 'assign'):
                op = ('update', w.materialise(step[2]), step[3]) if how == 'update' else ('assign', step[2], w.materialise(step[3]))
                kind, new, errs, exc = ops.apply(w, m, name, obj, op)
                insts[slot] = obj, new
                rec.label('%s %s' % (how, kind))
                M.check(not any(ev[0] == 'default' and ev[2] is obj.context for ev in w.log), '%s called a default', how)
            elif how == 'get':
                n, fb = step[2], V.clone(step[3])
                fields = m.fields(name)
                target = n if n in fields else next((x for x, f in fields.items() if W.load_key(f) == n), None)
                if target is None:
                    for fn in (lambda: obj.get_value_for(n), lambda: obj.get_value_for(n, fb)):
                        err = raises(Exception, fn)
                        M.check(type(err) is RuntimeError, 'get_value_for(%r) of no field: %r', n, err)
                    rec.label('no such field')
                else:
                    got = obj.get_value_for(n, fb)
                    M.check(got is (getattr(obj, target) if target in values else fb), 'get_value_for(%r, %r) is %r', n, fb, got)
            elif how == 'copy':
                insts.append((obj.copy(), dict(values)))
                M.check(not any(ev[0] == 'default' for ev in w.log), 'copy called a default')
            else:
                kw = {} if step[2] == 'all' else {step[2]: list(step[3])}
                res, exp = m.dump(name, m.snapshot(obj), kw.get('include'), kw.get('exclude'))
                for fname, f in m.fields(name).items():
                    if f['kind'][0] == 'obj' and fname in values and not isinstance(values[fname], M.MInst) and values[fname] is not None:
                        raise M.Mismatch('not a schema: %r' % (values[fname],))
                try:
                    out = obj.dump(**kw)
                except o.ValidationError as err:
                    M.check(res == 'err', 'unexpected %s', err.raw())
                    continue
                M.check(res == 'ok', 'dump succeeded, expected %r', exp)
                M.check(set(out) == set(exp), 'dump has keys %r, expected %r', sorted(out), sorted(exp))
                M.check(not any(ev[0] == 'default' for ev in w.log), 'dump called a default')
        if found:
            raise found[0]
        for obj, values in insts:
            check_values(o, m, w, obj, name, values, rec)
    check_definitions(w, m)
