"""P16: a copied instance and its original never affect each other."""

from lib import model as M
from lib import ops
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-3 generated schemas, an instance with some state, and a history of up to 14 copies, updates, assignments, '
        'state changes, extra attributes and dumps on any of the copies; after each step every copy is compared with what it should '
        'be. Non-trivial: at least one change succeeded on an instance that has a live copy or is one.')
EXAMPLES = {'quick': 4500, 'thorough': 180000}
STATES = [None, 'text', 7, {'a': 1}, {}, [1, 2], [], {1, 2}, {'deep': {'x': [1]}}, V.Opaque(3), V.DictSub({'k': 1})]


def gen(src):
    specs = W.world(src, max_schemas=3, main_fields=src.pick([1, 2, 3, 4]), frozen=src.chance(3), validators=src.bool())
    c = src.below(5)
    if c == 3:
        specs[-1]['slots'] = ('extra',)
    if c == 4:
        specs[-1]['config'] = dict(specs[-1]['config'] or {}, slotted=False)
    if src.chance(10):
        specs[-1]['config'] = dict(specs[-1]['config'] or {}, frozen=True)
    by = W.by_name(specs)
    name = specs[-1]['name']
    fields = W.resolve(by, name)
    loads = [W.data(src, by, name, 'ok') for _ in range(3)]
    steps = []
    for _ in range(src.int(2, 14)):
        c = src.below(10)
        slot = src.below(5)
        if c < 3 or not fields:
            steps.append(('copy', slot))
        elif c < 5:
            steps.append(('update', slot, W.data(src, by, name, src.pick(['ok', 'ok', 'one', 'chaos']), partial=True),
                          src.pick([None, None, True])))
        elif c < 7:
            f = src.pick(list(fields))
            steps.append(('assign', slot, f, W.field_value(src, by, fields[f], src.pick(['ok', 'ok', 'near']))))
        elif c < 9:
            steps.append(('state', slot, src.pick(['set', 'replace', 'delete', 'grow']), src.below(100)))
        else:
            steps.append((src.pick(['dump', 'extra']), slot))
    return specs, loads, src.pick(STATES), src.bool(), steps, src.chance(3)


def cases(tier):
    return strategy(gen)


def change_state(obj, how, n):
    """A change of the top level of a state; True if it did something."""
    s = obj.context.state
    if how == 'replace' or not isinstance(s, (dict, list, set)):
        obj.context.state = {'replaced': n}
    elif isinstance(s, dict):
        if how == 'delete' and s:
            s.popitem()
        else:
            s['new%d' % n] = n
    elif isinstance(s, list):
        if how == 'delete' and s:
            s.pop()
        else:
            s.append(n)
    else:
        if how == 'delete' and s:
            s.pop()
        else:
            s.add(n)


def run(o, case, rec):
    specs, loads, state, with_state, steps, inside = case
    taken = []      # copies made by validators and default functions: [(copy, original, values, state)]

    def take(schema):
        if len(taken) < 4:
            held = {n: schema.get_value_for(n) for n in type(schema).__fields__ if hasattr(schema, n)}
            taken.append((schema.copy(), schema, held, V.clone(schema.context.state)))
    w = W.World(o, specs, {'validator': lambda vid, schema, value, ctx: take(schema),
                           'default': lambda fname, ctx, field: take(ctx.schema)} if inside else None)
    m = M.Model(w)
    name = specs[-1]['name']
    cls = w.cls[name]
    fields = m.fields(name)
    obj = None
    for d in loads:
        d = w.materialise(d)
        if not m.load(name, d)[1]:
            del taken[:]
            obj = cls(d, state=V.clone(state)) if with_state else cls(d)
            break
    if obj is None:
        return
    has_extra = specs[-1].get('slots') or (specs[-1]['config'] or {}).get('slotted') is False
    items = [{'obj': obj, 'values': m.snapshot(obj), 'state': V.clone(obj.context.state), 'extra': None}]
    config = obj.context.config

    def others(schema, x):
        return schema is not x and any(e['obj'] is schema for e in items)

    def adopt(what):
        """Copies that user code made in the midst of an operation."""
        for new, x, held, st in taken:
            M.check(type(new) is type(x) and new is not x, '%s: copy inside is no new instance of the schema', what)
            M.check(new.context is not x.context and new.context.schema is new, '%s: copy inside has the context of another', what)
            M.check(new.context.is_initialized() is True, '%s: copy inside is not initialized', what)
            M.check(V.same(new.context.state, st), '%s: copy inside has state %r, not %r', what, new.context.state, st)
            for n in type(new).__fields__:
                M.check(hasattr(new, n) == (n in held) and new.get_value_for(n, None) is held.get(n),
                        '%s: copy inside holds %s=%r, the original then %r', what, n, new.get_value_for(n, None), held.get(n))
            rec.label('copied by user code')
            if type(x) is cls and len(items) < 8:
                e = next((e for e in items if e['obj'] is x), None)
                items.append({'obj': new, 'values': m.snapshot(new), 'state': st, 'extra': e and e['extra']})
        del taken[:]

    def compare(what):
        adopt(what)
        for i, e in enumerate(items):
            x = e['obj']
            where = 'after %s, copy %d' % (what, i)
            M.compare_values(m, name, x, e['values'], where)
            for fname, v in e['values'].items():
                M.check(x.get_value_for(fname) is (v.obj if isinstance(v, M.MInst) else v), '%s: %s is another object', where, fname)
            M.check(x.context.schema is x, '%s: context.schema is another instance', where)
            M.check(x.context.is_initialized() is True, '%s: not initialized', where)
            M.check(x.context.config is config, '%s: other configuration', where)
            M.check(V.same(x.context.state, e['state']), '%s: state %r, expected %r', where, x.context.state, e['state'])
            if has_extra:
                M.check(getattr(x, 'extra', None) == e['extra'], '%s: attribute %r, expected %r', where, getattr(x, 'extra', None),
                        e['extra'])
        for i, e in enumerate(items):
            for f in items[i + 1:]:
                M.check(e['obj'].context is not f['obj'].context, 'after %s: copies share a context', what)

    compare('creation')
    for n, op in enumerate(steps):
        e = items[op[1] % len(items)]
        x = e['obj']
        what = 'step %d %s' % (n, op[0])
        rec.checks += 1
        if op[0] == 'copy':
            if len(items) > 7:
                continue
            new = x.copy()
            M.check(new is not x and type(new) is type(x), '%s: not a new instance of the schema', what)
            if isinstance(x.context.state, (dict, list, set)):
                M.check(type(new.context.state) is type(x.context.state), '%s: state became %r', what, new.context.state)
            items.append({'obj': new, 'values': dict(e['values']), 'state': V.clone(e['state']), 'extra': e['extra']})
        elif op[0] == 'state':
            change_state(x, op[2], op[3])
            e['state'] = V.clone(x.context.state)
            rec.nt(len(items) > 1)
            rec.label('state change')
        elif op[0] == 'extra':
            if has_extra:
                x.extra = e['extra'] = 'extra %d' % n
                rec.label('extra attribute')
        elif op[0] == 'dump':
            del w.log[:]
            res, exp = m.dump(name, e['values'])
            try:
                out = x.dump()
            except o.ValidationError as err:
                M.check(res == 'err' and err.schema is x, '%s: failed: %s (schema is the copy: %s)', what, err, err.schema is x)
            else:
                M.check(res == 'ok' and V.same(out, exp), '%s: %r, expected %r', what, out, exp)
            for ev in w.log:
                if ev[0] == 'dump':
                    M.check(not others(ev[3].schema, x), '%s: dump context of another instance', what)
        else:
            act = ('update', w.materialise(op[2]), op[3]) if op[0] == 'update' else ('assign', op[2], w.materialise(op[3]))
            del w.log[:]
            kind, values, errs, exc = ops.apply(w, m, name, x, act)
            for ev in w.log:
                if ev[0] == 'val':
                    M.check(not others(ev[4], x) and ev[5].schema is ev[4] and (ev[4] is not x or ev[5].is_update()),
                            '%s: validator saw another instance', what)
                if ev[0] == 'load':
                    M.check(not others(ev[3].schema, x) and (ev[3].schema is not x or ev[3].is_update()),
                            '%s: load context of another instance', what)
            if kind == 'error':
                ops.check_error(m, name, exc, errs, text=False)
                M.check(exc.schema is x and all(z.schema is x for z in exc.errors), '%s: the error is of another instance', what)
            elif kind == 'frozen':
                M.check(exc.entity is (x if errs is None else getattr(cls, errs)), '%s: frozen entity %r', what, exc.entity)
            else:
                M.compare_values(m, name, x, values, what)
                changed = set(act[1]) if op[0] == 'update' else {W.load_key(fields[op[2]])}
                now = m.snapshot(x)
                for fname, f in fields.items():
                    if W.load_key(f) in changed and fname in now:
                        e['values'][fname] = now[fname]
                rec.nt(len(items) > 1 and changed)
                rec.label(op[0])
            rec.label(kind)
        compare(what)
    rec.label('copies: %d' % min(len(items), 5))
