"""P05: frozen schemas and frozen fields never change once initialized."""

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy
from props.p03 import Pool

RULE = ('A case is 1-4 generated schemas with frozen fields and frozen configurations (inherited and overridden), '
        'optionally a schema made of copies of the fields, and a history of updates, assignments and copies on instances '
        'and nested instances. Non-trivial: some attempt hit a frozen field or schema and another operation was allowed '
        'or rejected otherwise.')
EXAMPLES = {'quick': 5000, 'thorough': 200000}
SAME = '<current value>'


def gen(src):
    specs = W.world(src, main_fields=src.pick([1, 2, 3, 4, 6]), frozen=True, validators=src.chance(3), inherit=True)
    for i, s in enumerate(specs):
        for f in s['fields']:
            if src.chance(3):
                f['frozen'] = not f.get('frozen')
        c = src.below(8)
        if c > 5:
            s['config'] = dict(s['config'] or {}, frozen=c == 7)
    by = W.by_name(specs)
    name = specs[-1]['name']
    if src.chance(3):
        specs = list(specs)
        copied = {'name': 'Copied', 'bases': [], 'fields': list(W.resolve(by, name).values()), 'config': None,
                  'copy_of': name}
        by = dict(by, Copied=copied)
        specs.append(copied)
        name = 'Copied'
    loads = [W.data(src, by, name, 'ok') for _ in range(3)]
    steps = []
    for _ in range(src.int(2, 9)):
        slot = src.pick([0, 0, 0, 0, 0, 0, 1, 2])
        target = name if slot == 0 else src.pick(specs)['name']
        fields = W.resolve(by, target)
        c = src.below(8)
        if c < 4:
            data = {}
            for fname in src.subset(list(fields), 0, len(fields)):
                f = fields[fname]
                data[W.load_key(f)] = (SAME + fname) if src.chance(5) else W.field_value(
                    src, by, f, src.pick(['ok', 'ok', 'ok', 'near']))
            if src.chance(8):
                data.setdefault(src.pick(W.EXTRA_KEYS), 1)
            steps.append(('update', slot, target, data, src.pick([None, None, None, True])))
        elif c < 7 and fields:
            fname = src.pick(list(fields))
            v = (SAME + fname) if src.chance(5) else W.field_value(src, by, fields[fname], src.pick(['ok', 'ok', 'near']))
            steps.append(('assign', slot, target, fname, v))
        else:
            steps.append(('copy', slot))
    return specs, loads, steps


def cases(tier):
    return strategy(gen)


def build(o, specs):
    w = W.World(o, [s for s in specs if 'copy_of' not in s])
    for s in specs:
        if 'copy_of' in s:
            attrs = {f['name']: getattr(w.cls[s['copy_of']], f['name']).copy() for f in s['fields']}
            w.specs[s['name']] = s
            w.cls[s['name']] = type(o.Schema)(s['name'], (o.Schema,), attrs)
    return w


def current(e, v):
    if isinstance(v, str) and v.startswith(SAME):
        return e['obj'].get_value_for(v[len(SAME):], None)
    return v


def run(o, case, rec):
    specs, loads, steps = case
    w = build(o, specs)
    m = M.Model(w)
    name = specs[-1]['name']
    pool = Pool(m)
    for d in loads:
        d = w.materialise(d)
        if not m.load(name, d)[1]:
            pool.track(w.cls[name](d))
            break
    if not pool.items:
        return
    frozen = other = 0
    for n, op in enumerate(steps):
        cands = pool.items if op[0] == 'copy' else [e for e in pool.items if e['name'] == op[2]]
        if not cands:
            continue
        e = cands[op[1] % len(cands)]
        obj = e['obj']
        what = 'step %d %s' % (n, op[0])
        rec.checks += 1
        if op[0] == 'copy':
            pool.items.append({'obj': obj.copy(), 'name': e['name'], 'values': dict(e['values'])})
            continue
        fields = m.fields(e['name'])
        cls = w.cls[e['name']]
        whole = W.config_of(w.specs, e['name'])['frozen']
        if op[0] == 'update':
            data = {k: w.materialise(current(e, v)) if not isinstance(current(e, v), o.Schema) else current(e, v)
                    for k, v in op[3].items()}
            hit = [f['name'] for f in fields.values() if W.load_key(f) in data and f.get('frozen')]
        else:
            cur = current(e, op[4])
            data = cur if isinstance(cur, o.Schema) else w.materialise(cur)
            hit = [op[3]] if fields[op[3]].get('frozen') else []
        exc = None
        try:
            if op[0] == 'update':
                obj.update(data, **({} if op[4] is None else {'ignore_extra': op[4]}))
            else:
                setattr(obj, op[3], data)
        except (o.FrozenError, o.ValidationError) as err:
            exc = err
        if whole or hit:
            frozen += 1
            rec.label('frozen schema' if whole else 'frozen field')
            M.check(isinstance(exc, o.FrozenError), '%s %r (frozen %s): expected FrozenError, got %r', what, data,
                    'schema' if whole else hit, exc)
            if whole:
                M.check(exc.entity is obj or (hit and any(exc.entity is getattr(cls, h) for h in hit)),
                        '%s: entity is %r, expected the schema instance', what, exc.entity)
            else:
                M.check(any(exc.entity is getattr(cls, h) for h in hit), '%s: entity is %r, expected the field %r', what,
                        exc.entity, hit)
        else:
            other += 1
            new, errs = (m.update(e['name'], e['values'], data, op[4]) if op[0] == 'update'
                         else m.assign(e['name'], e['values'], op[3], data))
            M.check(not isinstance(exc, o.FrozenError), '%s %r: FrozenError, but nothing given is frozen', what, data)
            M.check(bool(errs) == (exc is not None), '%s %r: expected %s, got %r', what, data, errs or 'success', exc)
            if exc is None:
                rec.label('allowed')
                M.compare_values(m, e['name'], obj, new, what)
                e['values'] = m.snapshot(obj)
                for v in e['values'].values():
                    if isinstance(v, M.MInst):
                        pool.track(v.obj)
            else:
                rec.label('rejected otherwise')
        pool.compare(what)
    rec.nt(frozen and other)
