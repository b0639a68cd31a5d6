"""P15: subclassing inherits and overrides fields without altering other schemas."""

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is an inheritance graph of 2-6 schemas (chains, diamonds, several bases, mixins that are not schemas, overridden '
        'fields, keys and validators for inherited fields) and probes for each. Schemas are defined one after another; after each '
        'definition the behaviour of every schema and instance so far is compared with what it was, with the model and, for the '
        'new one, with a schema defined in one piece. Non-trivial: some schema inherits fields and overrides or extends one.')
EXAMPLES = {'quick': 2400, 'thorough': 100000}


def gen(src):
    counter = W.Counter()
    specs, by = [], {}
    nested = src.chance(3)
    if nested:
        specs.append(W.schema_spec(src, 'Nested', {}, counter, nfields=src.int(1, 2), config=False))
        by['Nested'] = specs[0]
    graph = []
    deep = src.chance(15)
    for i in range(src.int(2, 6) if not deep else src.int(9, 14)):
        name = 'S%d' % i
        spec = None
        for attempt in range(3):
            nb = 0 if not graph else src.pick([1, 1, 1, 2, 2, 3, 0])
            bases = src.subset(graph, nb, nb) if not deep else graph[-1:]
            trial = dict(by)
            trial[name] = {'name': name, 'bases': bases, 'fields': [], 'config': None}
            try:
                W.mro(trial, name)
            except TypeError:
                continue
            inherited = W.resolve(trial, name)
            objs = ['Nested'] if nested else []
            if graph and src.chance(5):
                objs = objs + [src.pick(graph)]
            spec = W.schema_spec(src, name, by, counter, bases=bases, nfields=src.pick([0, 1, 2, 1]), config=False, objs=objs,
                                 frozen=src.chance(4), avoid=inherited if src.bool() else ())
            fields = spec['fields']
            # override some inherited fields
            names = {f['name'] for f in fields}
            rest = [n for n in inherited if n not in names]
            for n in src.subset(rest, 0, min(2, len(rest))) if src.bool() else []:
                used = {W.load_key(f) for f in fields} | {W.dump_key(f) for f in fields} | \
                       {W.load_key(inherited[x]) for x in rest if x != n} | {W.dump_key(inherited[x]) for x in rest if x != n}
                fields.append(W.field_spec(src, n, by, counter, used_load=used, used_dump=used, objs=objs, frozen=src.chance(4)))
            names = {f['name'] for f in fields}
            above = [n for n in inherited if n not in names]
            inh = []
            for _ in range(src.pick([0, 0, 1, 2])):
                if above:
                    n = src.pick(above)
                    preds = ['never', 'none', 'always'] if inherited[n]['kind'][0] == 'obj' else None
                    inh.append((n, ('decostr', src.chance(3), W.fn_rule(src, counter.next(), preds))))
            if inh:
                spec['inherited'] = inh
            if src.chance(5):
                spec['mixins'] = [(src.pick(['first', 'last']), src.pick(['plain', 'post', 'pre']))]
            trial[name] = spec
            if W.consistent(trial, name):
                break
            spec = None
        if spec is None:
            spec = W.schema_spec(src, name, by, counter, nfields=1, config=False)
        mixed = spec.get('mixins')
        if mixed and not spec['bases'] and mixed[0][0] == 'last':
            spec['mixins'] = [('first', mixed[0][1])]
        by[name] = spec
        specs.append(spec)
        graph.append(name)
    probes, so_far = {}, {}
    for s in specs:
        so_far[s['name']] = s
        probes[s['name']] = [W.data(src, dict(so_far), s['name'], src.pick(['ok', 'ok', 'one', 'chaos'])) for _ in range(src.int(1, 3))]
    return specs, probes


def cases(tier):
    return strategy(gen)


def nf(o, v):
    """A comparable form of a value."""
    if isinstance(v, o.Schema):
        return ('schema', type(v).__name__, values(o, v))
    return v


def names_of(o, cls):
    return sorted(n for n in dir(cls) if isinstance(getattr(cls, n, None), o.fields.Field))


def values(o, obj):
    out = {}
    for n in names_of(o, type(obj)):
        v = obj.get_value_for(n, M._NOTHING)
        if v is not M._NOTHING:
            out[n] = nf(o, v)
    return out


def norm_raw(raw):
    return {k: sorted((norm_raw(e) if isinstance(e, dict) else e for e in v), key=repr) for k, v in raw.items()}


def attempt(o, fn):
    try:
        return 'ok', fn()
    except o.ValidationError as err:
        return 'invalid', norm_raw(err.raw())
    except o.FrozenError as err:
        return 'frozen', err.entity.name if isinstance(err.entity, o.fields.Field) else type(err.entity).__name__


def signature(o, w, cls, probes):
    """How a schema behaves, as comparable data; also the instances that were made."""
    out, insts = [('fields', names_of(o, cls))], []
    for data in probes:
        del w.log[:]
        res = attempt(o, lambda: cls(data))
        calls = {}
        for ev in w.log:
            if ev[0] == 'val':
                calls.setdefault((type(ev[4]).__name__, ev[5].field.name, ev[3]), []).append(ev[1])
        hooks = sorted(ev[0] for ev in w.log if ev[0] in ('pre', 'post', 'default'))
        if res[0] != 'ok':
            out.append(('init', res, calls, hooks))
            continue
        obj = res[1]
        insts.append(obj)
        out.append(('init', values(o, obj), calls, hooks, attempt(o, obj.dump)))
        for other in probes:
            if isinstance(other, M.collections.abc.Mapping):
                c = obj.copy()
                out.append(('update', attempt(o, lambda: c.update(other, ignore_extra=True)), values(o, c)))
        c = obj.copy()
        for n in names_of(o, cls):
            out.append(('assign', n, attempt(o, lambda: setattr(c, n, None)), attempt(o, lambda: setattr(c, n, obj.get_value_for(n, 1)))))
        out.append(('then', values(o, c)))
    return out, insts


def run(o, case, rec):
    specs, probes = case
    w = W.World(o, [])
    m = M.Model(w)
    known = {}     # name -> (probe data, signature, [(instance, values, dump)])

    def recheck(after):
        for name, (data, sig, insts) in known.items():
            now, _ = signature(o, w, w.cls[name], data)
            M.check(V.same(now, sig), 'after %s, schema %s behaves differently:\n%r\nbefore:\n%r', after, name, now, sig)
            for obj, vals, dump in insts:
                M.check(V.same(values(o, obj), vals), 'after %s, an instance of %s changed: %r, before %r', after, name, values(o, obj), vals)
                M.check(V.same(attempt(o, obj.dump), dump), 'after %s, dump of an instance of %s changed', after, name)

    for spec in specs:
        name = spec['name']
        w.add(spec)
        m._fields.clear()
        recheck('defining ' + name)
        cls = w.cls[name]
        fields = m.fields(name)
        M.check(names_of(o, cls) == sorted(fields), '%s has fields %r, expected %r', name, names_of(o, cls), sorted(fields))
        for b in spec['bases']:
            M.check(issubclass(cls, w.cls[b]), '%s is no subclass of %s', name, b)
        data = [w.materialise(d) for d in probes[name]]
        rec.checks += 1
        # the model
        insts = []
        for d in data:
            exp, errs = m.load(name, d)
            try:
                obj = cls(d)
            except o.ValidationError as err:
                M.check(errs, '%s rejects %r: %s', name, d, err.raw())
                M.compare_raw(errs, err.raw())
            else:
                M.check(not errs, '%s accepts %r, expected %r', name, d, errs)
                M.compare_values(m, name, obj, exp)
        # defined in one piece
        sig, insts = signature(o, w, cls, data)
        flat, _ = signature_of_flat(o, w, name, data)
        M.check(V.same(strip(sig), strip(flat)), 'schema %s behaves as\n%r\ndefined in one piece:\n%r', name, strip(sig), strip(flat))
        known[name] = (data, sig, [(i, values(o, i), attempt(o, i.dump)) for i in insts])
        recheck('using ' + name)
        inherited = len(fields) > len(spec['fields'])
        over = spec.get('inherited') or (spec['bases'] and {f['name'] for f in spec['fields']} &
                                         set(W.collect(w.specs, W.mro(w.specs, name)[1:])))
        rec.nt(inherited and over)
        if len(spec['bases']) > 1:
            rec.label('several bases')
        if spec.get('inherited'):
            rec.label('validators for inherited fields')
        if spec['bases'] and {f['name'] for f in spec['fields']} & set(W.collect(w.specs, W.mro(w.specs, name)[1:])):
            rec.label('overridden fields')
        if spec.get('mixins'):
            rec.label('mixin')
        if len(W.mro(w.specs, name)) > 2:
            rec.label('three layers or more')


def signature_of_flat(o, w, name, data):
    w2 = W.World(o, [])
    w2.specs.update(w.specs)
    w2.cls.update(w.cls)
    w2.log = w.log     # validators of both worlds are recorded in one place
    w2.add({'name': name, 'bases': [], 'fields': list(W.resolve(w.specs, name).values()), 'config': None})
    return signature(o, w, w2.cls[name], data)


def strip(sig):
    """Without the hooks of mixins, which the flat schema does not have."""
    out = []
    for x in sig:
        if x[0] == 'init':
            x = x[:3] + ([h for h in x[3] if h == 'default'],) + x[4:]
        out.append(x)
    return out
