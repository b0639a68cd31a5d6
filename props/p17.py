"""P17: load, dump and data keys only rename."""
import collections.abc

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas without keys, an assignment of unique load and dump keys to their fields (permutations of '
        'the names, unusual keys, data keys), data, and up to 8 operations; both versions perform the same operations on data that '
        'differs only in the keys, and results, errors and dumps are compared after renaming. Non-trivial: a schema has a field '
        'with a key that differs from its name, and such a field was loaded, reported or dumped.')
EXAMPLES = {'quick': 4200, 'thorough': 170000}
POOL = ['A', 'userId', 'user id', '', 'key', 'L1', 'L2', 'class', '\u00e9', '0', 'f1', 'Name', '__fields__', 'context', '_x', ' ', 'k' * 80, 'a long key ' * 30]


def unique_keys(src, names):
    """{name: key}: unique keys for some of the names (the others keep their name)."""
    how = src.below(4)
    if how == 0:
        return {}
    if how == 1 and len(names) > 1:
        return dict(zip(names, src.shuffle(names)))
    if how == 2 and len(names) > 1:
        return dict(zip(names, names[1:] + names[:1]))
    out = {}
    pool = src.shuffle([k for k in POOL if k not in names])
    for n in names:
        if src.below(3) < 2 and pool:
            out[n] = pool.pop()
    return out


def gen(src):
    specs = W.world(src, keys=False, inherit=False, frozen=src.chance(3), main_fields=src.pick([1, 2, 3, 4, 6]))
    for s in specs:
        if src.chance(8):
            s['config'] = dict(s['config'] or {}, frozen=True)
        if src.chance(6):
            s['config'] = dict(s['config'] or {}, ignore_extra=True)
        for f in s['fields']:
            if f['kind'][0] != 'obj' and src.chance(8):
                f['kind'] = ('custom', 'fdump')
                f.pop('vals', None)
    by = W.by_name(specs)
    name = specs[-1]['name']
    if src.chance(3):
        for f in specs[-1]['fields']:
            if src.bool():
                f['required'] = False
    keys = {}
    for s in specs:
        names = [f['name'] for f in s['fields']]
        if src.chance(3):
            both = unique_keys(src, names)
            keys[s['name']] = {n: ('data', k) for n, k in both.items()}
        else:
            load, dump = unique_keys(src, names), unique_keys(src, names)
            keys[s['name']] = {n: ('both', load.get(n), dump.get(n)) for n in names if n in load or n in dump}
    first = W.data(src, by, name, src.pick(['ok', 'ok', 'ok', 'one', 'chaos']))
    for f in W.resolve(by, name).values():
        if f['kind'] == ('custom', 'fdump') and f['name'] in first and src.bool():
            first = dict(first)
            first[f['name']] = 'dump ' + src.pick(W.EFFECTS)
    steps = [('init', first, src.pick([None, None, True, False]))]
    for _ in range(src.below(8)):
        fields = list(W.resolve(by, name))
        c = src.below(6)
        if c == 0:
            steps.append(('init', W.data(src, by, name, src.pick(['ok', 'one', 'chaos'])), src.pick([None, None, True, False])))
        elif c < 3:
            steps.append(('update', W.data(src, by, name, src.pick(['ok', 'one', 'chaos']), partial=True),
                          src.pick([None, None, True, False])))
        elif c == 3 and fields:
            f = src.pick(fields)
            steps.append(('assign', f, W.field_value(src, by, W.resolve(by, name)[f], src.pick(['ok', 'ok', 'near']))))
        elif c == 4:
            steps.append(('dump', src.pick(['include', 'exclude', None]), src.subset(fields, 0, len(fields))))
        elif fields:
            steps.append(('byname', src.pick(fields), src.bool()))
    return specs, keys, steps


def cases(tier):
    return strategy(gen)


def keyed(specs, keys):
    out = []
    for s in specs:
        fields = []
        for f in s['fields']:
            k = keys[s['name']].get(f['name'])
            f = dict(f)
            if k and k[0] == 'data':
                f['data_key'] = k[1]
            elif k:
                if k[1] is not None:
                    f['load_key'] = k[1]
                if k[2] is not None:
                    f['dump_key'] = k[2]
            fields.append(f)
        out.append(dict(s, fields=fields))
    return out


class Renamer:
    def __init__(self, specs, kspecs):
        self.by = W.by_name(specs)
        self.k = W.by_name(kspecs)

    def fields(self, name):
        return {f['name']: f for f in self.k[name]['fields']}

    def load(self, name, data):
        """Data for the schema with keys; None if an extra key would get a meaning."""
        fields = self.fields(name)
        lks = {W.load_key(f) for f in fields.values()}
        out = []
        for key, v in data.items():
            f = fields.get(key)
            if f is None:
                if key in lks:
                    continue
                out.append((key, v))
                continue
            out.append((W.load_key(f), self.value(f, v)))
        out = dict(out)
        return V.UMap(out) if isinstance(data, V.UMap) else out

    def plain(self, name, data):
        """The data for the schema without keys, less the extra keys dropped by load()."""
        fields = self.fields(name)
        lks = {W.load_key(f) for f in fields.values()}
        out = {}
        for key, v in data.items():
            f = fields.get(key)
            if f is None and key in lks:
                continue
            out[key] = v if f is None else self.plain_value(f, v)
        return V.UMap(out) if isinstance(data, V.UMap) else out

    def value(self, f, v):
        if f['kind'][0] != 'obj':
            return v
        if isinstance(v, V.Inst):
            return V.Inst(v.schema, self.load(v.schema, v.data))
        if isinstance(v, (dict, V.UMap)):
            return self.load(f['kind'][1], v)
        return v

    def plain_value(self, f, v):
        if f['kind'][0] != 'obj':
            return v
        if isinstance(v, V.Inst):
            return V.Inst(v.schema, self.plain(v.schema, v.data))
        if isinstance(v, (dict, V.UMap)):
            return self.plain(f['kind'][1], v)
        return v

    def errors(self, name, raw):
        """Errors of the schema without keys, renamed."""
        fields = self.fields(name)
        out = {}
        for key, entries in raw.items():
            f = fields.get(key)
            sub = []
            for e in entries:
                if isinstance(e, dict):
                    M.check(f is not None and f['kind'][0] == 'obj', 'nested errors under %r', key)
                    e = self.errors(f['kind'][1], e)
                sub.append(e)
            out[W.load_key(f) if f else key] = sub
        return out

    def dumped(self, name, raw):
        fields = self.fields(name)
        out = {}
        for key, v in raw.items():
            f = fields[key]
            if f['kind'][0] == 'obj' and v is not None:
                v = self.dumped(f['kind'][1], v)
            out[W.dump_key(f)] = v
        return out


def norm(raw):
    return {k: sorted(repr(norm(e) if isinstance(e, dict) else e) for e in v) for k, v in raw.items()}


def values(o, names, obj):
    out = {}
    for n in names:
        v = obj.get_value_for(n, M._NOTHING)
        if v is not M._NOTHING:
            out[n] = ('schema', type(v).__name__, values(o, fields_of(o, type(v)), v)) if isinstance(v, o.Schema) else v
            M.check(getattr(obj, n) is v, 'attribute %s is not the value of the field', n)
    return out


def fields_of(o, cls):
    return sorted(n for n in dir(cls) if isinstance(getattr(cls, n, None), o.fields.Field))


def attempt(o, w, fn):
    del w.log[:]
    try:
        res = ('ok', fn())
    except o.ValidationError as err:
        res = ('invalid', err)
    except o.FrozenError as err:
        res = ('frozen', (err.entity.name if isinstance(err.entity, o.fields.Field) else type(err.entity).__name__, str(err)))
    calls = [(ev[1], ev[3], type(ev[4]).__name__) for ev in w.log if ev[0] == 'val']
    calls += [(ev[0], ev[1]) for ev in w.log if ev[0] in ('default', 'load')]
    return res, calls


def run(o, case, rec):
    specs, keys, steps = case
    kspecs = keyed(specs, keys)
    wp, wk = W.World(o, specs), W.World(o, kspecs)
    r = Renamer(specs, kspecs)
    name = specs[-1]['name']
    fields = r.fields(name)
    P, K = wp.cls[name], wk.cls[name]
    p = k = None
    renamed = {f['name'] for f in fields.values() if W.load_key(f) != f['name'] or W.dump_key(f) != f['name']}
    deep = any(keys[s['name']] for s in specs[:-1])
    for n, op in enumerate(steps):
        what = 'step %d %s' % (n, op[0])
        rec.checks += 1
        if op[0] != 'init' and p is None:
            continue
        if op[0] in ('init', 'update'):
            if not isinstance(op[1], collections.abc.Mapping):
                continue
            pd, kd = wp.materialise(r.plain(name, op[1])), wk.materialise(r.load(name, op[1]))
            kw = {} if op[2] is None else {'ignore_extra': op[2]}
            if op[0] == 'init':
                a, ca = attempt(o, wp, lambda: P(pd, **kw))
                b, cb = attempt(o, wk, lambda: K(kd, **kw))
            else:
                a, ca = attempt(o, wp, lambda: p.update(pd, **kw))
                b, cb = attempt(o, wk, lambda: k.update(kd, **kw))
            rec.nt(renamed & set(op[1]) or deep)
        elif op[0] == 'assign':
            v1, v2 = wp.materialise(r.plain_value(fields[op[1]], op[2])), wk.materialise(r.value(fields[op[1]], op[2]))
            a, ca = attempt(o, wp, lambda: setattr(p, op[1], v1))
            b, cb = attempt(o, wk, lambda: setattr(k, op[1], v2))
            rec.nt(op[1] in renamed)
        elif op[0] == 'dump':
            kw = {op[1]: op[2]} if op[1] else {}
            a, ca = attempt(o, wp, lambda: p.dump(**kw))
            b, cb = attempt(o, wk, lambda: k.dump(**kw))
            rec.nt(renamed)
            if a[0] == 'ok' and b[0] == 'ok':
                M.check(V.same(r.dumped(name, a[1]), b[1]), '%s(%r): with keys %r, without %r', what, kw, b[1], a[1])
        else:
            check_access(o, p, k, K, fields, op, what)
            continue
        M.check(a[0] == b[0], '%s: with keys: %r, without: %r', what, b, a)
        M.check(ca == cb or a[0] == 'invalid' and sorted(map(repr, ca)) == sorted(map(repr, cb)),
                '%s: calls with keys: %r, without: %r', what, cb, ca)
        rec.label(op[0] + ' ' + a[0])
        if a[0] == 'invalid':
            ra, rb = r.errors(name, a[1].raw()), b[1].raw()
            M.check(norm(ra) == norm(rb), '%s: errors with keys %r, without %r', what, rb, a[1].raw())
            M.check(sorted(map(str, (e.key for e in b[1].errors))) == sorted(
                str(W.load_key(fields[e.key]) if e.key in fields else e.key) for e in a[1].errors),
                '%s: keys of errors %r', what, [e.key for e in b[1].errors])
            for e in b[1].errors:
                f = next((f for f in fields.values() if W.load_key(f) == e.key), None)
                M.check(e.field is (getattr(K, f['name']) if f else None), '%s: field of the error of %r is %r', what, e.key, e.field)
        elif a[0] == 'frozen':
            M.check(a[1] == b[1], '%s: frozen entity with keys %r, without %r', what, b[1], a[1])
        elif op[0] == 'init':
            p, k = a[1], b[1]
        if p is not None:
            M.check(V.same(values(o, fields, p), values(o, fields, k)), '%s: values with keys %r, without %r', what,
                    values(o, fields, k), values(o, fields, p))
            for f in fields:
                check_reads(p, k, fields, f, what)


def check_reads(p, k, fields, name, what):
    """Reading by name and by load key, with a fallback."""
    nothing = M._NOTHING
    lk = W.load_key(fields[name])
    by_name = k.get_value_for(name, nothing)
    M.check((by_name is nothing) == (p.get_value_for(name, nothing) is nothing), '%s: %s by name', what, name)
    if lk == name or lk not in fields:
        try:
            by_key = k.get_value_for(lk, nothing)
        except Exception as err:
            raise M.Mismatch('%s: get_value_for(%r, fallback) raises %r' % (what, lk, err))
        M.check(by_key is by_name, '%s: get_value_for(%r) and get_value_for(%r) differ', what, lk, name)
    return by_name


def check_access(o, p, k, K, fields, op, what):
    """Access by names and keys, and names that are no keys."""
    f = fields[op[1]]
    lk, dk = W.load_key(f), W.dump_key(f)
    by_name = check_reads(p, k, fields, op[1], what)
    nothing = M._NOTHING
    if by_name is nothing:
        reads = [(op[1], lambda: k.get_value_for(op[1])), (op[1], lambda: getattr(k, op[1]))]
        if lk not in fields:
            reads.append((lk, lambda: k.get_value_for(lk)))
        for used, read in reads:
            try:
                read()
            except o.FieldNotSet as err:
                M.check(err.name == used and err.field is getattr(K, op[1]) and err.schema is k,
                        '%s: FieldNotSet(%r, %r) for a field addressed as %r', what, err.name, err.field, used)
            else:
                raise M.Mismatch('%s: %s has a value by one way of reading only' % (what, op[1]))
    lks = {W.load_key(x) for x in fields.values()}
    M.check(getattr(K, op[1]).load_key == lk and getattr(K, op[1]).dump_key == dk, '%s: keys of the field', what)
    if dk not in fields and dk not in lks:
        try:
            k.get_value_for(dk)
        except RuntimeError:
            pass
        else:
            raise M.Mismatch('%s: get_value_for accepts the dump key %r' % (what, dk))
    for key in (op[1], dk):
        # a field name or dump key that is not a load key is an unknown key
        if key not in lks:
            c = k.copy()
            try:
                c.update({key: by_name}, ignore_extra=op[2])
            except o.ValidationError as err:
                M.check(not op[2] and err.raw() == {key: [M.UNKNOWN]}, '%s: update with %r: %r', what, key, err.raw())
            except o.FrozenError as err:
                M.check(err.entity is c, '%s: update with %r: %r', what, key, err)
            else:
                M.check(op[2], '%s: update accepts %r as a key', what, key)
                M.check(V.same(values(o, fields, c), values(o, fields, k)), '%s: update with %r changed something', what, key)
