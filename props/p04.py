"""P04: update, assignment and initialization judge a value alike."""

from lib import model as M
from lib import ops
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-3 generated schemas, valid data for the last one and 1-4 (field, value) probes plus whole mappings. '
        'Each probe is given on initialization, by update and by assignment on equal instances, and outcome, value, '
        'messages and validator calls are compared with each other and with the model. Non-trivial: a probe that is '
        'rejected, coerced, None or has validators.')
EXAMPLES = {'quick': 4500, 'thorough': 180000}


def gen(src):
    specs = W.world(src, main_fields=src.pick([1, 1, 2, 3, 4]), max_schemas=3)
    by = W.by_name(specs)
    name = specs[-1]['name']
    fields = W.resolve(by, name)
    base = [W.data(src, by, name, 'ok') for _ in range(3)]
    probes = []
    if fields:
        for _ in range(src.int(1, 4)):
            f = src.pick(list(fields))
            v = None if src.chance(6) else W.field_value(src, by, fields[f], src.pick(['ok', 'near', 'near', 'any']))
            probes.append((f, v))
    whole = [(W.data(src, by, name, src.pick(['chaos', 'ok', 'one'])), src.pick([None, None, True, False]))
             for _ in range(src.below(3))]
    return specs, base, probes, whole


def cases(tier):
    return strategy(gen)


def attempt(w, cls, fn):
    """(exception or None, validator calls [(id, raw, type name of the value)])"""
    del w.log[:]
    try:
        fn()
        exc = None
    except w.o.ValidationError as err:
        exc = err
    calls = [(ev[1], ev[3], type(ev[2]).__name__) for ev in w.log if ev[0] == 'val' and type(ev[4]) is cls]
    return exc, calls


def norm(entries):
    return sorted(map(repr, entries))


def per_value(calls, vids):
    return [c for c in calls if c[0] in vids and c[1]], [c for c in calls if c[0] in vids and not c[1]]


def vids_of(f):
    out = set()

    def walk(rule):
        if rule[0] == 'fn':
            out.add(rule[1])
        elif rule[0] == 'or':
            for r in rule[1]:
                walk(r)
    for _, _, rule in f.get('vals', ()):
        walk(rule)
    return out


def run(o, case, rec):
    specs, base, probes, whole = case
    w = W.World(o, specs)
    m = M.Model(w)
    name = specs[-1]['name']
    cls = w.cls[name]
    fields = m.fields(name)
    ok = None
    for d in base:
        if not m.load(name, w.materialise(d))[1]:
            ok = d
            break

    def fresh():
        return cls(w.materialise(ok))

    if ok is not None:
        for fname, v in probes:
            f = fields[fname]
            key = W.load_key(f)
            v = w.materialise(v)
            vids = vids_of(f)
            res, exp = m.judge(f, v)
            holder = []
            data = dict(w.materialise(ok))
            data[key] = v

            def by_init():
                holder[:] = [cls(data)]

            outcomes = []
            for how in ('init', 'update', 'assign'):
                rec.checks += 1
                if how != 'init':
                    holder[:] = [fresh()]
                obj = holder[0] if holder else None
                exc, calls = attempt(w, cls, by_init if how == 'init' else (lambda: obj.update({key: v})) if how == 'update'
                                     else (lambda: setattr(obj, fname, v)))
                M.check((exc is None) == (res == 'ok'), '%s of %r for %s %s, expected %s %r', how, v, fname,
                        'succeeded' if exc is None else 'failed: %s' % exc.raw(), res, exp)
                if exc is None:
                    obj = holder[0]
                    got = obj.get_value_for(fname, M._NOTHING)
                    M.compare_value(m, got, exp, '%s by %s' % (fname, how))
                    if f['kind'][0] in ('list', 'dict', 'set', 'any', 'expr', 'td', 'lit', 'union') and v is not None:
                        M.check(got is v, '%s by %s: not the given object', fname, how)
                    sig = None
                else:
                    raw = exc.raw()
                    M.check(set(raw) == {key}, '%s of %r: errors under %r', how, v, sorted(map(str, raw)))
                    M.compare_entries(exp, raw[key], '%s %s: ' % (how, fname))
                    sig = norm(raw[key])
                outcomes.append((how, sig, per_value(calls, vids)))
            first = outcomes[0]
            for other in outcomes[1:]:
                M.check(other[1] == first[1], '%r for %s: %s gives %r, %s gives %r', v, fname, first[0], first[1], other[0], other[1])
                M.check(other[2] == first[2], '%r for %s: validators called on %s: %r, on %s: %r', v, fname, first[0], first[2],
                        other[0], other[2])
            rec.nt(res == 'err' or v is None or vids or not V.same(exp, v))
            rec.label('probe ' + ('None ' if v is None else '') + res)
            if vids:
                rec.label('with validators')
            if f['kind'][0] == 'obj':
                rec.label('nested')

        # whole mappings: the same errors but for missing fields
        for data, ignore in whole:
            data = w.materialise(data)
            kw = {} if ignore is None else {'ignore_extra': ignore}
            e1, c1 = attempt(w, cls, lambda: cls(data, **kw))
            obj = fresh()
            e2, c2 = attempt(w, cls, lambda: obj.update(data, **kw))
            missing = {W.load_key(f) for f in fields.values() if W.is_required(f)} - set(data)
            r1 = {k: norm(v) for k, v in e1.raw().items() if k not in missing} if e1 else {}
            r2 = {k: norm(v) for k, v in e2.raw().items()} if e2 else {}
            M.check(r1 == r2, 'data %r: initialization reports %r, update %r', data, r1, r2)
            M.check(sorted(c1) == sorted(c2), 'data %r: validators called on initialization %r, on update %r', data, c1, c2)
            rec.checks += 1
            rec.label('whole mapping ' + ('rejected' if e2 else 'accepted'))
            rec.nt(e2)
