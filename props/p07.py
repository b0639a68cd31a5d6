"""P07: dumping and loading again gives an equal instance."""

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-7 generated schemas whose dump keys are their load keys (all field kinds, custom fields with inverse '
        'serialization, nesting), an instance and some updates; after each step dump -> load -> dump. Non-trivial: an '
        'instance with at least two set fields or a nested instance made the round trip.')
EXAMPLES = {'quick': 5000, 'thorough': 200000}


def kinds(src):
    c = src.below(6)
    return ('custom', src.pick(['double', 'csv', 'none2', 'pick'])) if c == 5 else W.flat_kind(src)


def tidy(src, specs):
    for s in specs:
        for f in s['fields']:
            key = W.load_key(f)
            for k in ('load_key', 'dump_key', 'data_key'):
                f.pop(k, None)
            if key != f['name']:
                if src.bool():
                    f['data_key'] = key
                else:
                    f['load_key'] = f['dump_key'] = key
            if f['kind'] == ('custom', 'fdump'):
                f['kind'] = ('custom', 'pick')
            # raw validators see other raw values the second time
            f['vals'] = [v for v in f.get('vals', ()) if not v[1]]
            if f['kind'] == ('custom', 'none2'):
                f['vals'] = []      # None itself is not validated, its raw form is
            if 'default' in f:
                f['vals'] = []      # defaults are not validated
                k = f['kind'][0]
                if k in ('custom', 'obj') or src.chance(4):
                    f['none'] = True
                    f['default'] = (f['default'][0], None)
                else:
                    d = T.valid(src, W.type_of_kind(f['kind']))
                    f['default'] = (f['default'][0], d)
                    f['none'] = f.get('none', False) or d is None
    return specs


def gen(src):
    if src.bool():
        specs = W.chain(src, src.int(2, 7), kinds=kinds, validators=src.chance(3))
    else:
        specs = W.world(src, main_fields=src.pick([1, 2, 3, 4, 6]), kinds=kinds, validators=src.chance(3))
    specs = tidy(src, specs)
    by = W.by_name(specs)
    name = specs[-1]['name']
    loads = [W.data(src, by, name, 'ok') for _ in range(3)]
    steps = [W.data(src, by, name, 'ok', partial=True) for _ in range(src.below(3))]
    return specs, loads, steps


def cases(tier):
    return strategy(gen)


def values(m, obj):
    out = {}
    for fname, v in m.snapshot(obj).items():
        out[fname] = values(m, v.obj) if isinstance(v, M.MInst) else v
    return out


def exact(m, obj):
    """Every nested instance is of the very schema of its field."""
    fields = m.fields(m.name_of(obj))
    for fname, v in m.snapshot(obj).items():
        if isinstance(v, M.MInst):
            f = fields[fname]
            if f['kind'][0] == 'obj' and m.name_of(v.obj) != f['kind'][1]:
                return False
            if not exact(m, v.obj):
                return False
    return True


def nested(m, obj):
    return any(isinstance(v, M.MInst) for v in m.snapshot(obj).values())


def trip(o, m, cls, obj, rec, what):
    rec.checks += 1
    try:
        d1 = obj.dump()
    except o.ValidationError as err:
        raise M.Mismatch('%s: dump failed: %s' % (what, err.raw()))
    before = values(m, obj)
    try:
        again = cls(d1)
    except o.ValidationError as err:
        raise M.Mismatch('%s: the dump %r was rejected: %s' % (what, d1, err.raw()))
    after = values(m, again)
    M.check(V.same(before, after), '%s: values %r became %r (dump %r)', what, before, after, d1)
    d2 = again.dump()
    M.check(V.same(d1, d2), '%s: dump %r became %r', what, d1, d2)
    # loading the dump into an existing instance gives the same, too
    if obj.dump():
        other = again.copy()
        other.update(d1)
        M.check(V.same(values(m, other), before), '%s: updating with the dump gives %r, not %r', what, values(m, other), before)
    rec.nt(len(before) > 1 or nested(m, obj))
    rec.label('nested' if nested(m, obj) else 'flat')
    rec.label('depth %d' % depth(before))


def depth(v):
    return 1 + max([depth(x) for x in v.values() if isinstance(x, dict)], default=0)


def run(o, case, rec):
    specs, loads, steps = case
    w = W.World(o, specs)
    m = M.Model(w)
    name = specs[-1]['name']
    cls = w.cls[name]
    obj = None
    for d in loads:
        try:
            obj = cls(w.materialise(d))
            break
        except o.ValidationError:
            pass
    if obj is None or not exact(m, obj):
        return
    trip(o, m, cls, obj, rec, 'after loading')
    for n, data in enumerate(steps):
        try:
            obj.update(w.materialise(data))
        except o.ValidationError:
            continue
        if not exact(m, obj):
            return
        trip(o, m, cls, obj, rec, 'after update %d' % n)
