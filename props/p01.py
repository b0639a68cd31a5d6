"""P01: a schema admits exactly the valid data and holds exactly the right values."""

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas (all field kinds, nesting, inheritance, keys, defaults, validators) and 2-4 raw '
        'mappings for the last one: valid, one-off and arbitrary. Non-trivial: the schema has a field and the case has '
        'both an accepted and a rejected mapping, or a nested/inherited schema that was loaded.')
EXAMPLES = {'quick': 6000, 'thorough': 240000}


def gen(src):
    specs = W.world(src, main_fields=src.pick([None, None, None, None, None, None, None, 8, 30]))
    by = W.by_name(specs)
    name = specs[-1]['name']
    if src.chance(5):
        specs[-1]['pre'] = src.pick(sorted(W.PRE))
    loads = []
    for mode in src.pick([('ok', 'one'), ('ok', 'chaos'), ('ok', 'one', 'one'), ('chaos', 'ok', 'ok'),
                          ('one', 'one', 'ok', 'chaos')]):
        loads.append((W.data(src, by, name, mode), src.pick([None, None, None, True, False])))
    return specs, loads


class Duck:
    """Has the methods of a mapping, but is none."""

    def __init__(self, d):
        self.items, self.keys, self.values, self.get = d.items, d.keys, d.values, d.get
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def cases(tier):
    return strategy(gen)


def run(o, case, rec):
    specs, loads = case
    w = W.World(o, specs)
    m = M.Model(w)
    name = specs[-1]['name']
    cls = w.cls[name]
    oks = bads = 0
    for data, ignore in loads:
        data = w.materialise(data)
        values, errs = m.load(name, data, ignore)
        kw = {} if ignore is None else {'ignore_extra': ignore}
        rec.checks += 1
        try:
            obj = cls(data, **kw)
        except o.ValidationError as err:
            M.check(errs, 'valid data was rejected: %r -> %s', data, err.raw())
            M.check(type(err) is o.ValidationError, 'unexpected error class')
            bads += 1
        else:
            M.check(not errs, 'invalid data was accepted: %r (expected %r)', data, errs)
            M.compare_values(m, name, obj, values)
            oks += 1
    # only mappings are data
    for bad in ([], None, 'x', [('a', 1)], Duck({W.load_key(f): 1 for f in m.fields(name).values()})):
        try:
            cls(bad)
        except TypeError:
            pass
        else:
            raise M.Mismatch('non-mapping %r accepted' % (bad,))
    rec.nt(m.fields(name) and ((oks and bads) or (len(specs) > 1 and oks)))
    rec.label('accepted+rejected' if oks and bads else 'accepted only' if oks else 'rejected only')
    if any(f['kind'][0] == 'obj' for f in m.fields(name).values()):
        rec.label('nested')
    if specs[-1]['bases']:
        rec.label('inherited')
    if len(m.fields(name)) > 6:
        rec.label('many fields')
    for f in m.fields(name).values():
        rec.label('kind ' + f['kind'][0])
