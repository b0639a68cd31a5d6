"""P02: failed loads report every offending key, completely and exactly."""

from lib import model as M
from lib import ops
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-6 generated schemas (chains of nested schemas, inheritance, keys, validators with one or many '
        'messages) with raw mappings, updates and assignments. Non-trivial: a ValidationError with at least two errors or '
        'a nested error was compared.')
EXAMPLES = {'quick': 5000, 'thorough': 200000}
EFF = W.EFFECTS + ('FSN',)


def gen(src):
    deep = src.below(3)
    if deep == 2:
        specs = W.chain(src, src.pick([2, 3, 4, 5, 6, 8, 11]), main_fields=src.pick([None, 0, 1]), effects=EFF)
    else:
        specs = W.world(src, main_fields=src.pick([2, 3, 3, 4, 5, 6, 9, 30]), effects=EFF)
    by = W.by_name(specs)
    name = specs[-1]['name']
    loads = [(W.data(src, by, name, src.pick(['chaos', 'chaos', 'chaos', 'one'])), src.pick([None, None, None, True, False]))
             for _ in range(src.int(1, 2))]
    oks = [W.data(src, by, name, 'ok') for _ in range(2)]
    steps = []
    for _ in range(src.below(4)):
        if src.bool():
            steps.append(('update', W.data(src, by, name, 'chaos', partial=src.bool()), src.pick([None, None, True, False])))
        else:
            fields = W.resolve(by, name)
            if fields:
                f = src.pick(list(fields))
                steps.append(('assign', f, W.field_value(src, by, fields[f], src.pick(['near', 'near', 'any', 'ok']))))
    return specs, loads, oks, steps


def cases(tier):
    return strategy(gen)


def size(errs):
    n = 0
    for es in errs.by_key.values():
        for e in es:
            n += size(e) + 1 if isinstance(e, M.Errs) else 1
    return n


def run(o, case, rec):
    specs, loads, oks, steps = case
    w = W.World(o, specs)
    m = M.Model(w)
    name = specs[-1]['name']
    n = 0

    def see(errs, err, how):
        rec.checks += 1
        ops.check_error(m, name, err, errs)
        k = size(errs)
        rec.nt(k > 1)
        rec.label(how)
        rec.label('errors: %s' % (k if k < 4 else '4+'))

    for data, ignore in loads:
        obj, _, errs, err = ops.load(w, m, name, w.materialise(data), ignore)
        if err is not None:
            see(errs, err, 'init')
    obj, values = ops.first_ok(w, m, name, oks)
    if obj is None:
        return
    for op in steps:
        op = tuple(w.materialise(x) if i == (1 if op[0] == 'update' else 2) else x for i, x in enumerate(op))
        kind, _, errs, err = ops.apply(w, m, name, obj, op)
        if kind == 'error':
            see(errs, err, op[0])
