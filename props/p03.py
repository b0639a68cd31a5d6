"""P03: updates and assignments are atomic, over histories of operations."""

from lib import model as M
from lib import ops as O
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas (frozen fields, validators that fail, raise foreign exceptions or abort) and a '
        'history of up to 14 operations on the instances and their nested instances; every instance is compared with '
        'the model after every operation. Non-trivial: at least one operation failed after another field of the '
        'same update had already been accepted, or one succeeded and one failed.')
EXAMPLES = {'quick': 4200, 'thorough': 160000}
EFF = W.EFFECTS + ('FG', 'FT', 'FK', 'FA', 'BX')


def value(src, by, f):
    c = src.below(9)
    if f['kind'] == ('custom', 'pick') and src.bool():
        return 'raise ' + src.pick(EFF)
    if c == 8 and f['kind'] != ('str', False):     # the text of an instance in the middle of an update is not settled
        return V.Ref(src.below(6), 'obj')
    return W.field_value(src, by, f, 'ok' if c < 4 else 'near' if c < 7 else 'any')


def update_data(src, by, name):
    fields = W.resolve(by, name)
    out = {}
    for fname in src.subset(list(fields), 0, len(fields)):
        out[W.load_key(fields[fname])] = value(src, by, fields[fname])
    if src.chance(4):
        for k in src.subset(W.EXTRA_KEYS, 1, 1):
            out.setdefault(k, T.atoms(src))
        if src.bool():
            out = dict(src.shuffle(list(out.items())))
    c = src.below(12)
    if c == 11:
        return V.BrokenMap(out, src.pick(['iter', 'get']), src.below(3))
    if c == 10:
        return V.UMap(out)
    return out


def gen(src):
    specs = W.world(src, main_fields=src.pick([2, 3, 4, 5, 7]), frozen=src.chance(3), effects=EFF,
                    inherit=src.bool())
    for s in specs:
        if src.chance(12):
            s['config'] = dict(s['config'] or {}, frozen=True)
    by = W.by_name(specs)
    name = specs[-1]['name']
    loads = [W.data(src, by, name, 'ok') for _ in range(3)]
    steps = []
    for _ in range(src.int(1, 14)):
        c = src.below(8)
        slot = src.pick([0, 0, 0, 1, 2])
        if c < 4:
            # the target schema is not known here: data for one of the schemas
            target = name if slot == 0 else src.pick(specs)['name']
            steps.append(('update', slot, target, update_data(src, by, target), src.pick([None, None, True, False])))
        elif c < 6:
            target = name if slot == 0 else src.pick(specs)['name']
            fields = W.resolve(by, target)
            if fields:
                fname = src.pick(list(fields))
                steps.append(('assign', slot, target, fname, value(src, by, fields[fname])))
        elif c == 6:
            steps.append(('copy', slot))
        else:
            steps.append(('dump', slot))
    inner = []
    if src.chance(3):
        # what validators and fields do meanwhile to another instance of the same schema
        fields = W.resolve(by, name)
        for _ in range(src.int(1, 4)):
            if src.bool() or not fields:
                inner.append(('update', update_data(src, by, name), src.pick([None, True])))
            else:
                fname = src.pick(list(fields))
                inner.append(('assign', fname, value(src, by, fields[fname])))
    return specs, loads, steps, inner


def cases(tier):
    return strategy(gen)


class Pool:
    def __init__(self, m):
        self.m = m
        self.items = []

    def track(self, obj):
        if any(e['obj'] is obj for e in self.items):
            return
        values = self.m.snapshot(obj)
        self.items.append({'obj': obj, 'name': self.m.name_of(obj), 'values': values})
        for v in values.values():
            if isinstance(v, M.MInst):
                self.track(v.obj)

    def compare(self, what):
        for i, e in enumerate(self.items):
            M.compare_values(self.m, e['name'], e['obj'], e['values'], 'after %s, instance %d (%s)' % (what, i, e['name']))
            for fname, v in e['values'].items():
                got = e['obj'].get_value_for(fname)
                if isinstance(v, (list, dict, set)):
                    M.check(got is v, 'after %s, instance %d: %s is another object than before', what, i, fname)
            M.check(e['obj'].context.is_initialized() and e['obj'].context.schema is e['obj'],
                    'after %s, instance %d: context changed', what, i)


class Bystander:
    """Another instance of the schema, changed by user code in the middle of operations."""

    def __init__(self, inner, rec):
        self.inner, self.rec = inner, rec
        self.obj, self.inside, self.turn, self.bad = None, True, 0, []

    def prepare(self, w, m, name, loads):
        self.w, self.m, self.name = w, m, name
        try:
            self.obj = O.first_ok(w, m, name, loads)[0]
        except (W.Abort, RuntimeError) + tuple(W.FOREIGN.values()):
            pass
        self.inside = False

    def hook(self, *args):
        if self.inside or self.obj is None or self.turn > 60:
            return
        op = self.inner[self.turn % len(self.inner)]
        self.turn += 1
        self.inside = True
        try:
            data = self.w.materialise(op[1] if op[0] == 'update' else op[2])
            before = self.m.snapshot(self.obj)
            try:
                kind, values = O.apply(self.w, self.m, self.name, self.obj,
                                       ('update', data, op[2]) if op[0] == 'update' else ('assign', op[1], data))[:2]
            except (W.Abort, RuntimeError) + tuple(W.FOREIGN.values()):
                kind, values = 'aborted', before
            M.compare_values(self.m, self.name, self.obj, values if kind == 'ok' else before, 'the other instance')
            self.rec.label('meanwhile: ' + kind)
        except M.Mismatch as exc:
            self.bad.append(exc)
        finally:
            self.inside = False


def run(o, case, rec):
    specs, loads, steps, inner = case
    busy = Bystander(inner, rec)
    w = W.World(o, specs, {k: busy.hook for k in ('validator', 'load', 'dump')} if inner else None)
    m = M.Model(w)
    name = specs[-1]['name']
    if inner:
        busy.prepare(w, m, name, loads)
    pool = Pool(m)
    for d in loads:
        d = w.materialise(d)
        try:
            with w.quietly():
                obj = w.cls[name](d)
        except (o.ValidationError, W.Abort) + tuple(W.FOREIGN.values()):
            continue
        pool.track(obj)
        break
    if not pool.items:
        return
    good = bad = False
    for n, op in enumerate(steps):
        cands = pool.items
        if op[0] in ('update', 'assign'):
            cands = [e for e in pool.items if e['name'] == op[2]]
            if not cands:
                continue
        e = cands[op[1] % len(cands)]
        obj = e['obj']
        what = 'step %d %s' % (n, op[0])
        rec.checks += 1
        if op[0] == 'copy':
            new = obj.copy()
            M.check(new is not obj and type(new) is type(obj), 'copy is not a new instance of the schema')
            pool.items.append({'obj': new, 'name': e['name'], 'values': dict(e['values'])})
        elif op[0] == 'dump':
            try:
                obj.dump()
            except (o.ValidationError, RecursionError, W.Abort, Exception):
                pass
        else:
            insts = [x['obj'] for x in pool.items]
            data = w.materialise(op[3] if op[0] == 'update' else op[4], insts)
            # what should happen
            fail = False
            errs = None
            try:
                if op[0] == 'update':
                    probe = data
                    if isinstance(data, V.BrokenMap):
                        probe = V.BrokenMap(data._d, data.how, data.n)
                    new, errs = m.update(e['name'], e['values'], probe, op[4])
                else:
                    new, errs = m.assign(e['name'], e['values'], op[3], data)
                fail = bool(errs)
                why = 'errors'
            except (M.MFrozen, W.Abort, RuntimeError) + tuple(W.FOREIGN.values()) as exc:
                fail, why = True, type(exc).__name__
            got = None
            try:
                if op[0] == 'update':
                    obj.update(data, **({} if op[4] is None else {'ignore_extra': op[4]}))
                else:
                    setattr(obj, op[3], data)
            except (o.ValidationError, o.FrozenError, W.Abort, RuntimeError) + tuple(W.FOREIGN.values()) as exc:
                got = exc
            M.check(fail == (got is not None), '%s: expected %s (%s), got %r', what, 'a failure' if fail else 'success',
                    errs, got)
            if fail:
                bad = True
                rec.label('failed: ' + why)
                if op[0] == 'update' and len(data._d if isinstance(data, V.UMap) else data) > 1:
                    rec.nt()
            else:
                good = True
                rec.label('succeeded: ' + op[0])
                M.compare_values(m, e['name'], obj, new, what)
                given = {W.load_key(f) for f in m.fields(e['name']).values()} & set(data) if op[0] == 'update' else set()
                for fname, f in m.fields(e['name']).items():
                    changed = (W.load_key(f) in given) if op[0] == 'update' else fname == op[3]
                    if not changed and fname in e['values']:
                        continue
                    got_v = obj.get_value_for(fname, M._NOTHING)
                    if got_v is not M._NOTHING:
                        e['values'][fname] = M.MInst(m.name_of(got_v), obj=got_v) if isinstance(got_v, o.Schema) else got_v
                        if isinstance(got_v, o.Schema):
                            pool.track(got_v)
        pool.compare(what)
        if busy.bad:
            raise busy.bad[0]
    rec.nt(good and bad)
    rec.label('instances: %s' % (len(pool.items) if len(pool.items) < 4 else '4+'))
