"""P06: dump emits exactly the selected set fields and changes nothing."""

from lib import model as M
from lib import ops
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy
from props.p03 import Pool

RULE = ('A case is 1-6 generated schemas (nesting, keys, custom serialization that may fail, unset fields, None), one instance, '
        'updates, and up to 5 dumps with include or exclude between them. Non-trivial: a dump that selects a proper '
        'non-empty part of the set fields, fails, or holds a nested instance.')
EXAMPLES = {'quick': 5000, 'thorough': 200000}


def dumpy(src):
    """Field kinds with an emphasis on serialization."""
    c = src.below(4)
    if c < 2:
        return W.flat_kind(src)
    return ('custom', src.pick(['fdump', 'fdump', 'double', 'csv', 'none2']))


def twins(fields, d):
    """Fields of one kind get equal values (often one object, see World.materialise)."""
    seen = {}
    for f in fields.values():
        k = W.load_key(f)
        if f['kind'][0] == 'obj' and d.get(k) is not None:
            d[k] = seen.setdefault(f['kind'], d[k])


def gen(src):
    opts = dict(validators=src.chance(4), kinds=dumpy)
    if src.below(3) == 2:
        specs = W.chain(src, src.int(2, 6), main_fields=src.pick([None, 1, 2]), **opts)
    else:
        specs = W.world(src, main_fields=src.pick([1, 2, 3, 4, 6, 12]), **opts)
    by = W.by_name(specs)
    name = specs[-1]['name']
    loads = [W.data(src, by, name, 'ok') for _ in range(3)]
    fields = W.resolve(by, name)
    if src.chance(3):
        for d in loads:
            if isinstance(d, dict):
                twins(fields, d)
    steps = []
    for _ in range(src.int(1, 5)):
        if src.below(4) == 3:
            steps.append(('update', W.data(src, by, name, 'ok', partial=True)))
        sel = None
        how = src.pick(['all', 'include', 'include', 'exclude', 'exclude', 'both'])
        if how != 'all':
            names = src.subset(list(fields), 0, len(fields))
            if src.chance(3):
                names += src.subset(list({W.load_key(f) for f in fields.values()} | {W.dump_key(f) for f in fields.values()}
                                         | {'nope', '', '_field_values'}), 1, 2)
            if names and src.chance(5):
                names.append(names[0])
            sel = src.pick(['list', 'tuple', 'set', 'list', 'iter', 'keys']), names
        steps.append(('dump', how, sel))
    return specs, loads, steps


def cases(tier):
    return strategy(gen)


def scribble(v, o):
    """Changes every container the dump made (dicts of nested schemas)."""
    for k in list(v):
        v[k] = 'scribbled'
    v['scribbled'] = 1


def shape(m, f, v):
    return f['kind'][0] == 'obj' and isinstance(v, M.MInst)


def run(o, case, rec):
    specs, loads, steps = case
    w = W.World(o, specs)
    m = M.Model(w)
    name = specs[-1]['name']
    pool = Pool(m)
    for d in loads:
        d = w.materialise(d)
        if not m.load(name, d)[1]:
            pool.track(w.cls[name](d))
            break
    if not pool.items:
        return
    e = pool.items[0]
    obj = e['obj']
    fields = m.fields(name)
    for n, op in enumerate(steps):
        what = 'step %d' % n
        if op[0] == 'update':
            data = w.materialise(op[1])
            try:
                obj.update(data)
            except o.ValidationError:
                continue
            pool = Pool(m)
            pool.track(obj)
            e = pool.items[0]
            continue
        rec.checks += 1
        _, how, sel = op
        kw = {}
        if sel is not None:
            seq = {'list': list, 'tuple': tuple, 'set': set, 'iter': iter, 'keys': dict.fromkeys}[sel[0]](sel[1])
            if how in ('include', 'both'):
                kw['include'] = seq
            if how in ('exclude', 'both'):
                kw['exclude'] = seq
        if how == 'both':
            try:
                obj.dump(**kw)
            except TypeError:
                pass
            else:
                raise M.Mismatch('include and exclude were accepted together')
            rec.label('include and exclude')
            pool.compare(what)
            continue
        inc = set(sel[1]) if how == 'include' else None
        exc_ = set(sel[1]) if how == 'exclude' else None
        res, exp = m.dump(name, e['values'], inc, exc_)
        try:
            out = obj.dump(**kw)
        except o.ValidationError as err:
            M.check(res == 'err', '%s: dump(%r) failed: %s, expected %r', what, kw, err.raw(), exp)
            ops.check_error(m, name, err, exp)
            rec.label('failed')
            rec.nt()
        else:
            M.check(res == 'ok', '%s: dump(%r) succeeded, expected errors %r', what, kw, exp)
            M.check(type(out) is dict, '%s: dump gave %r', what, type(out))
            M.check(V.same(out, exp), '%s: dump(%r) gave %r, expected %r', what, kw, out, exp)
            nested = False
            for fname, v in e['values'].items():
                if shape(m, fields[fname], v) and W.dump_key(fields[fname]) in out:
                    nested = True
                    inner = out[W.dump_key(fields[fname])]
                    M.check('scribbled' not in inner, '%s: dumps of nested schemas are one object', what)
                    scribble(inner, o)
            scribble(out, o)
            rec.label('succeeded ' + how)
            if nested:
                rec.label('nested')
            picked = len(exp)
            rec.nt(nested or 0 < picked < len(e['values']))
        pool.compare(what)
