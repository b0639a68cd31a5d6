"""P14: a nested schema behaves exactly as the schema on its own."""

from lib import model as M
from lib import ops
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-5 generated schemas, the last one wrapped in 1-4 levels of Object fields (keys, init_kwargs, '
        'configurations of the outer schemas), and up to 5 values, each given to the schema alone and at every level on '
        'initialization, update and assignment; outcomes, values, errors, printed errors, hook and validator calls and dumps are '
        'compared. Non-trivial: a mapping that is rejected, or accepted with at least one field set.')
EXAMPLES = {'quick': 3600, 'thorough': 150000}
KEYS = ['inner', 'x', 'Key', '', 'a b', 'class', '\u00e9']


def dumpy(src):
    c = src.below(5)
    return W.flat_kind(src) if c < 4 else ('custom', src.pick(['fdump', 'csv', 'none2', 'pick']))


def gen(src):
    opts = dict(kinds=dumpy)
    specs = W.chain(src, src.int(1, 4), **opts) if src.bool() else W.world(src, **opts)
    for s in specs:
        if src.chance(6):
            s['pre'] = src.pick(list(W.PRE))
        if src.chance(4):
            s['post'] = True
        if src.chance(5):
            s['config'] = dict(s.get('config') or {}, frozen=True)
    own = src.chance(4)
    if own:
        specs[-1]['kwinit'] = True
    by = W.by_name(specs)
    name = specs[-1]['name']
    sub = None
    if src.chance(3):
        counter = W.Counter()
        counter.n = 1000
        s = W.schema_spec(src, 'Sub', by, counter, bases=[name], nfields=src.int(0, 2), **opts)
        trial = dict(by, Sub=s)
        if W.consistent(trial, 'Sub'):
            specs = specs + [s]
            by = trial
            sub = 'Sub'
    levels = []
    for i in range(src.pick([1, 1, 2, 2, 3, 4])):
        levels.append((src.pick(KEYS), src.pick([None, 'load', 'dump', 'data']), src.pick([None, None, True, False])))
    kw = {}
    c = src.below(5)
    if c == 3:
        kw['ignore_extra'] = src.bool()
    if c == 4:
        kw['state'] = src.pick([{'k': 1}, 'state', None, [1]])
        if src.bool():
            kw['ignore_extra'] = src.bool()
    if own and src.below(4):
        kw['flavour'] = src.pick(['sweet', 0, None, {}])
    values = []
    for _ in range(src.int(1, 5)):
        c = src.below(9)
        if c < 6:
            values.append(W.data(src, by, name, src.pick(['ok', 'one', 'chaos'])))
        elif c == 6:
            values.append(V.Inst(sub or name, W.data(src, by, sub or name, 'ok')))
        elif c == 7:
            values.append(V.Inst(name, W.data(src, by, name, 'ok')))
        else:
            others = [s['name'] for s in specs if name not in W.mro(by, s['name'])]
            if others and src.bool():
                other = src.pick(others)
                values.append(V.Inst(other, W.data(src, by, other, 'ok')))
            else:
                values.append(T.anyval(src))
    base = [W.data(src, by, name, 'ok') for _ in range(2)]
    okw = {}
    if src.chance(3):
        okw['state'] = src.pick(['outer', {'o': 1}, {}])
    if src.chance(3):
        okw['ignore_extra'] = src.bool()
    return specs, name, levels, kw, src.pick(['dict', 'umap']), values, base, okw


def cases(tier):
    return strategy(gen)


def equal(o, a, b, path='value'):
    """Instances with equal values in all fields (instances inside: the same or equal)."""
    if a is b:
        return
    if isinstance(a, o.Schema) or isinstance(b, o.Schema):
        M.check(type(a) is type(b), '%s: %r and %r', path, type(a), type(b))
        names = set()
        for n in dir(type(a)):
            if isinstance(getattr(type(a), n, None), o.fields.Field):
                names.add(n)
        for n in names:
            x, y = a.get_value_for(n, M._NOTHING), b.get_value_for(n, M._NOTHING)
            M.check((x is M._NOTHING) == (y is M._NOTHING), '%s.%s: %r and %r', path, n, x, y)
            equal(o, x, y, path + '.' + n)
        M.check(a.context.is_initialized() == b.context.is_initialized(), '%s: initialized differs', path)
        return
    M.check(V.same(a, b), '%s: %r and %r', path, a, b)


def events(w):
    """What user code saw: (kind, id, type of value)."""
    out = []
    for ev in w.log:
        if ev[0] == 'val':
            out.append((ev[0], ev[1], ev[3], type(ev[4]).__name__, V.text(ev[2]) if not isinstance(ev[2], w.o.Schema) else type(ev[2])))
        elif ev[0] in ('load', 'dump'):
            out.append((ev[0], ev[1], V.text(ev[2])))
        elif ev[0] == 'default':
            out.append((ev[0], ev[1]))
        elif ev[0] == 'init':
            out.append((ev[0], type(ev[1]).__name__, V.text(ev[2])))
        else:
            out.append((ev[0], type(ev[1]).__name__))
    return out


def tree(errors):
    """What the errors are made of, order aside."""
    out = []
    for e in errors:
        if isinstance(e.message, dict):
            out.append((e.key, None, {k: tree(v) for k, v in e.message.items()}, V.text(e.state)))
        else:
            out.append((e.key, str(e.message), None, V.text(e.state)))
    return sorted(out, key=repr)



def lines(text):
    got = [M._PREFIX.sub('', l) for l in text.split('\n')]
    return [l for l in got if l]


def compare_error(w, outer_err, inner_err, path):
    """path: list of (key, field name), outermost first."""
    raw, errs = outer_err.raw(), outer_err.errors
    for i, (key, fname) in enumerate(path):
        M.check(list(raw) == [key], 'nested at %r: errors under %r', key, raw)
        M.check(len(raw[key]) == 1 and isinstance(raw[key][0], dict), 'nested at %r: %r', key, raw)
        M.check(len(errs) == 1 and errs[0].key == key, 'nested at %r: errors %r', key, errs)
        msg = errs[0].message
        M.check(isinstance(msg, dict), 'nested at %r: message %r', key, msg)
        raw, errs = raw[key][0], [e for v in msg.values() for e in v]
    exp = inner_err.raw()
    M.check(set(raw) == set(exp) and all(sorted(map(repr, raw[k])) == sorted(map(repr, exp[k])) for k in exp),
            'nested errors %r, alone %r', raw, exp)
    M.check(tree(errs) == tree(inner_err.errors), 'nested errors %r, alone %r', tree(errs), tree(inner_err.errors))
    want = lines(str(inner_err))[1:]
    for key, fname in path:
        want.append(M._PREFIX.sub('', 'In field %s:' % key if key == fname else 'In field %s (%s):' % (key, fname)))
    M.check(sorted(lines(str(outer_err))[1:]) == sorted(want), 'printed: %s\nalone: %s', outer_err, inner_err)


def run(o, case, rec):
    specs, name, levels, kw, kwkind, values, base, okw = case
    ukw = {k: v for k, v in okw.items() if k == 'ignore_extra'}
    w = W.World(o, specs)
    m = M.Model(w)
    inner = w.cls[name]
    state = kw.get('state')
    outers = []      # (class, load key, dump key)
    target = inner
    for i, (key, how, cfg) in enumerate(levels):
        opts = {}
        lk = dk = 'f'
        if how == 'load':
            opts['load_key'] = lk = key
        elif how == 'dump':
            opts['dump_key'] = dk = key
        elif how == 'data':
            opts['data_key'] = lk = dk = key
        if i == 0 and kw:
            opts['init_kwargs'] = V.UMap(kw) if kwkind == 'umap' else dict(kw)
        attrs = {'f': o.fields.Object(target, **opts)}
        if cfg is not None:
            attrs['Config'] = type('Config', (o.SchemaConfig,), {'ignore_extra': cfg})
        target = type(o.Schema)('Outer%d' % i, (o.Schema,), attrs)
        outers.append((target, lk, dk))

    def wrap(v, depth):
        for _, lk, _ in outers[:depth]:
            v = {lk: v}
        return v

    def unwrap(obj, depth):
        for _ in range(depth):
            obj = obj.f
        return obj

    holder = None
    for b in base:
        b = w.materialise(b)
        try:
            holder = inner(b)
            break
        except o.ValidationError:
            pass
    for v in values:
        v = w.materialise(v)
        rec.checks += 1
        is_map = isinstance(v, M.collections.abc.Mapping)
        is_inst = isinstance(v, inner)
        del w.log[:]
        alone = alone_err = None
        if is_inst:
            alone = v
        elif is_map:
            try:
                alone = inner(v, **kw)
            except o.ValidationError as err:
                alone_err = err
        alone_events = events(w)
        for depth in range(1, len(outers) + 1):
            path = [(lk, 'f') for _, lk, _ in reversed(outers[:depth])]
            attempts = ['init', 'update', 'assign'] if holder is not None else ['init']
            for how in attempts:
                data = wrap(v, depth)
                top = outers[depth - 1][0]
                obj = None
                if how != 'init':
                    # a fresh outer instance that holds another instance
                    obj = top(wrap(holder, depth), **okw)
                del w.log[:]
                err = None
                try:
                    if how == 'init':
                        obj = top(data, **okw)
                    elif how == 'update':
                        obj.update(data, **ukw)
                    else:
                        obj.f = wrap(v, depth - 1)
                except o.ValidationError as e:
                    err = e
                what = '%s at depth %d' % (how, depth)
                if alone is not None:
                    M.check(err is None, '%s: rejected: %s', what, err)
                    got = unwrap(obj, depth)
                    if is_inst:
                        M.check(got is v, '%s: the given instance was not kept', what)
                    else:
                        M.check(got is not v and type(got) is inner, '%s: holds %r', what, got)
                        equal(o, got, alone, what)
                        M.check(got.context.schema is got and got.context.state is state, '%s: context state %r', what, got.context.state)
                    M.check(events(w) == alone_events, '%s: user code saw %r, alone %r', what, events(w), alone_events)
                    rec.label('instance' if is_inst else 'accepted')
                    rec.nt(not is_inst and len(m.snapshot(alone)) > 0)
                    compare_dump(o, obj, got, outers[:depth], what, rec)
                else:
                    M.check(err is not None, '%s: accepted %r, alone: %s', what, v, alone_err and alone_err.raw())
                    if alone_err is not None:
                        M.check(events(w) == alone_events, '%s: user code saw %r, alone %r', what, events(w), alone_events)
                        compare_error(w, err, alone_err, path)
                        rec.label('rejected')
                        rec.nt()
                    elif v is not None:
                        raw = err.raw()
                        for key, _ in path:
                            M.check(list(raw) == [key] and len(raw[key]) == 1, '%s: %r', what, err.raw())
                            raw = raw[key][0]
                        M.check(raw == 'Value must be a %s object' % name, '%s: message %r', what, raw)
                        rec.label('neither mapping nor instance')
                    if how != 'init':
                        M.check(unwrap(obj, depth) is holder, '%s: failed, but the held instance changed', what)


def compare_dump(o, obj, got, outers, what, rec):
    try:
        alone, alone_err = got.dump(), None
    except o.ValidationError as e:
        alone, alone_err = None, e
    try:
        out, err = obj.dump(), None
    except o.ValidationError as e:
        out, err = None, e
    M.check((err is None) == (alone_err is None), '%s: dump failed: %s, alone: %s', what, err, alone_err)
    if err is None:
        exp = alone
        for _, _, dk in outers:
            exp = {dk: exp}
        M.check(V.same(out, exp), '%s: dump gives %r, expected %r', what, out, exp)
    else:
        compare_error(None, err, alone_err, [(lk, 'f') for _, lk, _ in reversed(outers)])
        rec.label('dump fails')
