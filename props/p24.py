"""P24: field copies and validator lists behave as independent lists."""

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-2 fields of any kind with any options and a history of up to 16 validator operations (functions, bound methods '
        'and Validator instances, raw or not, repeated, unknown or not callable), copies, attempts to put fields into schemas, and '
        'loads through initialization, update and assignment, compared with two lists per field. Non-trivial: a load that ran at '
        'least one validator of a field that was changed after a copy or after it was put into a schema.')
EXAMPLES = {'quick': 8000, 'thorough': 200000}
NV = 8       # validators: 0-2 functions, 3 bound method, 4 Validator, 5 raw Validator, 6 equal-comparing callable, 7 Range


def gen(src):
    counter = W.Counter()
    pool = []
    inner = W.schema_spec(src, 'Inner', {}, counter, nfields=2, validators=False)
    for i in range(src.int(1, 2)):
        objs = ['Inner'] if src.chance(4) else []
        f = W.field_spec(src, 'f', {'Inner': inner}, counter, objs=objs, validators=False, frozen=False,
                         kinds=lambda s: s.one(W.flat_kind, lambda r: ('int', True)))
        f['ctor'] = [src.below(NV) for _ in range(src.pick([0, 0, 1, 2]))]
        f['seq'] = src.pick(['list', 'tuple'])
        f['user'] = src.pick(['dict', 'slots']) if src.chance(3) else None
        if src.chance(3):
            f['extras'] = {'e': 1}
        f['values'] = [W.field_value(src, {'Inner': inner}, f, m) for m in ('ok', 'ok', 'near')] + [None]
        pool.append(f)
    fails = [src.chance(4) for _ in range(NV)]
    added = []
    steps = [('bind', 0, 'a', False)] if src.bool() else []
    for _ in range(src.int(2, 16)):
        c = src.below(18)
        n = src.below(6)
        raw = src.pick([None, None, True, False])
        if c < 4:
            v = src.below(NV)
            if added and src.chance(3):
                v, n = src.pick(added)[:2]
            steps.append(('add', n, v, raw))
            added.append((v, n, raw))
        elif c < 6:
            v = src.below(NV)
            if added and src.below(4):
                v, n, raw = src.pick(added)
            steps.append(('remove', n, v, raw))
        elif c == 6:
            steps.append(('clear', n, raw))
        elif c == 7:
            steps.append(('copy', n))
        elif c < 10:
            steps.append(('bind', n, src.pick(['a', 'b', 'f', 'x']), src.chance(6)))
        elif c < 17:
            steps.append(('load', src.below(5), src.pick(['init', 'init', 'update', 'assign']), src.below(4)))
        else:
            steps.append(('bad', n, src.pick([1, None, 'x', []])))
    return inner, pool, fails, steps


def cases(tier):
    return strategy(gen)


class Entry:
    """A field and what its lists should hold."""

    def __init__(self, field, spec, lists, bound=None, name=None):
        self.field, self.spec, self.lists = field, spec, lists
        self.bound, self.name = bound, name
        self.touched = False


class Validators:
    def __init__(self, o, fails):
        self.log = log = []
        self.o = o

        def act(i, value, ctx):
            log.append((i, value, ctx))
            if fails[i]:
                raise ValueError('v%d' % i)

        def fn(i):
            return lambda schema, value, ctx: act(i, value, ctx)

        class Holder:
            def check(self, schema, value, ctx):
                return act(3, value, ctx)

        class NonRaw(o.validate.Validator):
            def validate(self, value, ctx):
                return act(4, value, ctx)

        class Raw(o.validate.Validator, raw=True):
            def validate(self, value, ctx):
                return act(5, value, ctx)

        class Equal:
            def __call__(self, schema, value, ctx):
                return act(6, value, ctx)

            def __eq__(self, other):
                return type(other) is Equal

            __hash__ = None
        self.holder, self.Equal = Holder(), Equal

        class Pre(o.validate.Range):
            def validate(self, value, ctx):
                return act(7, value, ctx)
        self.fixed = {0: fn(0), 1: fn(1), 2: fn(2), 4: NonRaw(), 5: Raw(), 7: Pre(3)}

    def get(self, i):
        """Equal, though not always identical, at each call."""
        if i == 3:
            return self.holder.check
        if i == 6:
            return self.Equal()
        return self.fixed[i]

    def is_raw(self, i, raw):
        return {4: False, 5: True, 7: False}.get(i, bool(raw))


def kw_of(raw):
    return {} if raw is None else {'raw': raw}


def check_lists(vs, e, what):
    for raw in (True, False):
        got = list(e.field.walk_validators(raw=raw))
        M.check(len(got) == len(e.lists[raw]) and all(g == vs.get(i) for g, i in zip(got, e.lists[raw])),
                '%s: %s validators are %r, expected %r', what, 'raw' if raw else 'other', got, e.lists[raw])
    got = list(e.field.walk_validators())
    for i in range(NV):
        n = sum(g == vs.get(i) for g in got)
        M.check(n == (e.lists[True] + e.lists[False]).count(i), '%s: walk_validators() gives validator %d %d times', what, i, n)
    M.check(len(got) == len(e.lists[True]) + len(e.lists[False]), '%s: walk_validators() gives %r', what, got)


TAG = ['kept in the field']


def user_class(cls, w):
    """A user's field class on top of cls, as the spec being built wants it."""
    how = w.hooks['user']
    if how is None:
        return cls

    class User(cls):
        if how == 'slots':
            __slots__ = ('tag', '_own')

        def __init__(self, *args, **kw):
            self.tag = TAG
            super().__init__(*args, **kw)
            self._own = how

        def value_load(self, value, ctx):
            M.check(self.tag is TAG and self._own == how, 'attributes of the user class were lost')
            return super().value_load(value, ctx)
    return User


def check_options(e, what):
    f, field = e.spec, e.field
    if f.get('user'):
        M.check(getattr(field, 'tag', None) is TAG and getattr(field, '_own', None) == f['user'], '%s: attributes of the user class', what)
    M.check((field.none, field.required, field.frozen) == (f.get('none', False), W.is_required(f), False), '%s: options changed', what)
    M.check(field.has_default() == ('default' in f), '%s: default changed', what)
    if 'default' in f and f['default'][0] == 'v':
        M.check(V.same(field.default, f['default'][1]), '%s: default is %r', what, field.default)
    M.check(V.same(field.extras, f.get('extras', {})), '%s: extras are %r', what, field.extras)
    if e.bound is None:
        for attr in ('name', 'schema'):
            try:
                getattr(field, attr)
            except RuntimeError:
                continue
            raise M.Mismatch('%s: %s of an unbound field' % (what, attr))
    else:
        M.check(field.name == e.name and field.schema is e.bound, '%s: bound to %r of %r', what, field.name, field.schema)
        named = dict(f, name=e.name)
        M.check(field.load_key == W.load_key(named) and field.dump_key == W.dump_key(named), '%s: keys are %r, %r', what,
                field.load_key, field.dump_key)
        M.check(getattr(e.bound, e.name) is field, '%s: attribute of the schema', what)


def load(o, m, vs, fails, e, insts, step, what, rec):
    _, _, how, n = step
    f = dict(e.spec, name=e.name)
    v = m.w.materialise(e.spec['values'][n])
    key = W.load_key(f)
    # expected calls
    want = {True: list(e.lists[True]), False: []}
    errors = ['v%d' % i for i in e.lists[True] if fails[i]]
    final = None
    if v is None:
        if not f.get('none'):
            errors.append(M.NONE)
    else:
        res, final = m.load_value(f, v)
        if res == 'err':
            errors += final
        else:
            want[False] = list(e.lists[False])
            errors += ['v%d' % i for i in e.lists[False] if fails[i]]
    obj = insts.get(id(e.bound))
    if how != 'init' and obj is None:
        how = 'init'
    del vs.log[:]
    err = None
    try:
        if how == 'init':
            obj = e.bound({key: v})
            insts[id(e.bound)] = obj
        elif how == 'update':
            obj.update({key: v})
        else:
            setattr(obj, e.name, v)
    except o.ValidationError as exc:
        err = exc
    # a validator may be in both lists; then the calls are compared together
    both = [i for i in range(NV) if i in e.lists[True] and i in e.lists[False]]
    calls = [i for i, _, _ in vs.log]
    if not both:
        for raw in (True, False):
            got = [i for i in calls if i in e.lists[raw]]
            M.check(got == want[raw], '%s: %s validators ran: %r, expected %r', what, 'raw' if raw else 'other', got, want[raw])
    M.check(sorted(calls) == sorted(want[True] + want[False]), '%s: validators ran: %r, expected %r', what, calls, want)
    for i, x, ctx in vs.log:
        if i in e.lists[True] and i not in e.lists[False]:
            M.check(x is v, '%s: raw validator got %r', what, x)
    M.check(bool(errors) == (err is not None), '%s: %r expected, got %s', what, errors, err and err.raw())
    if err is not None:
        M.check(set(err.raw()) == {key}, '%s: errors %r', what, err.raw())
        M.compare_entries(errors, err.raw()[key], what + ': ')
    else:
        M.compare_value(m, obj.get_value_for(e.name), final, what)
    rec.nt(calls and e.touched)
    rec.label('load (%s) %s' % (how, 'failed' if err else 'ok'))


def run(o, case, rec):
    inner, pool, fails, steps = case
    vs = Validators(o, fails)
    w = W.World(o, [inner])
    m = M.Model(w)
    w.hooks['field_cls'] = lambda cls: user_class(cls, w)
    entries, insts = [], {}
    kept = []
    for f in pool:
        given = (list if f['seq'] == 'list' else tuple)(vs.get(i) for i in f['ctor'])
        lists = {True: [], False: []}
        for i in f['ctor']:
            lists[vs.is_raw(i, False)].append(i)
        spec = {k: v for k, v in f.items() if k not in ('ctor', 'seq')}
        w.hooks['user'] = f['user']
        kw_field = build(w, spec, given if f['ctor'] else None)
        if isinstance(given, list):
            kept.append((given, list(given)))
        entries.append(Entry(kw_field, spec, lists))
    for n, step in enumerate(steps):
        what = 'step %d %r' % (n, step)
        rec.checks += 1
        if step[0] == 'load':
            bound = [e for e in entries if e.bound is not None]
            if bound:
                load(o, m, vs, fails, bound[step[1] % len(bound)], insts, step, what, rec)
            continue
        e = entries[step[1] % len(entries)]
        if step[0] == 'add':
            e.field.add_validator(vs.get(step[2]), **kw_of(step[3]))
            e.lists[vs.is_raw(step[2], step[3])].append(step[2])
            e.touched = True
        elif step[0] == 'remove':
            e.field.remove_validator(vs.get(step[2]), **kw_of(step[3]))
            target = e.lists[vs.is_raw(step[2], step[3])]
            if step[2] in target:
                target.remove(step[2])
                e.touched = True
                rec.label('removed')
            else:
                rec.label('removed unknown')
        elif step[0] == 'clear':
            e.field.clear_validators(**kw_of(step[2]))
            for raw in (True, False):
                if step[2] is None or step[2] == raw:
                    del e.lists[raw][:]
            e.touched = True
        elif step[0] == 'copy':
            new = e.field.copy()
            M.check(type(new) is type(e.field) and new is not e.field, '%s: not a copy', what)
            entries.append(Entry(new, e.spec, {r: list(l) for r, l in e.lists.items()}))
            rec.label('copied a bound field' if e.bound else 'copied')
        elif step[0] == 'bind':
            attrs = {step[2]: e.field}
            if step[3]:
                attrs['second'] = e.field
            try:
                cls = type(o.Schema)('B%d' % n, (o.Schema,), attrs)
            except RuntimeError:
                M.check(e.bound is not None or step[3], '%s: refused', what)
                rec.label('refused reuse')
                if e.bound is None:
                    entries.remove(e)       # bound to a schema that never came to be
                    if not entries:
                        return
            else:
                M.check(e.bound is None and not step[3], '%s: a bound field was accepted again', what)
                e.bound, e.name = cls, step[2]
        else:
            for fn in (e.field.add_validator, e.field.remove_validator):
                try:
                    fn(step[2])
                except TypeError:
                    continue
                raise M.Mismatch('%s: accepted' % what)
        for k, e in enumerate(entries):
            check_lists(vs, e, '%s, field %d' % (what, k))
            check_options(e, '%s, field %d' % (what, k))
        for given, copy in kept:
            M.check(len(given) == len(copy) and all(a is b for a, b in zip(given, copy)), '%s: the given list of validators changed', what)
    for given, copy in kept:
        del given[:]
        for e in entries:
            check_lists(vs, e, 'after the caller changed the list')


def build(w, spec, given):
    orig = w.make_field

    def make(kind, kw):
        if given is not None:
            kw['validators'] = given
        return orig(kind, kw)
    w.make_field = make
    try:
        return w.build_field(spec)
    finally:
        del w.make_field
