"""P19: error customisation is honoured for every error of every field."""

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas whose fields override format_error with generated reactions (None, the super call, a '
        'string, a FieldError with state, a FieldError with several messages) per error code, validators that raise errors with '
        'state, optionally a custom validation error class, and up to 5 operations. Messages, states, the contexts seen by '
        'format_error and the class of the exception are compared with the expected ones. Non-trivial: an error was customised, '
        'carried a state, or was raised as a custom class.')
EXAMPLES = {'quick': 4500, 'thorough': 180000}
CODES = ['ERR_FIELD_REQUIRED', 'ERR_NONE_DISALLOWED', 'ERR_VALIDATION_FAILED', 'ERR_INVALID_DATATYPE', 'ERR_COERCION_FAILED',
         'ERR_INVALID_VALUE', 'ERR_TYPE_VALIDATION_FAILED']
STRUCTS = ('dict', 'list', 'set', 'td')


def action(src, code):
    c = src.below(6)
    if c == 0:
        return None
    if c == 1:
        return ('super',)
    if c < 4:
        return ('str', '' if src.chance(4) else 'custom %s' % code[4:])
    if c == 4:
        return ('fe', '' if src.chance(5) else 'fe %s' % code[4:], src.pick([None, {'code': 1}, 7, [], 0]), src.bool())
    return ('fel', ['l1 %s' % code[4:], 'l2 %s' % code[4:]][:src.int(1, 2)], src.pick([None, {'code': 1}]), src.bool(), src.bool())


def gen(src):
    opts = dict(effects=W.EFFECTS + ('VE0', 'AE0', 'FES', 'FLS', 'FSN'), main_fields=src.pick([1, 2, 3, 4]))
    specs = W.chain(src, src.int(2, 3), **opts) if src.chance(3) else W.world(src, **opts)
    for s in specs:
        for f in s['fields']:
            if f.get('vals'):
                # messages of errors with state tell their state
                f['vals'] = [(how, raw, stated(rule)) for how, raw, rule in f['vals']]
    by = W.by_name(specs)
    name = specs[-1]['name']
    tables = []
    for _ in range(src.int(1, 3)):
        codes = src.subset(CODES, 0, len(CODES))
        tables.append({c: action(src, c) for c in codes})
    steps = []
    for _ in range(src.int(1, 5)):
        target = src.pick([name, name, src.pick(specs)['name']])
        fields = W.resolve(by, target)
        c = src.below(6)
        if c < 3 or not fields:
            steps.append(('init', target, W.data(src, by, target, src.pick(['chaos', 'chaos', 'one']))))
        elif c == 3:
            steps.append(('update', target, W.data(src, by, target, src.pick(['chaos', 'one']), partial=True)))
        elif c == 4:
            f = src.pick(list(fields))
            steps.append(('assign', target, f, None if src.chance(4) else W.field_value(src, by, fields[f], 'near')))
        else:
            d = dict(W.data(src, by, target, 'ok'))
            for f in fields.values():
                if f['kind'] == ('custom', 'fdump') and src.bool():
                    d[W.load_key(f)] = 'dump ' + src.pick(['VE0', 'AE0', 'VE', 'FEL'])
            steps.append(('dump', target, d))
    bases = {s['name']: [W.data(src, by, s['name'], 'ok') for _ in range(2)] for s in specs}
    return specs, tables, src.pick([None, None, 'plain', 'raw', 'sub']), bases, steps


def stated(rule):
    if rule[0] == 'or':
        return ('or', tuple(stated(r) for r in rule[1]))
    if rule[0] == 'fn' and rule[3][0] in ('FES', 'FLS'):
        return rule[:3] + ((rule[3][0], 'st ' + rule[1]),)
    return rule


def cases(tier):
    return strategy(gen)


def code_of(f, entry):
    """The name of the error code of an expected error (None: raised by user code)."""
    k = f['kind'][0]
    if isinstance(entry, M.TypeMsgs):
        return 'ERR_INVALID_VALUE' if k in ('lit', 'union') else 'ERR_TYPE_VALIDATION_FAILED'
    if entry == M.REQUIRED:
        return 'ERR_FIELD_REQUIRED'
    if entry == M.NONE:
        return 'ERR_NONE_DISALLOWED'
    if entry == W.FAILED:
        return 'ERR_VALIDATION_FAILED'
    if k == 'obj' and entry == 'Value must be a %s object' % f['kind'][1] or entry == M.DATATYPE.get(k):
        return 'ERR_INVALID_DATATYPE'
    if entry.startswith('Failed to coerce '):
        return 'ERR_COERCION_FAILED'
    return None


class Checker:
    def __init__(self, o, specs, tables, rec):
        self.o, self.tables, self.rec = o, tables, rec
        self.calls = []
        self.w = W.World(o, specs, {'field_cls': self.wrap})
        self.m = M.Model(self.w)

    def table(self, field):
        return self.tables[len(field.name) % len(self.tables)]

    def wrap(self, cls):
        checker, o = self, self.o

        class Wrapped(cls):
            def format_error(self, error_code, context):
                checker.calls.append((self, error_code, context))
                mark = context.metadata.setdefault('mark', context)
                M.check(mark is context, 'the metadata of %s is that of an earlier error', error_code)
                names = [c for c in CODES if getattr(self, c, None) == error_code]
                M.check(len(names) == 1, 'format_error got error code %r', error_code)
                act = checker.table(self).get(names[0])
                if act is None:
                    return None
                if act[0] == 'super':
                    return super().format_error(error_code, context)
                if act[0] == 'str':
                    return V.StrSub(act[1]) if len(act[1]) % 3 else act[1]
                cls = W.stated_error(o) if act[-1] else o.FieldError
                if act[0] == 'fe':
                    return cls(act[1], act[2])
                return cls(tuple(act[1]) if act[3] else list(act[1]), state=act[2])
        Wrapped.__name__ = cls.__name__
        return Wrapped

    def verify(self, errors, exp, name, given, finals, what):
        """given: raw values by key; finals: loaded values by field name."""
        m, w = self.m, self.w
        by_key = {W.load_key(f): f for f in m.fields(name).values()}
        M.check({e.key for e in errors} == set(exp.by_key), '%s: errors of %r, expected %r', what, sorted(str(e.key) for e in errors), exp)
        for key, entries in exp.by_key.items():
            mine = [e for e in errors if e.key is key or e.key == key]
            f = by_key.get(key)
            texts = [(str(e.message), e.state, e) for e in mine if not isinstance(e.message, dict)]
            dicts = [e for e in mine if isinstance(e.message, dict)]
            nested = [x for x in entries if isinstance(x, M.Errs)]
            M.check(len(dicts) == len(nested), '%s: %d nested errors under %r, expected %d', what, len(dicts), key, len(nested))
            types = None
            for entry in entries:
                if isinstance(entry, M.Errs):
                    continue
                code = code_of(f, entry) if f else None
                act = None
                if code:
                    field = getattr(w.cls[name], f['name'])
                    act = self.table(field).get(code)
                    if texts:
                        self.find_call(field, code, f, entry, texts[0][2].schema, key, given, finals, what)
                if act is not None and act[0] != 'super':
                    msgs = [act[1]] if act[0] in ('str', 'fe') else act[1]
                    state = None if act[0] == 'str' else act[2]
                    subclass = act[0] != 'str' and act[-1]
                    self.rec.nt()
                    self.rec.label('customised by ' + act[0])
                elif isinstance(entry, M.TypeMsgs):
                    M.check(types is None, 'two type errors')
                    types = entry
                    continue
                elif entry == M.Any_:
                    continue
                else:
                    msgs, state, subclass = [entry], None, False
                    if entry.startswith('st '):
                        subclass = True
                        state = {'of': entry.split('/')[0]}
                        self.rec.nt()
                        self.rec.label('state of user error')
                for msg in msgs:
                    hit = [t for t in texts if t[0] == msg and V.same(t[1], state) and self.of_class(t[2], subclass)]
                    M.check(hit, '%s: error %r with state %r%s expected for %r, got %r', what, msg, state,
                            ' of a subclass' if subclass else '', key, [t[:2] + (type(t[2]),) for t in texts])
                    texts.remove(hit[0])
            any_ = sum(e == M.Any_ for e in entries)
            if types is not None:
                if not any_:
                    M.check(types.matches([t[0] for t in texts]), '%s: messages %r do not fit %r', what, texts, types)
            else:
                M.check(len(texts) == any_, '%s: unexpected errors of %r: %r', what, key, [t[:2] for t in texts])
            for e, sub in zip(dicts, nested):
                v = given[key]
                if isinstance(v, self.o.Schema):
                    sub_name = m.name_of(v)
                    snap = m.snapshot(v)
                    sub_given = {W.load_key(m.fields(sub_name)[n]): (x.obj if isinstance(x, M.MInst) else x) for n, x in snap.items()}
                else:
                    sub_name, sub_given = f['kind'][1], v
                self.verify([x for es in e.message.values() for x in es], sub, sub_name, sub_given, None, what + ' / %r' % key)
                self.rec.label('nested')

    def find_call(self, field, code, f, entry, schema, key, given, finals, what):
        want = getattr(field, code)
        calls = [c for c in self.calls if c[0] is field and c[1] == want and c[2].schema is schema]
        M.check(calls, '%s: format_error of %s was not called with %s and the instance', what, f['name'], code)
        ok = False
        if code == 'ERR_VALIDATION_FAILED' and key in given and not what_is_dump(what):
            expected = self.offending(f, given[key])
            got = [ctx.get_value() for _, _, ctx in calls]
            M.check(len(got) == len(expected) and all(any(self.alike(e, g) for g in got) for e in expected)
                    and all(any(self.alike(e, g) for e in expected) for g in got),
                    '%s: the values of the contexts of %s are %r, expected %r', what, code, got, expected)
        for _, _, ctx in calls:
            M.check(ctx.error_code == want and ctx.field is field, '%s: context of %s has code %r, field %r', what, code, ctx.error_code,
                    ctx.field.name)
            M.check(isinstance(ctx.metadata, dict), '%s: metadata of %s is %r', what, code, ctx.metadata)
            if code == 'ERR_FIELD_REQUIRED':
                try:
                    ctx.get_value()
                except ValueError:
                    ok = True
                continue
            got = ctx.get_value()
            if got is given[key] or code == 'ERR_VALIDATION_FAILED' and not what_is_dump(what):
                ok = True
                if f['kind'][0] in STRUCTS and code == 'ERR_TYPE_VALIDATION_FAILED':
                    msgs = ctx.metadata.get('type_validation_fail_errors')
                    M.check(isinstance(msgs, list) and entry.matches(msgs), '%s: metadata of %s is %r', what, code, ctx.metadata)
        M.check(ok, '%s: the context of %s of %r has not the offending value', what, code, key)

    def of_class(self, err, subclass):
        return type(err).__name__ == 'StatedError' and err.code == 5 if subclass else type(err) is self.o.FieldError

    def offending(self, f, v):
        """The values that failed without a message."""
        m, out = self.m, []
        for how, raw, rule in f.get('vals', ()):
            if raw:
                out += [v] * m.validate(rule, v).count(W.FAILED)
        if v is None:
            return out
        res, final = m.load_value(f, v)
        if res == 'err':
            return out + [v] * (final.count(W.FAILED) if f['kind'][0] == 'custom' else 0)
        for how, raw, rule in f.get('vals', ()):
            if not raw:
                out += [final] * m.validate(rule, final).count(W.FAILED)
        return out

    def alike(self, final, got):
        if isinstance(final, M.MInst):
            return type(got) is self.w.cls[final.name]
        return V.same(final, got)


def what_is_dump(what):
    return '(dump of ' in what


def error_class(o, kind):
    if kind is None:
        return o.ValidationError

    class Custom(o.ValidationError):
        pass
    if kind == 'raw':
        def raw(self):
            return ['%s' % (e.key,) for e in self.errors]
        Custom.raw = raw
    if kind == 'sub':
        class Custom2(Custom):
            def raw(self):
                return {'errors': super().raw(), 'n': len(self.errors)}
        return Custom2
    return Custom


def run(o, case, rec):
    specs, tables, kind, bases, steps = case
    c = Checker(o, specs, tables, rec)
    w, m = c.w, c.m
    cls_ve = error_class(o, kind)
    if kind is not None:
        o.config.validation_error_cls = cls_ve
    insts = {}
    for name, datas in bases.items():
        for d in datas:
            d = w.materialise(d)
            if not m.load(name, d)[1]:
                insts[name] = w.cls[name](d)
                break
    for n, op in enumerate(steps):
        how, name = op[:2]
        cls = w.cls[name]
        fields = m.fields(name)
        what = 'step %d (%s of %s)' % (n, how, name)
        obj = insts.get(name)
        if how in ('update', 'assign') and obj is None:
            continue
        if how == 'assign':
            v = w.materialise(op[3])
            given = {W.load_key(fields[op[2]]): v}
            errs = m.assign(name, m.snapshot(obj), op[2], v)[1]
            fn = lambda: setattr(obj, op[2], v)
        else:
            given = w.materialise(op[2])
            if how == 'init':
                errs = m.load(name, given)[1]
                fn = lambda: cls(given)
            elif how == 'update':
                errs = m.update(name, m.snapshot(obj), given)[1]
                fn = lambda: obj.update(given)
            else:
                if m.load(name, given)[1]:
                    continue
                obj = cls(given)
                snap = m.snapshot(obj)
                given = {W.load_key(fields[x]): (y.obj if isinstance(y, M.MInst) else y) for x, y in snap.items()}
                res, errs = m.dump(name, snap)
                errs = errs if res == 'err' else None
                fn = obj.dump
        del c.calls[:]
        rec.checks += 1
        try:
            fn()
        except o.ValidationError as err:
            M.check(errs, '%s: unexpected %r', what, err.errors)
            M.check(type(err) is cls_ve, '%s: raised %s, not %s', what, type(err).__name__, cls_ve.__name__)
            c.verify(err.errors, errs, name, given, None, what)
            raw = err.raw()
            if kind == 'raw':
                M.check(raw == ['%s' % (e.key,) for e in err.errors], '%s: raw() is not the overridden one', what)
            elif kind == 'sub':
                M.check(set(raw) == {'errors', 'n'} and set(raw['errors']) == {e.key for e in err.errors}, '%s: raw(): %r', what, raw)
            else:
                M.check(set(raw) == {e.key for e in err.errors}, '%s: raw(): %r', what, raw)
            rec.label(how + ' failed')
            rec.nt(kind is not None)
        else:
            M.check(not errs, '%s: succeeded, expected %r', what, errs)
    if kind:
        rec.label('error class ' + kind)
