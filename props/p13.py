"""P13: validators run once each, on the right value, and only when they should."""
import types

from lib import model as M
from lib import ops
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is a chain of 1-3 schemas (inheritance, overriding, decorators for inherited fields) whose fields have up to 5 '
        'validators each, registered in every documented way with every outcome, and up to 6 operations. The recorded '
        'calls are compared with the calls the model prescribes. Non-trivial: a field with two or more validators is given '
        'in some operation and one of its validators fails.')
EXAMPLES = {'quick': 4500, 'thorough': 180000}
HOWS = ['ctor', 'add', 'deco', 'decostr', 'cls']


def vspecs(src, kind, counter, sizes, foreign, alternatives=True):
    out = []
    for _ in range(src.pick(sizes)):
        preds = ['never', 'always', 'always'] if kind[0] == 'obj' else ['never', 'always', 'isstr', 'isint', 'falsy', 'odd', 'none']
        effects = ('FG', 'FT', 'FK', 'FA', 'BX') if foreign and src.chance(5) else W.EFFECTS
        if alternatives and src.chance(6):
            effects += ('FG', 'FT', 'FK', 'FA') if foreign else ()
            rules = tuple(W.fn_rule(src, counter.next(), preds, effects) for _ in range(src.int(1, 3)))
            out.append((src.pick(['ctor', 'add']), False, ('or', rules)))
            continue
        out.append((src.pick(HOWS), src.chance(3), W.fn_rule(src, counter.next(), preds, effects)))
        if src.chance(6) and out[-1][0] in ('ctor', 'add'):
            out.append(out[-1])     # the same function once more
    return W.order(out)


def gen(src):
    foreign = src.chance(3)
    counter = W.Counter()
    specs, by = [], {}
    n = src.pick([1, 1, 2, 2, 3])
    nested = src.chance(3)
    if nested:
        inner = W.schema_spec(src, 'Inner', {}, counter, nfields=2, validators=False)
        for f in inner['fields']:
            vs = vspecs(src, f['kind'], counter, (1, 1, 2), False)
            if vs:
                f['vals'] = vs
        specs.append(inner)
        by['Inner'] = inner
    for i in range(n):
        name = 'S%d' % i
        bases = ['S%d' % (i - 1)] if i else []
        spec = W.schema_spec(src, name, by, counter, bases=bases, nfields=src.pick([1, 2, 1, 3, 0]), validators=False, config=False,
                             objs=['Inner'] if nested else (), frozen=False)
        trial = dict(by)
        trial[name] = spec
        if not W.consistent(trial, name):
            spec = dict(spec, bases=[])
        for f in spec['fields']:
            vs = vspecs(src, f['kind'], counter, (0, 1, 2, 3, 5, 12) if src.chance(4) else (0, 1, 2, 3, 5), foreign)
            if vs:
                f['vals'] = vs
        own = {f['name'] for f in spec['fields']}
        if spec['bases']:
            above = [x for x in W.resolve(by, spec['bases'][0]) if x not in own]
            inh = []
            for _ in range(src.pick([0, 1, 2, 3])):
                if above:
                    fname = src.pick(above)
                    kind = W.resolve(by, spec['bases'][0])[fname]['kind']
                    how, raw, rule = vspecs(src, kind, counter, (1,), foreign, False)[0]
                    inh.append((fname, ('decostr', raw, rule)))
            spec['inherited'] = inh
        by[name] = spec
        specs.append(spec)
    # operations on any schema of the chain, to see that parents are not affected
    steps = []
    for _ in range(src.int(1, 6)):
        target = src.pick([specs[-1]['name'], specs[-1]['name'], src.pick(specs)['name']])
        c = src.below(5)
        fields = W.resolve(by, target)
        own = [f['name'] for f in specs[-1]['fields']]
        if own and src.chance(7):
            fname = src.pick(own)
            kind = W.by_name([specs[-1]])[specs[-1]['name']]['fields'][own.index(fname)]['kind']
            steps.append(('method', specs[-1]['name'], fname, src.chance(3), vspecs(src, kind, counter, (1,), foreign, False)[0][2]))
            steps.append(('again', specs[-1]['name'], fname))
        elif c == 4 and fields:
            objs = [x for x in fields if fields[x]['kind'][0] == 'obj']
            steps.append((src.pick(['again', 'again', 'again in update']), target, src.pick(objs if objs and src.bool() else list(fields))))
        elif c < 2 or not fields:
            steps.append(('init', target, W.data(src, by, target, src.pick(['ok', 'chaos', 'one']))))
        elif c == 2:
            steps.append(('update', target, W.data(src, by, target, src.pick(['ok', 'chaos']), partial=True)))
        else:
            fname = src.pick(list(fields))
            v = None if src.chance(6) else W.field_value(src, by, fields[fname], src.pick(['ok', 'ok', 'near']))
            steps.append(('assign', target, fname, v))
    bases = {s['name']: [W.data(src, by, s['name'], 'ok') for _ in range(2)] for s in specs}
    return specs, bases, steps


def cases(tier):
    return strategy(gen)


def fires(rule, v):
    return W.PREDS[rule[2]](M._SCHEMA if isinstance(v, M.MInst) else v)


class Ambiguous(Exception):
    """An alternative raises a foreign exception, and another one passes."""


def ident(rule):
    return tuple(r[1] for r in rule[1]) if rule[0] == 'or' else rule[1]


def expected_calls(m, f, v):
    """{raw: [(vid, value or MInst)]} for a given value, and the foreign classes that some of these calls raise."""
    out = {True: [], False: []}
    foreign = set()
    targets = {True: v}
    if v is not None:
        res, final = m.load_value(f, v)
        if res == 'ok':
            targets[False] = final
    for how, raw, rule in f.get('vals', ()):
        if raw in targets and rule[0] == 'or':
            out[raw].append((ident(rule), targets[raw]))
            passed = False
            for r in rule[1]:
                hit = fires(r, targets[raw])
                if hit and r[3][0] in W.FOREIGN:
                    if passed:
                        raise Ambiguous
                    foreign.add(W.FOREIGN[r[3][0]])
                    break
                passed = passed or not hit
        elif raw in targets:
            out[raw].append((rule[1], targets[raw]))
            if rule[3][0] in W.FOREIGN and fires(rule, targets[raw]):
                foreign.add(W.FOREIGN[rule[3][0]])
    return out, foreign


def run(o, case, rec):
    specs, bases, steps = case
    # copies, since validators are added
    specs = [dict(s, fields=[dict(f) for f in s['fields']]) for s in specs]
    w = W.World(o, specs)
    m = M.Model(w)
    insts = {}
    for name, datas in bases.items():
        for d in datas:
            try:
                d = w.materialise(d)
                with w.quietly():
                    insts[name] = w.cls[name](d)
                break
            except (o.ValidationError, W.Abort,) + tuple(W.FOREIGN.values()):
                pass
    for n, op in enumerate(steps):
        kind, name = op[:2]
        cls = w.cls[name]
        fields = m.fields(name)
        if kind != 'init' and name not in insts:
            continue
        if kind == 'method':
            # a bound method of the very instance becomes a validator
            f = next(f for f in w.specs[name]['fields'] if f['name'] == op[2])
            f['vals'] = list(f.get('vals', ())) + [('add', op[3], op[4])]
            fn = w._fn(op[4], raw=op[3], plain=True)
            bound = types.MethodType(lambda self, schema, value, ctx, fn=fn: fn(schema, value, ctx), insts[name])
            getattr(cls, op[2]).add_validator(bound, raw=op[3])
            rec.label('bound method of the instance')
            continue
        if kind in ('again', 'again in update'):
            # what the field holds already is given once more, the very object
            obj, f = insts[name], fields[op[2]]
            if obj.get_value_for(op[2], M) is M:
                continue
            held = obj.get_value_for(op[2])
            rec.label('held value given again')
            kind, op = ('assign', (kind, name, op[2], held)) if kind == 'again' else ('update', (kind, name, {W.load_key(f): held}))
            data = op[2] if kind == 'update' else None
            given = {f['name']: held}
        elif kind == 'assign':
            given = {op[2]: w.materialise(op[3])}
        else:
            data = w.materialise(op[2])
            given = {f['name']: data[W.load_key(f)] for f in fields.values() if W.load_key(f) in data}
        want, foreign = {}, set()
        try:
            for fname, v in given.items():
                want[fname], fo = expected_calls(m, fields[fname], v)
                foreign |= fo
        except Ambiguous:
            continue
        owner, group, members = {}, {}, []
        for fname, groups in want.items():
            for raw in groups:
                for vid, v in groups[raw]:
                    owner[vid] = (fname, raw, v)
                    for x in vid if isinstance(vid, tuple) else ():
                        owner[x] = (fname, raw, v)
                        group[x] = vid
        del w.log[:]
        obj = insts.get(name)
        exc = None
        try:
            if kind == 'init':
                obj = cls(data)
            elif kind == 'update':
                obj.update(data)
            else:
                setattr(obj, op[2], given[op[2]])
        except o.ValidationError as err:
            exc = err
        except (W.Abort,) + tuple(W.FOREIGN.values()) as err:
            exc = err
        what = 'step %d (%s of %s)' % (n, kind, name)
        rec.checks += 1
        log = [ev for ev in w.log if ev[0] == 'val' and type(ev[4]) is cls]
        if kind == 'init' and exc is not None:
            obj = exc.schema if isinstance(exc, o.ValidationError) else (log[0][4] if log else None)
        M.check(bool(foreign) == (exc is not None and not isinstance(exc, o.ValidationError)),
                '%s: foreign exceptions %r expected, got %r', what, foreign, exc)
        if foreign:
            M.check(type(exc) in foreign and len(exc.args) == 1 and exc.args[0] in W.MESSAGES,
                    '%s: %r expected, got %r', what, foreign, exc)
            rec.label('foreign')
        got = {}
        for _, vid, value, raw, schema, ctx in log:
            M.check(vid in owner, '%s: validator %s ran though it should not (value %r)', what, vid, value)
            fname, want_raw, exp = owner[vid]
            if vid in group:
                raw = want_raw
            M.check(schema is obj and ctx.schema is obj, '%s: validator %s got schema %r', what, vid, schema)
            M.check(isinstance(ctx, o.LoadContext), '%s: validator %s got context %r', what, vid, ctx)
            M.check(ctx.field is getattr(cls, fname), '%s: context of validator %s is of field %r', what, vid, ctx.field.name)
            M.check(ctx.value is given[fname], '%s: context of validator %s has value %r', what, vid, ctx.value)
            if raw:
                M.check(value is given[fname], '%s: raw validator %s got %r, not %r', what, vid, value, given[fname])
            else:
                M.compare_value(m, value, exp, '%s: value of validator %s' % (what, vid))
                if exc is None:
                    M.check(value is obj.get_value_for(fname), '%s: validator %s got another object than is stored', what, vid)
            mine = got.setdefault((fname, raw), [])
            if vid in group:
                M.check(vid not in members, '%s: alternative %s ran twice', what, vid)
                members.append(vid)
                vid = group[vid]
                if vid in mine[-1:]:
                    continue
            mine.append(vid)
        for fname, groups in want.items():
            for raw in groups:
                exp = [vid for vid, _ in groups[raw]]
                act = got.get((fname, raw), [])
                if foreign:
                    M.check(all(act.count(v) <= exp.count(v) for v in act) and sorted(act, key=exp.index) == act,
                            '%s: validators of %s ran %r, registered %r', what, fname, act, exp)
                else:
                    M.check(act == exp, '%s: %s validators of %s ran: %r, expected %r', what, 'raw' if raw else 'other', fname,
                            act, exp)
                if len(exp) > 1 and any(r[0] == 'fn' and r[1] in exp and fires(r, owner[r[1]][2]) for _, _, r in fields[fname]['vals']):
                    rec.nt()
                for vid in exp:
                    if isinstance(vid, tuple) and not foreign:
                        rule = next(r for _, _, r in fields[fname]['vals'] if ident(r) == vid)
                        passed = any(not fires(r, owner[vid][2]) for r in rule[1])
                        M.check(passed or all(x in members for x in vid), '%s: all alternatives %s failed, %s ran', what, vid, members)
                        rec.label('alternatives')
        if foreign:
            continue
        # outcome
        if kind == 'init':
            values, errs = m.load(name, data)
        elif kind == 'update':
            values, errs = m.update(name, {}, data)
        else:
            values, errs = m.assign(name, {}, op[2], given[op[2]])
        M.check(bool(errs) == (exc is not None), '%s: expected %r, got %s', what, errs, exc and exc.raw())
        if exc is not None:
            ops.check_error(m, name, exc, errs, text=False)
        else:
            for fname in given:
                M.compare_value(m, obj.get_value_for(fname), values[fname], '%s: %s' % (what, fname))
        rec.label(kind + (' failed' if exc else ' succeeded'))
    if any(s.get('inherited') for s in specs):
        rec.label('decorators for inherited fields')
