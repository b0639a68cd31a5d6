"""P22: the caller's data, configuration and definitions are never modified; operations are repeatable."""
import collections
import types
import typing

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy
from props.p09 import other

RULE = ('A case is 1-3 generated schemas and a history of up to 10 operations of all kinds (initialization, update, assignment, '
        'dump, copy, validate_types, standalone type checks), failing or not, from data of every kind of mapping and container. '
        'All objects handed over (at the operations and in the definitions) are compared, by identity, order and content, before '
        'and after, and every operation is repeated at the end with the same and with equal arguments, with equal outcomes. '
        'Non-trivial: an argument with nested containers was used, or an operation failed.')
EXAMPLES = {'quick': 4500, 'thorough': 180000}
KEYS = ['a', 'b', 'id', '', 'x']
STATES = [{'a': 1, 'b': [2], 'c': {}, 'd': None, 5: 6}, {i: [i] for i in range(40)}, list(range(30)), {}, [], {1, 2, 3}, V.UMap({'x': []}),
          V.DictSub({'k': 1}), collections.OrderedDict(z=1, a=2), collections.defaultdict(list, {'q': [1]}), collections.deque([1])]


def gen(src):
    foreign = src.chance(5)
    opts = dict(max_schemas=3, main_fields=src.pick([1, 2, 3, 4]), frozen=src.chance(6), validators=src.bool())
    if foreign:
        opts['effects'] = W.EFFECTS + ('FG', 'FT', 'FK')
    specs = W.world(src, **opts)
    if src.chance(4):
        specs[-1]['pre'] = src.pick(['copy', 'proxy', 'dropx', 'fill'])
    for s in specs:
        for f in s['fields']:
            if f['kind'][0] == 'obj' and src.chance(3):
                f['kind'] = f['kind'][:2] + (f['kind'][2] + (('state', {'n': [1]}),),)
            if src.chance(4):
                f['extras'] = {'x': [1], 'y': {}}
    by = W.by_name(specs)
    steps = []
    for _ in range(src.int(1, 10)):
        name = src.pick([specs[-1]['name'], specs[-1]['name'], src.pick(specs)['name']])
        fields = W.resolve(by, name)
        c = src.below(10)
        if c < 4:
            steps.append(('init', name, wrap(src, W.data(src, by, name, src.pick(['ok', 'ok', 'one', 'chaos']))),
                          src.pick([None, None, True, False]), src.pick([None, {'s': [1]}, [{}], src.pick(STATES)])))
        elif c < 6 or c < 9 and not fields:
            steps.append(('update', name, wrap(src, W.data(src, by, name, src.pick(['ok', 'one', 'chaos']), partial=True)),
                          src.pick([None, True])))
        elif c == 6:
            f = src.pick(list(fields))
            steps.append(('assign', name, f, W.field_value(src, by, fields[f], src.pick(['ok', 'near', 'any']))))
        elif c == 7:
            sel = src.subset(list(fields) + ['zz'], 0, len(fields) + 1)
            steps.append(('dump', name, src.pick(['include', 'exclude']), src.pick(['list', 'tuple', 'set']), sel + sel[:1]))
        elif c == 8:
            steps.append((src.pick(['copy', 'get']), name))
        else:
            types = [(k, src.one(T.types_shallow, T.types_mid, T.leaf, T.everyday)) for k in src.subset(KEYS, 0, 4)]
            vals = [(k, T.valid(src, s) if src.bool() else T.typed_value(src, s)) for k, s in types if not src.chance(5)]
            vals += [(k, 1) for k in ['extra', 'zz'] if src.chance(5)]
            steps.append(('types', types, vals, src.pick(['dict', 'umap', 'proxy']), src.bool(), src.bool()))
    if src.chance(12):
        steps.insert(src.int(0, len(steps)), ('many', src.pick(['types', 'schemas', 'instances', 'failures']),
                                              src.pick([12, 40, 90, 150])))
    bases = {s['name']: [W.data(src, by, s['name'], 'ok') for _ in range(2)] for s in specs}
    return specs, bases, steps


def wrap(src, d):
    c = src.below(8)
    return V.mappingproxy(dict(d)) if c == 6 else V.UMap(d) if c == 7 else V.MissDict(d) if c == 5 else d


def cases(tier):
    return strategy(gen)


def freeze(m, v, depth=0):
    """Identity, order and content of everything reachable through containers and instances."""
    t = type(v)
    if depth > 40:
        return t, id(v)
    if isinstance(v, m.w.o.Schema):
        return t, id(v), tuple((n, freeze(m, v.get_value_for(n), depth + 1)) for n in m.fields(t.__name__) if hasattr(v, n)), \
            freeze(m, v.context.state, depth + 1)
    if isinstance(v, (list, tuple, collections.deque)):
        return t, id(v), tuple(freeze(m, x, depth + 1) for x in v)
    if isinstance(v, (set, frozenset)):
        return t, id(v), tuple(sorted((id(x) for x in v)))
    if isinstance(v, collections.abc.Mapping):
        return t, id(v), tuple((freeze(m, k, depth + 1), freeze(m, v[k], depth + 1)) for k in v)
    if isinstance(v, bytearray):
        return t, id(v), bytes(v)
    return t, id(v)


def nested(v):
    return any(isinstance(x, (list, dict, set, collections.abc.Mapping)) for x in v.values())


class Exec:
    def __init__(self, o, specs, bases, steps):
        self.o = o
        self.lists = []
        self.kept = []
        ex = self
        early = types.SimpleNamespace(w=types.SimpleNamespace(o=o))

        class World(W.World):
            def arg(self, name, value):
                ex.kept.append(('%s of a field' % name, value, freeze(early, value)))
                return value

            def make_field(self, kind, kw):
                for k in ('validators', 'extras', 'default'):
                    if k in kw:
                        self.arg(k, kw[k])
                return super().make_field(kind, kw)
        self.w = World(o, specs)
        self.m = M.Model(self.w)
        self.bases = bases
        for what, v, at_first in self.kept:
            M.check(freeze(early, v) == at_first, 'the definition of the schemas modified %s: now %r', what, v)

    def definitions(self):
        """Everything the definitions hold, as a user can see it."""
        out = [(what, freeze(self.m, v)) for what, v, _ in self.kept]
        for name, cls in self.w.cls.items():
            for fname in self.m.fields(name):
                field = getattr(cls, fname)
                fz = lambda v: freeze(self.m, v)
                out.append(('field %s.%s' % (name, fname), (
                    id(field), field.none, field.required, field.frozen, field.load_key, field.dump_key, field.name, field.schema,
                    field.has_default(), fz(field.default), fz(field.extras), tuple(map(id, field.walk_validators(raw=True))),
                    tuple(map(id, field.walk_validators(raw=False))), fz(getattr(field, 'init_kwargs', None)),
                    fz(getattr(field, 'true_values', None)), fz(getattr(field, 'false_values', None)),
                    getattr(field, 'strict', None))))
        return out

    def base(self, name):
        for d in self.bases[name]:
            try:
                return self.w.cls[name](self.w.materialise(d))
            except (self.o.ValidationError, W.Abort) + tuple(W.FOREIGN.values()):
                pass
        return None

    def prepare(self, step):
        """Fresh arguments of a step: (objects handed over, ...)"""
        w, how = self.w, step[0]
        if how == 'init':
            return [w.materialise(step[2]), V.clone(step[4])]
        if how == 'update':
            return [w.materialise(step[2])]
        if how == 'assign':
            return [w.materialise(step[3])]
        if how == 'dump':
            return [{'list': list, 'tuple': tuple, 'set': set}[step[3]](step[4])]
        if how == 'many':
            return []
        if how == 'types':
            wr = {'dict': dict, 'umap': V.UMap, 'proxy': lambda d: V.mappingproxy(dict(d))}[step[3]]
            return [wr({k: T.build(s) for k, s in step[1]}), wr(V.clone(dict(step[2])))]
        return []

    def perform(self, step, args, obj):
        """The outcome of a step, comparable by value."""
        o, w, how = self.o, self.w, step[0]
        cls = w.cls.get(step[1]) if isinstance(step[1], str) else None
        try:
            if how == 'init':
                kw = {} if step[3] is None else {'ignore_extra': step[3]}
                if args[1] is not None:
                    kw['state'] = args[1]
                return 'ok', self.tree(cls(args[0], **kw))
            if how == 'types':
                o.validate_types(args[0], args[1], ignore_extra=step[4], ignore_missing=step[5])
                return 'ok', None
            if obj is None:
                return 'none', None
            if how == 'update':
                obj.update(args[0], **({} if step[3] is None else {'ignore_extra': step[3]}))
                return 'ok', self.tree(obj)
            if how == 'assign':
                setattr(obj, step[2], args[0])
                return 'ok', self.tree(obj)
            if how == 'dump':
                out = obj.dump(**{step[2]: args[0]})
                res = {k: self.tree(v) for k, v in out.items()}
                out.clear()
                return 'ok', res
            if how == 'copy':
                return 'ok', self.tree(obj.copy())
            return 'ok', [(n, obj.get_value_for(n, 'fb') is getattr(obj, n, 'fb')) for n in self.m.fields(step[1])]
        except o.ValidationError as err:
            return 'invalid', self.errors(err.raw())
        except o.TypeValidationError as err:
            return 'types', {k: sorted(map(str, v)) for k, v in err.errors.items()}
        except o.FrozenError as err:
            return 'frozen', str(err)
        except (W.Abort,) + tuple(W.FOREIGN.values()) as err:
            return 'foreign', type(err).__name__

    def errors(self, raw):
        if isinstance(raw, dict):
            return {k: self.errors(v) for k, v in raw.items()}
        return sorted((self.errors(x) if isinstance(x, dict) else x for x in raw), key=repr)

    def tree(self, v):
        if isinstance(v, self.o.Schema):
            return V.Inst(type(v).__name__, {n: self.tree(v.get_value_for(n)) for n in self.m.fields(type(v).__name__) if hasattr(v, n)})
        if type(v) is dict:
            return {k: self.tree(x) for k, x in v.items()}
        if type(v) in (list, tuple):
            return type(v)([self.tree(x) for x in v])
        return V.clone(v)


def many(o, what, i):
    """Something unrelated that has not happened before."""
    if what == 'types':
        return other(o, i)
    F = o.fields
    cls = type(o.Schema)('Many%d' % (i if what == 'schemas' else 0), (o.Schema,), {
        'a': F.Integer(), 'b': F.TypeExpr(typing.Optional[typing.List[str]], required=False)})
    if what == 'failures':
        try:
            cls({'a': 'x', 'zz': 1, 'b': [i]})
        except o.ValidationError as err:
            M.check(set(err.raw()) == {'a', 'zz', 'b'}, 'unrelated schema: %r', err.raw())
        return
    x = cls({'a': i})
    M.check(x.dump() == {'a': i}, 'unrelated schema: %r', x.dump())


def run(o, case, rec):
    specs, bases, steps = case
    x = Exec(o, specs, bases, steps)
    m = x.m
    defs = x.definitions()
    done = []
    for n, step in enumerate(steps):
        what = 'step %d (%s)' % (n, step[0])
        args = x.prepare(step)
        obj = x.base(step[1]) if step[0] in ('update', 'assign', 'dump', 'copy', 'get') else None
        before = [freeze(m, a) for a in args]
        inst = freeze(m, obj) if obj is not None else None
        out = x.perform(step, args, obj)
        rec.checks += 1
        rec.label(step[0] + ' ' + out[0])
        rec.nt(out[0] not in ('ok', 'none') or any(isinstance(a, collections.abc.Mapping) and nested(a) for a in args))
        for a, b in zip(args, before):
            M.check(freeze(m, a) == b, '%s: an argument was modified: now %r', what, a)
        if obj is not None and (out[0] != 'ok' or step[0] in ('dump', 'copy', 'get')):
            M.check(freeze(m, obj) == inst, '%s (%s): the instance was modified', what, out[0])
        same_defs(x, defs, what)
        done.append((step, args, out))
        if step[0] == 'many':
            for i in range(step[2]):
                many(o, step[1], i)
    # the same operations have the same outcomes later, with the same and with equal arguments
    for n, (step, args, out) in enumerate(done):
        for fresh in (False, True):
            again = x.prepare(step) if fresh else args
            before = [freeze(m, a) for a in again]
            obj = x.base(step[1]) if step[0] in ('update', 'assign', 'dump', 'copy', 'get') else None
            out2 = x.perform(step, again, obj)
            M.check(out2[0] == out[0] and V.same(out2[1], out[1]), 'repeated step %d (%s): first %r, now %r', n, step[0], out, out2)
            for a, b in zip(again, before):
                M.check(freeze(m, a) == b, 'repeated step %d: an argument was modified: now %r', n, a)
    same_defs(x, defs, 'the end')
    # what a user attaches to one field does not appear on another
    own = [(s['name'], f['name']) for s in specs for f in s['fields'] if 'extras' not in f]
    for n, (name, fname) in enumerate(own):
        M.check(getattr(x.w.cls[name], fname).extras == {}, 'extras of %s.%s: %r', name, fname, getattr(x.w.cls[name], fname).extras)
    for n, (name, fname) in enumerate(own[:2]):
        field = getattr(x.w.cls[name], fname)
        field.extras['probe %d' % n] = n
        for name2, fname2 in own[n + 1:]:
            M.check(getattr(x.w.cls[name2], fname2).extras == {}, 'extras of %s.%s appear on %s.%s', name, fname, name2, fname2)


def same_defs(x, defs, what):
    for (d, a), (_, b) in zip(defs, x.definitions()):
        M.check(a == b, '%s: %s changed: %r -> %r', what, d, a, b)
