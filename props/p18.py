"""P18: every error names its true key, field, schema and context."""
import threading

from lib import model as M
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-4 generated schemas in which hooks, default functions, custom fields and validators themselves load, update, '
        'assign and dump (mostly failing, some aborted by foreign exceptions) and 1-3 threads with up to 6 operations each; threads '
        'hand over to each other at every hook as the case says. Every error anywhere in the tree, also those of the inner '
        'operations, is compared with the instance, key, field and value that caused it. Non-trivial: an error of an operation '
        'was checked after an inner operation ran within it or after an earlier failure, or while another thread was '
        'in the middle of an operation.')
EXAMPLES = {'quick': 2700, 'thorough': 70000}
ASSUMPTIONS = ['Threads are switched at user code called by the library (hooks, validators, fields, default functions) and between '
               'operations, not at every bytecode.']
EFF = W.EFFECTS * 2 + ('FG', 'FT', 'FK', 'FA', 'BX')
FOREIGN = (W.Abort,) + tuple(W.FOREIGN.values())


def kinds(src):
    c = src.below(5)
    if c < 2:
        return ('custom', src.pick(['fdump', 'fdump', 'pick', 'csv', 'double']))
    return W.flat_kind(src)


def g_op(src, specs, by, inner=False):
    name = src.pick([specs[-1]['name'], specs[-1]['name'], src.pick(specs)['name']])
    c = src.below(8)
    fields = W.resolve(by, name)
    ok = W.data(src, by, name, 'ok')
    if c < 4 or not fields:
        return ('init', name, W.data(src, by, name, src.pick(['chaos', 'chaos', 'one', 'ok'])))
    if c == 4:
        return ('update', name, ok, W.data(src, by, name, src.pick(['chaos', 'one']), partial=True))
    if c == 5:
        f = src.pick(list(fields))
        return ('assign', name, ok, f, None if src.chance(4) else W.field_value(src, by, fields[f], 'near'))
    data = dict(ok)
    for f in fields.values():
        if f['kind'] == ('custom', 'fdump') and src.bool():
            data[W.load_key(f)] = 'dump ' + src.pick(EFF)
    return ('dump', name, data)


def gen(src):
    effects = EFF if src.chance(3) else W.EFFECTS
    opts = dict(kinds=kinds, effects=effects, main_fields=src.pick([1, 2, 3, 4]))
    if src.chance(3):
        specs = W.chain(src, src.int(2, 4), **opts)
    else:
        specs = W.world(src, **opts)
    for s in specs:
        s['pre'] = 'copy'
        s['post'] = src.bool()
        for f in s['fields']:
            if src.chance(5) and f['kind'][0] != 'obj':
                f['default'] = ('call', 0)
    by = W.by_name(specs)
    program = [g_op(src, specs, by) if src.below(3) < 2 else None for _ in range(src.int(0, 5))]
    n = src.pick([1, 1, 2, 3])
    threads = [[g_op(src, specs, by) for _ in range(src.int(1, 4 if n > 1 else 6))] for _ in range(n)]
    schedule = [src.below(n) for _ in range(src.int(1, 12))] if n > 1 else []
    return specs, program, threads, schedule


def cases(tier):
    return strategy(gen)


class Turns:
    """Lets one thread run at a time and hands over as the schedule says."""

    def __init__(self, n, schedule):
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.schedule = schedule or [0]
        self.i = 0
        self.current = 0
        self.failed = False

    def _next(self):
        nxt = self.alive[self.schedule[self.i % len(self.schedule)] % len(self.alive)]
        self.i += 1
        return nxt

    def wait(self, me):
        if not self.cond.wait_for(lambda: self.current == me or self.failed, timeout=60):
            self.failed = True
            raise RuntimeError('scheduler timed out')

    def start(self, me):
        with self.cond:
            self.wait(me)

    def switch(self, me):
        with self.cond:
            self.current = self._next()
            if self.current != me:
                self.cond.notify_all()
                self.wait(me)
                return True
        return False

    def finish(self, me):
        with self.cond:
            self.alive.remove(me)
            if self.alive:
                self.current = self._next()
            self.cond.notify_all()


class Runner:
    def __init__(self, o, case, rec):
        specs, self.program, threads, schedule = case
        self.o, self.rec = o, rec
        self.turns = Turns(len(threads), schedule) if len(threads) > 1 else None
        self.local = threading.local()
        self.made = {}       # id of the raw data -> (raw data, the last instance being made from it)
        hooks = {'validator': self.hook_validator, 'default': self.hook, 'load': self.hook, 'dump': self.hook,
                 'pre': self.hook_pre, 'post': self.hook}
        self.w = W.World(o, specs, hooks)
        self.w.alias = False    # nested schemas are told apart by their data
        self.m = M.Model(self.w)

    # -- hooks
    def hook_pre(self, schema, data):
        self.made[id(data)] = (data, schema)
        self.hook()

    def hook_validator(self, vid, schema, value, ctx):
        self.hook()

    def hook(self, *args):
        me = self.local
        if self.turns and self.turns.switch(me.index):
            self.rec.label('handed over inside an operation')
            me.disturbed = True
        if me.depth < 2 and self.program:
            op = self.program[me.count % len(self.program)]
            me.count += 1
            if op is not None and me.budget > 0:
                me.budget -= 1
                me.depth += 1
                try:
                    self.operate(op, 'inside an operation: ')
                finally:
                    me.depth -= 1
                me.disturbed = True

    # -- operations
    def operate(self, op, where=''):
        try:
            self._operate(op, where)
        except M.Mismatch as exc:
            # raised inside user code it must not be mistaken for anything else
            self.local.bad.append(exc)

    def _operate(self, op, where):
        o, w, m = self.o, self.w, self.m
        kind, name = op[:2]
        cls = w.cls[name]
        fields = m.fields(name)
        me = self.local
        what = '%s%s of %s' % (where, kind, name)
        data = self.material(op[2])
        obj = None
        if kind != 'init':
            try:
                obj = cls(data)
            except (o.ValidationError,) + FOREIGN:
                return
        errs = None
        try:
            if kind == 'init':
                given = data
                errs = m.load(name, data)[1]
            elif kind == 'update':
                given = self.material(op[3])
                errs = m.update(name, m.snapshot(obj), given)[1]
            elif kind == 'assign':
                v = self.material(op[4])
                given = {W.load_key(fields[op[3]]): v}
                errs = m.assign(name, m.snapshot(obj), op[3], v)[1]
            else:
                snap = m.snapshot(obj)
                given = {W.load_key(fields[n]): (x.obj if isinstance(x, M.MInst) else x) for n, x in snap.items()}
                res, errs = m.dump(name, snap)
                errs = errs if res == 'err' else None
        except FOREIGN as exc:
            errs = type(exc)
        except M.MFrozen:
            return
        me.disturbed = False
        err = None
        try:
            if kind == 'init':
                cls(data)
            elif kind == 'update':
                obj.update(given)
            elif kind == 'assign':
                setattr(obj, op[3], v)
            else:
                obj.dump()
        except o.ValidationError as e:
            err = e
        except FOREIGN as e:
            M.check(isinstance(errs, type), '%s: unexpected %r', what, e)
            self.rec.label('aborted')
            me.failed = True
            return
        M.check(not isinstance(errs, type), '%s: %r was swallowed', what, errs)
        M.check(bool(errs) == (err is not None), '%s: expected %r, got %s', what, errs, err)
        if err is None:
            return
        inst = self.made[id(data)][1] if kind == 'init' else obj
        M.check(type(inst) is cls and err.schema is inst, '%s: ValidationError.schema is %s instance of %s', what,
                'another' if type(err.schema) is cls else 'an', type(err.schema).__name__)
        self.verify(err.errors, errs, name, inst, given, kind == 'dump', what)
        self.rec.checks += 1
        self.rec.label(('inner ' if where else '') + kind + ' failed')
        self.rec.nt(me.disturbed or me.failed)
        me.failed = True

    def material(self, data):
        return self.w.materialise(data)

    def verify(self, errors, exp, name, inst, given, dumping, what):
        o, w, m = self.o, self.w, self.m
        cls = w.cls[name]
        by_key = {W.load_key(f): f for f in m.fields(name).values()}
        M.check({e.key for e in errors} == set(exp.by_key), '%s: errors of keys %r, expected %r', what, [e.key for e in errors],
                list(exp.by_key))
        ctxs = {}
        for e in errors:
            f = by_key.get(e.key)
            field = getattr(cls, f['name']) if f else None
            where = '%s: error of %r (%s)' % (what, e.key, 'nested' if isinstance(e.message, dict) else e.message)
            M.check(e.schema is inst, '%s: schema is another instance (of %s)', where, type(e.schema).__name__)
            M.check(e.field is field, '%s: field is %r', where, e.field)
            if f and e.key in given:
                ctx = e.context
                M.check(isinstance(ctx, o.DumpContext if dumping else o.LoadContext), '%s: context is %r', where, ctx)
                M.check(ctx.field is field, '%s: context of field %r', where, ctx.field.name)
                M.check(ctx.schema is inst, '%s: context of another instance', where)
                M.check(ctx.value is given[e.key], '%s: context of value %r', where, ctx.value)
                M.check(ctxs.setdefault(e.key, ctx) is ctx, '%s: errors of one value have different contexts', where)
        for key, entries in exp.by_key.items():
            nested = [x for x in entries if isinstance(x, M.Errs)]
            mine = [e for e in errors if (e.key is key or e.key == key)]
            texts = [e for e in mine if not isinstance(e.message, dict)]
            want = [x for x in entries if isinstance(x, str)]
            if not any(isinstance(x, M.TypeMsgs) for x in entries) and M.Any_ not in want:
                M.check(sorted(str(e.message) for e in texts) == sorted(want), '%s: messages of %r: %r, expected %r', what, key,
                        [e.message for e in texts], want)
            dicts = [e for e in mine if isinstance(e.message, dict)]
            M.check(len(dicts) == len(nested), '%s: %d nested errors under %r, expected %d', what, len(dicts), key, len(nested))
            for e, sub in zip(dicts, nested):
                v = given[key]
                if dumping:
                    sub_inst, sub_name = v, m.name_of(v)
                    sub_given = {W.load_key(m.fields(sub_name)[n]): (x.obj if isinstance(x, M.MInst) else x)
                                 for n, x in m.snapshot(v).items()}
                else:
                    sub_inst, sub_name, sub_given = self.made[id(v)][1], by_key[key]['kind'][1], v
                for k, es in e.message.items():
                    M.check(all(x.key == k for x in es), '%s: errors under %r have keys %r', what, k, [x.key for x in es])
                self.verify([x for es in e.message.values() for x in es], sub, sub_name, sub_inst, sub_given, dumping,
                            what + ', nested in %r' % key)
                self.rec.label('nested errors')

    # -- threads
    def thread(self, index, steps, bad):
        me = self.local
        me.index, me.depth, me.count, me.disturbed, me.failed, me.bad, me.budget = index, 0, index, False, False, bad, 24
        if self.turns:
            self.turns.start(index)
        try:
            for n, op in enumerate(steps):
                self.operate(op)
                if bad:
                    break
                if self.turns:
                    self.turns.switch(index)
        except BaseException as exc:
            bad.append(exc)
        finally:
            if self.turns:
                self.turns.finish(index)


def run(o, case, rec):
    r = Runner(o, case, rec)
    threads = case[2]
    bad = []
    if len(threads) == 1:
        r.thread(0, threads[0], bad)
    else:
        ts = [threading.Thread(target=r.thread, args=(i, steps, bad)) for i, steps in enumerate(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        rec.label('threads')
    if bad:
        raise bad[0]
