"""P27: operations on different instances never influence each other, however they interleave."""
import os
import sys
import threading

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib import world as W
from lib.gen import strategy

RULE = ('A case is 1-3 generated schemas, 2-3 threads with up to 5 operations each on instances of their own (initialization, '
        'update, assignment, dump, copy, reading, validate_types; mostly of the same schema, often failing) and a schedule that '
        'says after how many lines or opcodes of the library each thread hands over; or one operation each, the second performed '
        'at every point (up to 150) of the first. Every outcome, error and call of user code of each '
        'thread is compared with those of the same thread running alone. Non-trivial: a thread was interrupted in the middle of '
        'an operation and another one performed a part of its own meanwhile.')
EXAMPLES = {'quick': 1800, 'thorough': 60000}
ASSUMPTIONS = ['One thread runs at a time; they are switched between the lines (or opcodes) of the library and at calls of user code.']
BLOCKED = [0]
STRIKES = 150      # points of an operation
EFF = W.EFFECTS + ('FG', 'BX')
FOREIGN = (W.Abort, RuntimeError) + tuple(W.FOREIGN.values())


def g_op(src, by, name, favourite):
    fields = W.resolve(by, name)
    c = src.below(9)
    if favourite is not None and src.below(3):
        c = favourite
    if c == 8:
        types = [(k, src.one(T.everyday, T.types_shallow)) for k in src.subset(['a', 'b', 'c', ''], 1, 3)]
        values = {k: T.typed_value(src, s) for k, s in types if src.below(4)}
        if src.chance(4):
            values['zz'] = 1
        return ('types', types, values, src.bool(), src.bool())
    if c < 3 or not fields:
        return ('init', name, W.data(src, by, name, src.pick(['chaos', 'one', 'ok'])))
    if c == 3:
        return ('assign', src.pick(list(fields)), None if src.chance(6) else
                W.field_value(src, by, fields[src.pick(list(fields))], 'near'))
    if c == 4:
        f = src.pick(list(fields))
        return ('assign', f, W.field_value(src, by, fields[f], src.pick(['ok', 'near'])))
    if c == 5:
        return ('dump', src.pick([None, ('include', src.subset(list(fields), 0, len(fields))),
                                  ('exclude', src.subset(list(fields), 0, len(fields)))]))
    if c == 6:
        return ('copy',) if src.bool() else ('get', src.pick(list(fields)))
    return ('update', W.data(src, by, name, src.pick(['chaos', 'one', 'ok']), partial=True))


def quantum(src, grain):
    return src.int(1, src.pick([3, grain, grain]))


def gen(src):
    strike = src.chance(8)
    opts = dict(effects=EFF if src.chance(4) else W.EFFECTS, many=False, main_fields=src.pick([1, 2] if strike else [1, 2, 3, 4]), frozen=src.chance(4))
    specs = W.chain(src, 2, **opts) if src.chance(3) else W.world(src, max_schemas=2 if strike else 3, **opts)
    for s in specs:
        if src.chance(4):
            s['pre'] = 'copy'
        s['post'] = src.chance(3)
    by = W.by_name(specs)
    main = specs[-1]['name']
    if src.chance(4):
        # values of fields with code of the user
        for s in specs:
            for f in s['fields']:
                if 'vals' not in f and src.bool():
                    f['kind'] = ('custom', src.pick(['double', 'csv', 'pick', 'fdump']))
                    f.pop('default', None)
    elif src.chance(3 if strike else 5):
        # texts that are to become values of another type
        for s in specs:
            for f in s['fields']:
                if f['kind'][0] != 'obj' and 'vals' not in f:
                    f['kind'] = src.pick([('bool', False, None, None), ('bool', False, ('yes', '1'), ('no', '0')), ('int', False), ('float', False)])
                    f.pop('default', None)
    favourite = src.pick([None, None, 0, 3, 5, 8, 7])
    threads = []
    for _ in range(2 if strike else src.pick([2, 2, 3])):
        name = main if strike or src.below(4) else src.pick(specs)['name']
        base = [W.data(src, by, name, 'ok') for _ in range(2)]
        threads.append((name, base, [g_op(src, by, name, favourite) for _ in range(src.int(1, 1 if strike else 5))]))
    if src.chance(4):
        # all threads do the same
        threads = [threads[0]] * len(threads)
    opcodes = src.chance(4)
    if strike:
        # one operation each, the second at every point of the first
        return specs, threads, ('strike', src.below(100)), opcodes, src.bool()
    grain = src.pick([8, 30, 60, 150]) * (4 if opcodes else 1)
    schedule = [(src.below(len(threads)), quantum(src, grain)) for _ in range(src.int(1, 24))]
    return specs, threads, schedule, opcodes, src.bool()


def cases(tier):
    return strategy(gen)


class Turns:
    """Lets one thread run at a time; hands over as the schedule says."""

    def __init__(self, n, schedule):
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.schedule, self.i, self.left = schedule, 0, 0
        self.ticks = 0
        self.free = False       # a thread waits for something other than its turn: they all run as they like
        self.busy = [False] * n
        self.pending = False    # the thread that ran before is in the middle of an operation
        self.amid = 0
        self.start = self._next()

    def _next(self):
        who, self.left = self.schedule[self.i % len(self.schedule)]
        self.i += 1
        return self.alive[who % len(self.alive)]

    def wait(self, me):
        while not self.free:
            before = self.ticks
            if self.locks[me].acquire(timeout=3):
                return
            if self.ticks == before:
                self.free = True

    def tick(self, me):
        if self.free:
            return
        self.ticks += 1
        self.left -= 1
        if self.pending and self.busy[me]:
            self.pending = False
            self.amid += 1
        if self.left > 0:
            return
        nxt = self._next()
        if nxt != me:
            self.pending = self.busy[me]
            self.locks[nxt].release()
            self.wait(me)

    def finish(self, me):
        self.alive.remove(me)
        if self.alive:
            self.locks[self._next()].release()


class Strike:
    """Performs all of the second thread when the first one has come to a certain point."""

    def __init__(self, player, at):
        self.player, self.at, self.ticks = player, at, 0
        self.busy = [False, False]
        self.result = self.other = None

    def perform(self):
        self.player.local.index = 1
        try:
            self.result = self.player.play(1)
        except BaseException as exc:
            self.result = exc

    def tick(self, me):
        if me == 1 or not self.busy[0]:
            return
        self.ticks += 1
        if self.ticks == self.at:
            self.other = threading.Thread(target=self.perform, daemon=True)
            self.other.start()
            self.other.join(0.5 if BLOCKED[0] < 20 else 0.01)
            BLOCKED[0] += self.other.is_alive()     # it waits for something that the first one holds


def strikes(o, case, rec):
    _, threads, (_, offset), _, _ = case
    player = Player(o, case)
    expected = [player.play(i) for i in range(2)]
    player.turns = turns = Strike(player, 0)
    try:
        player.play(0)
        n = turns.ticks
        stride = n // STRIKES + 1
        for at in range(1 + offset % stride, n + 1, stride):
            player.turns = turns = Strike(player, at)
            results = [player.play(0), None]
            sys.settrace(None)
            M.check(turns.other is not None, 'the point was not reached')
            turns.other.join(50)
            results[1] = turns.result
            compare(expected, results, rec)
            rec.nt()
    finally:
        sys.settrace(None)
    rec.label('struck at every point' if stride == 1 else 'struck at every %s point' % ('2nd to 4th' if stride < 5 else 'n-th'))


class Player:
    """Performs the operations of the threads and describes their outcomes."""

    def __init__(self, o, case):
        self.specs, self.threads, _, self.opcodes, self.formatted = case
        self.o = o
        self.local = threading.local()
        self.turns = None
        hooks = {'validator': lambda vid, schema, value, ctx: self.event('validator', vid, schema, value, ctx),
                 'default': lambda fname, ctx, field: self.event('default', fname, field.name, ctx.schema),
                 'load': lambda field, value, ctx: self.event('load', field.name, value, ctx),
                 'dump': lambda field, value, ctx: self.event('dump', field.name, value, ctx),
                 'pre': lambda schema, data: self.event('pre', schema), 'post': lambda schema: self.event('post', schema)}
        if self.formatted:
            hooks['field_cls'] = self.wrap
        self.w = W.World(o, self.specs, hooks)
        self.files = os.path.dirname(os.path.abspath(o.__file__)) + os.sep

    def wrap(self, cls):
        player = self

        class Wrapped(cls):
            def format_error(self, error_code, context):
                if len(self.name) % 2:
                    return None
                try:
                    value = player.show(context.get_value())
                except ValueError:
                    value = 'no value'
                player.event('format', error_code, context.field.name, context.schema)
                return '|'.join([error_code, context.field.name, player.show(context.schema), value,
                                 repr(sorted(map(repr, context.metadata.items())))])
        Wrapped.__name__ = cls.__name__
        return Wrapped

    def show(self, x):
        """Text of anything, without identities."""
        o = self.o
        if isinstance(x, o.Schema):
            names = [n for n in type(x).__fields__]
            held = [(n, x.get_value_for(n, self)) for n in names]
            return '%s(%s)' % (type(x).__name__, ', '.join('%s=%s' % (n, self.show(v)) for n, v in held if v is not self))
        if isinstance(x, (o.LoadContext, o.DumpContext)):
            return '%s(%s, %s, %s, %s, %s)' % (type(x).__name__, x.field.name, type(x.schema).__name__, self.show(x.value), sorted(x.state),
                                               sorted(x.included_fields) if isinstance(x, o.DumpContext) else x.is_update())
        return V.text(x)

    def event(self, *args):
        me = self.local
        me.log.append(tuple(a if isinstance(a, str) else self.show(a) for a in args))
        if args[0] in ('validator', 'load', 'dump'):
            ctx = args[-1]
            me.log.append(('state', ctx.state.setdefault('of', args[0])))
        if self.turns and self.turns.busy[me.index]:
            self.turns.tick(me.index)

    def trace(self, frame, event, arg):
        if event == 'call':
            if not frame.f_code.co_filename.startswith(self.files):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.trace
        if event in ('line', 'opcode') and self.turns.busy[self.local.index]:
            self.turns.tick(self.local.index)
        return self.trace

    def errors(self, errs, inst, out, given):
        o = self.o
        for e in errs:
            ctx = e.context
            out.append((repr(e.key), e.field.name if e.field else None, type(e.schema).__name__,
                        inst is None or e.schema is inst, self.show(ctx) if ctx is not None else None,
                        ctx is None or ctx.schema is e.schema, repr(e.state), type(e).__name__,
                        repr(e.message) if not isinstance(e.message, dict) else sorted(map(repr, e.message))))
            if isinstance(e.message, dict):
                for k, es in e.message.items():
                    self.errors(es, None, out, given)

    def outcome(self, fn, inst=None):
        o = self.o
        try:
            res = fn()
        except o.ValidationError as err:
            out = []
            self.errors(err.errors, inst, out, None)
            return ('invalid', type(err.schema).__name__, inst is None or err.schema is inst, sorted(map(repr, out)),
                    sorted((repr(k), sorted(map(repr, v))) for k, v in err.raw().items()), str(err))
        except o.FrozenError as err:
            ent = err.entity
            return 'frozen', ent is inst, ent.name if isinstance(ent, o.fields.Field) else type(ent).__name__, str(err)
        except o.FieldNotSet as err:
            return 'unset', err.name, err.schema is inst, err.field.name
        except o.TypeValidationError as err:
            return 'types', repr(sorted((repr(k), v) for k, v in err.errors.items()))
        except FOREIGN as err:
            return 'foreign', type(err).__name__, str(err)
        return 'ok', self.show(res)

    def play(self, index):
        """[outcome, ...] of the operations of a thread."""
        o, me = self.o, self.local
        name, base, ops = self.threads[index]
        cls = self.w.cls[name]
        me.index, me.log = index, []
        out = []
        obj = None
        for d in base:
            d = self.w.materialise(d)
            made = []
            out.append(self.outcome(lambda: made.append(cls(d))))
            if made:
                obj = made[0]
                break
        if self.turns and (index == 0 or type(self.turns) is Turns):
            sys.settrace(self.trace)
        for op in ops:
            k = op[0]
            if self.turns:
                self.turns.busy[index] = True
            if k == 'types':
                types = {key: T.build(s) for key, s in op[1]}
                values = V.clone(op[2])
                out.append(self.outcome(lambda: o.validate_types(types, values, ignore_extra=op[3], ignore_missing=op[4])))
            elif k == 'init':
                d = self.w.materialise(op[2])
                out.append(self.outcome(lambda: cls(d)))
            elif obj is not None:
                if k == 'update':
                    d = self.w.materialise(op[1])
                    out.append(self.outcome(lambda: obj.update(d), obj))
                elif k == 'assign':
                    v = self.w.materialise(op[2])
                    out.append(self.outcome(lambda: setattr(obj, op[1], v), obj))
                elif k == 'dump':
                    kw = {op[1][0]: op[1][1]} if op[1] else {}
                    out.append(self.outcome(lambda: sorted((key, self.show(v)) for key, v in obj.dump(**kw).items()), obj))
                elif k == 'get':
                    out.append(self.outcome(lambda: getattr(obj, op[1]), obj))
                else:
                    out.append(self.outcome(obj.copy, obj))
                out.append(self.show(obj))
            if self.turns:
                self.turns.busy[index] = False
                self.turns.tick(index)
        return out, me.log

    def thread(self, index, results):
        turns = self.turns
        turns.wait(index)
        self.local.index = index
        try:
            try:
                results[index] = self.play(index)
            finally:
                sys.settrace(None)
        except BaseException as exc:
            results[index] = exc
        finally:
            turns.finish(index)


def compare(expected, results, rec):
    for i, (exp, got) in enumerate(zip(expected, results)):
        if isinstance(got, BaseException):
            raise got
        M.check(got is not None, 'thread %d did not end', i)
        rec.checks += len(exp[0])
        for n, (a, b) in enumerate(zip(exp[0], got[0])):
            M.check(a == b, 'thread %d, outcome %d: %r, alone it is %r', i, n, b, a)
        M.check(len(exp[0]) == len(got[0]), 'thread %d has another number of outcomes', i)
        for a, b in zip(exp[1], got[1]):
            M.check(a == b, 'thread %d: user code saw %r, alone it is %r', i, b, a)
        M.check(len(exp[1]) == len(got[1]), 'thread %d: %d calls of user code, alone %d', i, len(got[1]), len(exp[1]))
        for out in exp[0]:
            rec.label(out[0] if isinstance(out, tuple) else 'ok')


def run(o, case, rec):
    specs, threads, schedule = case[:3]
    if schedule[0] == 'strike':
        strikes(o, case, rec)
        return
    alone = Player(o, case)
    expected = [alone.play(i) for i in range(len(threads))]
    player = Player(o, case)
    player.turns = turns = Turns(len(threads), schedule)
    results = [None] * len(threads)
    ts = [threading.Thread(target=player.thread, args=(i, results), daemon=True) for i in range(len(threads))]
    for t in ts:
        t.start()
    turns.locks[turns.start].release()
    for t in ts:
        t.join(50)
    compare(expected, results, rec)
    rec.label('interrupted operations: %s' % (turns.amid if turns.amid < 3 else '3+'))
    rec.label('%d threads' % len(threads))
    if case[3]:
        rec.label('switched at opcodes')
    if turns.free:
        rec.label('ran freely')
    rec.nt(turns.amid)
