"""P11: validate_types reports exactly the offending keys; unsupported types never reject."""
import itertools
import typing as t
import warnings

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib.gen import strategy

RULE = ('A case is a mapping of 0-6 type expressions (some unsupported), 1-3 mappings of values with missing, unknown and '
        'offending keys under all flag combinations, and a history of up to 8 validations of fresh unsupported types under a '
        'changing global configuration with the warnings counted. Non-trivial: a call with at least two kinds of offending '
        'keys, or a warning expected and later suppressed.')
EXAMPLES = {'quick': 8000, 'thorough': 320000}
SERIAL = itertools.count()
KEYS = ['a', 'b', 'c', 'id', '', 'user name', '0', 'x', 'root', 'k', 'types']


def some_type(src):
    return T.types_with_unsup(src) if src.chance(4) else src.one(T.types_shallow, T.types_mid, T.leaf, T.everyday)


def gen(src):
    keys = src.subset(KEYS, 0, 6) if not src.chance(25) else KEYS + ['k%d' % i for i in range(src.pick([1, 10, 30]))]
    types = [(k, some_type(src) if len(keys) < 7 else T.leaf(src)) for k in keys]
    calls = []
    for _ in range(src.int(1, 3)):
        vals = []
        scarce = len(keys) > 6 and src.bool()
        for k, s in types:
            c = src.below(8)
            if c == 7 or scarce and c:
                continue
            vals.append((k, T.valid(src, s) if c < 4 else T.typed_value(src, s)))
        for k in src.subset([k for k in KEYS if k not in keys], 0, 2) if src.bool() else []:
            vals.append((k, T.atoms(src)))
        if src.chance(3):
            vals = src.shuffle(vals)
        calls.append((vals, src.pick([None, True, False]), src.pick([None, True, False]), src.pick(['dict', 'dict', 'umap', 'proxy']),
                      src.pick(['dict', 'dict', 'umap', 'proxy'])))
    fresh = [src.pick(['typevar', 'newtype', 'generic', 'deep generic', 'forward']) for _ in range(src.int(0, 2))]
    hist = []
    for _ in range(src.below(8) if fresh else 0):
        hist.append((src.below(len(fresh)), src.pick(['top', 'list', 'dict', 'opt', 'tuple', 'td']), src.pick(['call', 'field', 'kept field']),
                     src.pick([None, None, True, False, False]), src.pick([1, 'x', None, [3], {}, (1,)])))
    return types, calls, fresh, hist


def cases(tier):
    return strategy(gen)


WRAP = {'dict': dict, 'umap': V.UMap, 'proxy': lambda d: V.mappingproxy(dict(d))}


def make_fresh(kind, n):
    tv = t.TypeVar('Fresh%d' % n)
    if kind == 'typevar':
        return tv
    if kind == 'forward':
        return t.ForwardRef('Fresh%d_%d' % (n, next(SERIAL)))       # equal ones are the same type
    if kind == 'newtype':
        return t.NewType('Fresh%d' % n, int)
    cls = type(t.Generic)('Fresh%d' % n, (t.Generic[tv],), {}) if False else _generic('Fresh%d' % n, tv)
    return cls[int] if kind == 'generic' else cls[t.List[cls[str]]]


def _generic(name, tv):
    import types
    return types.new_class(name, (t.Generic[tv],), {}, lambda ns: None)


def shape(tp, how, v):
    """(type expression, a value of it that reaches tp)"""
    if how == 'top':
        return tp, v
    if how == 'list':
        return t.List[tp], [v, v]
    if how == 'dict':
        return t.Dict[str, tp], {'k': v}
    if how == 'opt':
        return t.Union[bytes, tp], v
    if how == 'tuple':
        return t.Tuple[int, tp], (1, v)
    if isinstance(tp, t.ForwardRef):
        return t.List[tp], [v]      # it would be resolved in a TypedDict
    return t.TypedDict('W', {'k': tp}), {'k': v}


def run(o, case, rec):
    types, calls, fresh, hist = case
    specs = dict(types)
    o.config.warn_unsupported_types = False
    for vals, ie, im, twrap, vwrap in calls:
        rec.checks += 1
        vals = dict(vals)
        tmap = WRAP[twrap]({k: T.build(s) for k, s in types})
        vmap = WRAP[vwrap](V.clone(vals))
        kinds = set()
        exp, unsure = {}, set()
        for k, v in vals.items():
            if k not in specs:
                if not ie:
                    exp[k] = ['Invalid key']
                    kinds.add('unknown')
                continue
            try:
                if not T.conforms(specs[k], v):
                    exp[k] = M.TypeMsgs(specs[k], v)
                    kinds.add('type')
            except T.Ambiguous:
                unsure.add(k)
        if not im:
            for k in specs:
                if k not in vals:
                    exp[k] = ['This key is missing.']
                    kinds.add('missing')
        kw = {}
        if ie is not None:
            kw['ignore_extra'] = ie
        if im is not None:
            kw['ignore_missing'] = im
        tkeep, vkeep = dict(tmap), V.text(vmap)
        try:
            res = o.validate_types(tmap, vmap, **kw)
            M.check(res is None, 'validate_types returned %r', res)
            got = {}
        except o.TypeValidationError as err:
            got = err.errors
            M.check(got, 'TypeValidationError without errors')
            for k in got:
                M.check(k in str(err), 'the message does not name %r: %s', k, err)
        for k in set(exp) | set(got):
            if k in unsure:
                continue
            M.check(k in got, 'key %r: expected %r, but it is not reported (%r)', k, exp.get(k), got)
            M.check(k in exp, 'key %r is reported with %r, but nothing is wrong with it', k, got[k])
            e = exp[k]
            if isinstance(e, M.TypeMsgs):
                M.check(isinstance(got[k], list) and e.matches(got[k]), 'key %r: %r does not fit %r', k, got[k], e)
            else:
                M.check(got[k] == e, 'key %r: expected %r, got %r', k, e, got[k])
        M.check(dict(tmap) == tkeep and list(tmap) == list(tkeep), 'the mapping of types was modified')
        M.check(V.text(vmap) == vkeep, 'the values were modified: %s -> %r', vkeep, vmap)
        rec.nt(len(kinds) > 1)
        rec.label('offending: ' + ('+'.join(sorted(kinds)) or 'none'))

    made = [make_fresh(k, i) for i, k in enumerate(fresh)]
    issued, hushed = set(), set()
    kept = {}
    o.config.warn_unsupported_types = True
    for n, (i, how, via, cfg, v) in enumerate(hist):
        rec.checks += 1
        tp, value = shape(made[i], how, v)
        if cfg is not None:
            if cfg and n % 2:
                o.config = o.GlobalConfig(warn_unsupported_types=cfg)
            else:
                o.config.warn_unsupported_types = cfg
        on = o.config.warn_unsupported_types
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            try:
                if via == 'call':
                    o.validate_types({'k': tp}, {'k': value})
                else:
                    if via == 'field' or (i, how) not in kept:
                        kept[i, how] = type(o.Schema)('S', (o.Schema,), {'k': o.fields.TypeExpr(tp, none=True)})
                    kept[i, how]({'k': value})
            except (o.TypeValidationError, o.ValidationError) as err:
                raise M.Mismatch('step %d: %r rejected for the unsupported type %r: %s' % (n, value, tp, err))
        mine = [w for w in seen if 'Fresh%d' % i in str(w.message)]
        # None never reaches the type of a field; bytes never matches, so the union reaches it
        reached = not (how in ('top', 'opt') and v is None and via != 'call')
        M.check(len(seen) == len(mine), 'step %d: unrelated warnings %r', n, [str(w.message) for w in seen])
        M.check(all(issubclass(w.category, UserWarning) for w in mine), 'step %d: not a UserWarning', n)
        want = 1 if on and reached and i not in issued else 0
        M.check(len(mine) == want, 'step %d: %d warnings for %r (%s, configured %s), expected %d', n, len(mine), tp, how, on, want)
        if want:
            issued.add(i)
            rec.label('warned')
            if i in hushed:
                rec.nt()
        elif on and reached:
            rec.label('warned before')
            rec.nt()
        elif reached:
            hushed.add(i)
            rec.label('silenced')
