"""Operations on generated schemas, performed on the library and the model together."""
import contextlib

from . import model as M
from . import world as W


def rawify(message):
    """The raw() form of a FieldError message, derived from the public attributes."""
    if isinstance(message, dict):
        return {k: [rawify(e.message) for e in v] for k, v in message.items()}
    return str(message)


def check_error(m, name, err, expected, text=True):
    """A ValidationError presents exactly the expected errors in all its forms."""
    raw = err.raw()
    M.compare_raw(expected, raw)
    mine = err.raw()
    for entries in list(mine.values()):
        entries.append('changed by the caller')
    mine.clear()
    M.check(repr(err.raw()) == repr(raw), 'raw() changed: %r -> %r', raw, err.raw())
    grouped = {}
    for e in err.errors:
        grouped.setdefault(e.key, []).append(rawify(e.message))
    M.check(set(grouped) == set(raw), 'errors have keys %r, raw() has %r', sorted(map(str, grouped)), sorted(map(str, raw)))
    for k in raw:
        M.check(sorted(map(repr, raw[k])) == sorted(map(repr, grouped[k])), 'errors of %r: %r, raw(): %r', k, grouped[k], raw[k])
    if text:
        M.compare_text(m, name, err)


def load(w, m, name, data, ignore=None, **kw):
    """(instance or None, expected values, expected errors, exception or None)"""
    values, errs = m.load(name, data, ignore)
    if ignore is not None:
        kw['ignore_extra'] = ignore
    try:
        obj = w.cls[name](data, **kw)
    except w.o.ValidationError as err:
        M.check(errs, 'valid data was rejected: %r -> %s', data, err.raw())
        return None, values, errs, err
    M.check(not errs, 'invalid data was accepted: %r (expected %r)', data, errs)
    return obj, values, errs, None


def first_ok(w, m, name, datas):
    """The first mapping that loads (if necessary without validators): (instance, values), or (None, None)."""
    for quiet in (False, True):
        for d in datas:
            d = w.materialise(d)
            with w.quietly() if quiet else contextlib.nullcontext():
                values, errs = m.load(name, d)
                if not errs:
                    return w.cls[name](d), values
    return None, None


def apply(w, m, name, obj, op):
    """Performs ('update', data, ignore) or ('assign', field, value) on obj.

    Returns (kind, expected values, expected errors, exception): kind is 'ok', 'error'
    or 'frozen' as the model expects; raises Mismatch if the library disagrees on it.
    """
    before = m.snapshot(obj)
    expect = errs = entity = None
    try:
        if op[0] == 'update':
            values, errs = m.update(name, before, op[1], op[2])
        else:
            values, errs = m.assign(name, before, op[1], op[2])
        expect = 'error' if errs else 'ok'
    except M.MFrozen as fz:
        expect, values, entity = 'frozen', before, fz.entity
    exc = None
    try:
        if op[0] == 'update':
            if op[2] is None:
                obj.update(op[1])
            else:
                obj.update(op[1], ignore_extra=op[2])
        else:
            setattr(obj, op[1], op[2])
        got = 'ok'
    except w.o.ValidationError as err:
        got, exc = 'error', err
    except w.o.FrozenError as err:
        got, exc = 'frozen', err
    M.check(got == expect, '%r: expected %s (%r), got %s (%s)', op, expect, errs, got,
            exc.raw() if got == 'error' else exc)
    return expect, values, errs if expect == 'error' else entity, exc
