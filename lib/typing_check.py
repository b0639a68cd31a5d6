"""Judging a value against a type expression through every public entry point."""
from . import model as M
from . import texpr as T
from . import vals as V

_ERR = '<error>'


def entry_points(o, s):
    """[(name, field factory or None)] through which s can be checked."""
    F = o.fields
    out = [('TypeExpr', lambda **kw: F.TypeExpr(T.build(s), **kw)), ('validate_types', None)]
    k = s[0]
    if k == 'union' and s[1] != 'O' and len(s[2]) > 1:
        out.append(('Union', lambda **kw: F.Union(*[T.build(x) for x in s[2]], **kw)))
    if k == 'lit':
        out.append(('Literal', lambda **kw: F.Literal(*s[1], **kw)))
    if k == 'list':
        out.append(('List', lambda **kw: F.List(T.build(s[2]), **kw)))
    if k == 'set':
        out.append(('Set', lambda **kw: F.Set(T.build(s[2]), **kw)))
    if k == 'dict':
        out.append(('Dict', lambda **kw: F.Dict(T.build(s[2]), T.build(s[3]), **kw)))
    if k == 'td':
        out.append(('TypedDict', lambda **kw: F.TypedDict(T.build(s), **kw)))
    if k == 'any':
        out.append(('Any', lambda **kw: F.Any(**kw)))
    if s == ('c', 'plainlist'):
        out.append(('List', lambda **kw: F.List(**kw)))
    if s == ('c', 'plaindict'):
        out.append(('Dict', lambda **kw: F.Dict(**kw)))
    if s == ('c', 'plainset'):
        out.append(('Set', lambda **kw: F.Set(**kw)))
    return out


STRUCT = {'List': (list, 'list'), 'Dict': (dict, 'dict'), 'Set': (set, 'set'), 'TypedDict': (dict, 'td')}


class Judge:
    """Everything needed to judge values against one type expression."""

    def __init__(self, o, s):
        self.o = o
        self.s = s
        self.points = []
        for name, factory in entry_points(o, s):
            if factory is None:
                tp = T.build(s)
                self.points.append((name, tp))
            else:
                cls = type(o.Schema)('S', (o.Schema,), {'k': factory(none=True, required=False)})
                self.points.append((name, cls))

    def check(self, v, expect, how, messages=True):
        """how: 'init' | 'update' | 'assign' for the fields."""
        o = self.o
        n = 0
        for name, target in self.points:
            if v is None and name != 'validate_types':
                continue          # decided by none=, not by the type
            n += 1
            errs = None
            if name == 'validate_types':
                try:
                    o.validate_types({'k': target}, {'k': v})
                except o.TypeValidationError as e:
                    M.check(set(e.errors) == {'k'}, 'errors under %r', e.errors)
                    errs = e.errors['k']
            else:
                held = None
                try:
                    if how == 'init':
                        held = target({'k': v})
                    else:
                        held = target({})
                        if how == 'update':
                            held.update({'k': v})
                        else:
                            held.k = v
                except o.ValidationError as e:
                    raw = e.raw()
                    M.check(set(raw) == {'k'}, 'errors under %r', raw)
                    errs = raw['k']
                else:
                    M.check(held.k is v, '%s of %r: the value became %r', name, v, held.k)
                    M.check(held.dump()['k'] is v, '%s: dumped another value', name)
            what = '%s with %s' % (name, show(self.s))
            if expect:
                M.check(errs is None, '%s rejected %r: %s', what, v, errs)
            else:
                M.check(errs is not None, '%s accepted %r', what, v)
                M.check(isinstance(errs, list) and errs and all(isinstance(x, str) and x for x in errs),
                        '%s: errors %r', what, errs)
                if name in STRUCT and not isinstance(v, STRUCT[name][0]):
                    M.check(errs == [M.DATATYPE[STRUCT[name][1]]], '%s: errors %r', what, errs)
                elif messages:
                    tm = M.TypeMsgs(self.s, v)
                    M.check(tm.matches(errs), '%s and %r: errors %r do not locate %r', what, v, errs, tm.expected)
        return n


CHANGES = [None, None, ('in', 0), ('in', 1), ('in', 2), ('re', 0), ('re', 1), ('re', 2)]


def mutate(j, s, v, how, change, rec):
    """The value is changed in place, judged, changed back and judged again: a judgement is about the value as it is."""
    keep = V.clone(v)
    for x in (V.Opaque('intruder'), None):
        undo = (V.intrude if change[0] == 'in' else V.usurp)(v, x, change[1])
        if undo is None:
            return False
        try:
            expect = T.conforms(s, v)
        except T.Ambiguous:
            pass
        else:
            rec.checks += j.check(v, expect, how)
        undo()
        M.check(V.same(v, keep), 'the value was modified: %r -> %r', keep, v)
        rec.checks += j.check(v, T.conforms(s, v), how)
    return True


def show(s):
    try:
        return repr(T.build(s)).replace('typing.', '')
    except Exception:
        return repr(s)
