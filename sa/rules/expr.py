"""C15: an expression keeps its meaning from the source text, through operations on it, to the text that is printed"""
from __future__ import annotations
import copy
import re
import zlib
from fractions import Fraction as Q
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Item, Const, Str, Phi, Seq, Rep, Opt, Splice, Sym, ClsV)
from ..grammar import Grammar
from ..norm import Scene, Fold, Norm
from ..project import AnalysisBroken
from .parse import visitors, where
from .visit import Run, S, leaves

NODES = ('Value', 'UnaryOp', 'BinaryOp', 'TrinaryOp')
ASKED = ('is_zero', 'is_id', 'is_value', 'is_str', 'is_constant', 'is_op', 'best', 'is_parameter', 'is_vector', 'is_scalar')
KEPT = ('value', 'data_type', 'object_type', 'shape_type', '_entries', 'int', 'float')
ARITH = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '**': 'pow', '__pow__': 'pow', '%': 'mod'}


# ------------------------------------------------------------------------------------------------ the value of a term
def number(text):
    """some fixed number for something that is not interpreted"""
    return Q(zlib.crc32(text.encode()) % 99991 + 7, 101)


class Cannot(Exception):
    pass


def apply(op, *xs):
    """the value of an operation; operations that are not rational functions are numbers that depend on their operands"""
    if op in ('add', '+') and len(xs) == 2:
        return xs[0] + xs[1]
    if op in ('sub', '-') and len(xs) == 2:
        return xs[0] - xs[1]
    if op in ('neg', '-') and len(xs) == 1:
        return -xs[0]
    if op in ('pos', '+', '__group__') and len(xs) == 1:
        return xs[0]
    if op in ('mul', '*'):
        return xs[0] * xs[1]
    if op in ('truediv', '/'):
        if xs[1] == 0:
            raise Cannot('a division by zero')
        return xs[0] / xs[1]
    if op in ('floordiv', '//'):
        if xs[1] == 0:
            raise Cannot('a division by zero')
        return Q(0) if xs[0] == 0 else number(f'floor({xs[0]}/{xs[1]})')
    if op in ('pow', '**', '__pow__'):
        if xs[1] == 0:
            return Q(1)
        return xs[0] if xs[1] == 1 or xs[0] in (0, 1) else number(f'pow({xs[0]},{xs[1]})')
    if op in ('abs', 'round') and len(xs) == 1:
        return abs(xs[0]) if op == 'abs' else number(f'round({xs[0]})')
    if op in COMPARED or op.strip('_') in COMPARED:
        op, (a, b) = op.strip('_'), xs
        op, a, b = (op, a, b) if op in ('lt', 'le') else ('lt' if op == 'gt' else 'le', b, a)
        return number(f'{op}({a},{b})')
    if op == '__trinary__':
        return number(f'trinary({xs[0]},{xs[1]},{xs[2]})')
    return number(f'{op}({",".join(map(str, xs))})')


COMPARED = dict(lt=lambda a, b: a < b, gt=lambda a, b: a > b, le=lambda a, b: a <= b, ge=lambda a, b: a >= b)


class Meaning:
    """value of a term whose free names have the given values; nodes and their wrappers mean what they hold"""

    def __init__(self, norm, values, through=()):
        self.norm, self.values, self.through = norm, values, set(through)

    def many(self, t):
        if isinstance(t, Seq):
            if any(isinstance(i, (Rep, Opt, Splice)) for i in t.items):
                raise Cannot('a list that is not known')
            return [self(i) for i in t.items]
        return [self(t)]

    def __call__(self, t):
        if not isinstance(t, Term):
            raise Cannot(repr(t))
        text = self.norm(t)
        if text in self.values:
            return self.values[text]
        if isinstance(t, Const):
            if isinstance(t.v, bool) or not isinstance(t.v, (int, float)):
                return number(repr(t.v))
            return Q(t.v)
        if isinstance(t, Seq):
            vs = self.many(t)
            return vs[0] if len(vs) == 1 else number(f'list({",".join(map(str, vs))})')
        if isinstance(t, Item) and isinstance(t.base, Attr) and t.base.name == 'expr' and isinstance(t.key, Const) and t.key.v == 0:
            return self(t.base.base)
        if isinstance(t, Attr) and t.name in ('value', '_value', 'expr', 'first') and not isinstance(t.base, Sym):
            return self(t.base)
        if isinstance(t, MCall):
            if t.name in ('as_type', 'copy') or t.name in self.through or t.name.strip('_') == 'pos':
                return self(t.recv)
            if t.name == 'best' or t.name in ('int', 'float') and len(t.args) == 1:
                return self(t.args[0])
            n = t.name.strip('_')
            if t.name.startswith('__') and (n in ARITH.values() or n in COMPARED or n in ('neg', 'abs', 'round')):
                return apply(n, self(t.recv), *[self(a) for a in t.args[:1]])
        if isinstance(t, App):
            kw = dict(t.kw)
            if t.fn.startswith('new:'):
                cls = t.fn[4:]
                names = self.norm.ctor(cls) or []
                for n, a in zip(names, t.args):
                    kw.setdefault(n, a)
                if cls == 'Expr':
                    return self(kw['expr'])
                if cls == 'Value':
                    if kw.get('object_type') is not None and 'function' in self.norm(kw['object_type']):
                        return number('function ' + self.norm(kw['value']))
                    return self(kw['value'])
                if cls in NODES:
                    if not isinstance(kw['op'], Const):
                        raise Cannot(f'an operation that is not known, {self.norm(kw["op"])}')
                    return apply(kw['op'].v, *[v for n in names[1:] for v in self.many(kw[n])])
            short = t.fn.split('.')[-1]
            if t.fn in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'pow', 'neg', 'pos', 'abs', 'round', 'mod', 'lt', 'gt', 'le', 'ge') \
                    or t.fn == 'div':
                return apply({'div': 'truediv', 'mod': '%'}.get(t.fn, t.fn), *[self(a) for a in t.args[:1 if t.fn == 'round' else 2]])
            if short in ('as_type', 'simplify', 'best', 'int', 'float', 'copy') or short in self.through:
                args = [a for a in t.args if not isinstance(a, ClsV)]
                if args:
                    return self(args[0])
        return number(text)


# ------------------------------------------------------------------------------------- operations between expressions
class Case(Scene):
    """operands of known kinds decide the questions that are asked about them"""

    def __init__(self, kinds, meaning):
        super().__init__()
        self.kinds, self.m = kinds, meaning     # name of a free term -> kind

    def kind(self, x):
        if isinstance(x, (MCall, App)) and (getattr(x, 'name', None) or x.fn.split('.')[-1]) in ('best', 'simplify', 'as_type', 'evaluate'):
            if isinstance(x, MCall) and x.name != 'best':
                return self.kind(x.recv)
            args = [a for a in x.args if not isinstance(a, ClsV)]
            return self.kind(args[0]) if args else None
        if isinstance(x, Item) and isinstance(x.base, Attr) and x.base.name == 'expr':
            return self.kind(x.base.base)
        if isinstance(x, App) and x.fn == 'new:Value':
            kw = dict(x.kw)
            v = kw.get('value', x.args[0] if x.args else None)
            return v.v if isinstance(v, Const) and isinstance(v.v, (int, float)) else None
        if isinstance(x, Const) and isinstance(x.v, (int, float)):
            return Q(x.v)
        return self.kinds.get(x.name) if isinstance(x, Sym) else None

    def decide(self, c, norm):
        r = self.ask(c)
        return super().decide(c, norm) if r is None else r

    def ask(self, c):
        if isinstance(c, Attr) or isinstance(c, MCall) and not c.args:
            k = self.kind(c.base if isinstance(c, Attr) else c.recv)
            return None if k is None else self.fact(c.name, k)
        if isinstance(c, App) and len(c.args) == 1 and c.fn.split('.')[-1] in ASKED:
            k = self.kind(c.args[0])
            return None if k is None else self.fact(c.fn.split('.')[-1], k)
        name, x, v = None, None, None
        if isinstance(c, MCall) and c.name == 'is_value' and len(c.args) == 1:
            x, v = c.recv, c.args[0]
        elif isinstance(c, App) and c.fn.split('.')[-1] == 'is_value' and len(c.args) == 2:
            x, v = c.args
        if x is not None:
            k = self.kind(x)
            if k is None or not isinstance(v, Const):
                return None
            return isinstance(k, (int, Q)) and k == v.v
        if isinstance(c, App) and c.fn == 'isinstance':
            k = self.kind(c.args[0])
            if k is not None:
                names = [repr(t).replace('<class ', '').replace('>', '') for t in
                         (c.args[1].items if isinstance(c.args[1], Seq) else c.args[1:])]
                mine = {'negop': ('UnaryOp', 'Op'), 'op': ('BinaryOp', 'Op')}.get(k, ('Value',))
                return any(n in names for n in mine)
        if isinstance(c, App) and c.fn in ('eq', 'ne') and len(c.args) == 2 and Const in map(type, c.args):
            a, b = c.args if isinstance(c.args[1], Const) else c.args[::-1]
            if isinstance(a, Attr) and a.name == 'op' and self.kind(a.base) is not None and isinstance(b, Const):
                return ({'negop': '-', 'op': '*'}.get(self.kind(a.base)) == b.v) == (c.fn == 'eq')
            if isinstance(a, App) and a.fn == 'len' and isinstance(a.args[0], Attr) and a.args[0].name in ('value', 'expr') \
                    and isinstance(b, Const) and isinstance(a.args[0].base, Sym):
                return (b.v == 1) == (c.fn == 'eq')
        if isinstance(c, App) and c.fn in COMPARED and len(c.args) == 2:
            try:
                ks = [self.kind(x) for x in c.args]
                if all(isinstance(k, (int, Q)) for k in ks):
                    return COMPARED[c.fn](*ks)
            except Cannot:
                return None
        return None

    @staticmethod
    def fact(name, k):
        const = isinstance(k, (int, Q))
        return {'is_zero': const and k == 0, 'is_id': k == 'id', 'is_op': k in ('op', 'negop'), 'is_constant': const,
                'is_str': False, 'is_parameter': False, 'is_vector': False, 'is_scalar': True}.get(name)


KINDS = {'0': Q(0), '1': Q(1), '-1': Q(-1), 'a number': Q(7, 3), 'a negative number': Q(-11, 5), 'an identifier': 'id',
         'an operation': 'op', 'a negation': 'negop'}
SELF = {'Value': ('0', '1', '-1', 'a number', 'a negative number', 'an identifier'), 'Op': ('an operation',),
        'UnaryOp': ('a negation',), 'Expr': ('an identifier',)}
METHODS = dict(add='+', sub='-', mul='*', truediv='/', floordiv='//', pow='**')


def value_of(name, kind):
    k = KINDS[kind]
    return k if isinstance(k, Q) else number(name + kind)


def interp(p):
    """nodes are made, asked and combined, but not looked into; other helpers are followed"""
    I = Interp(p)
    I.opaque_new = set(NODES) | {'Expr'}
    own = [f'__{x}__' for x in (*METHODS, *COMPARED, 'eq', 'ne', 'neg', 'pos', 'abs', 'round')]
    I.opaque_fn |= {f'{c}.{x}' for c in ('Value', 'Op') for x in ASKED + KEPT}
    I.opaque_fn |= {f'{c}.{x}' for c in (*NODES, 'Op') for x in (*own, 'as_type', 'simplify', 'evaluate')}
    return I


def ends(v, scene, norm, depth=0):
    """everything a term can be in a scenario; a question the scenario leaves open is answered both ways, once"""
    t = Fold(scene, norm)(v)
    c = open_question(t, scene, norm)
    if c is None or depth > 12:
        return [t]
    out = []
    for val in (True, False):
        for x in ends(t, answered(scene, norm(c), val), norm, depth + 1):
            if x not in out:
                out.append(x)
    return out


def open_question(t, scene, norm):
    if isinstance(t, Phi):
        return atom(t.cond, scene, norm)
    return None


def atom(c, scene, norm):
    if isinstance(c, App) and c.fn in ('and', 'or', 'not'):
        for a in c.args:
            if scene.decide(a, norm) is None:
                return atom(a, scene, norm)
    if isinstance(c, Phi):
        return atom(c.cond, scene, norm) if scene.decide(c.cond, norm) is None else c
    return c


def answered(scene, text, val):
    s = copy.copy(scene)
    if isinstance(s, Truth):
        s.case = answered(s.case, text, val)
    else:
        s.flags = dict(s.flags, **{text: val})
    return s


def operators(p, rep, norm):
    """s op o has the value of the operation between the values of s and o"""
    memo = {}
    for cls, selves in SELF.items():
        for meth, op in METHODS.items():
            for rev in (False, True):
                name = f'__{"r" if rev else ""}{meth}__'
                c = p.find_class(cls)
                f = p.method(c, name)
                if f is None:
                    if not rev:
                        rep.bad('operator', f'{cls}.{name}', f'{cls} has no {name}', c.module.name)
                    continue
                if f.cls is not c:
                    continue
                I = interp(p)
                st = State()
                s = I.sym('self', c)
                if cls == 'Expr':
                    st.over[('attr', s, 'expr')] = Seq('list', (I.sym('inner'),))
                v = I.freeze(I.call_func(f, [I.sym('other')], {}, st, self_=s), st)
                rep.uses(f.module.name)
                for a in selves:
                    for b in KINDS:
                        if cls != 'Value' and b in ('a negative number',):
                            continue
                        ka, kb = (b, a) if rev else (a, b)
                        if meth in ('truediv', 'floordiv') and kb == '0':
                            continue
                        if meth == 'floordiv' and kb in ('1', '-1') and cls == 'Op':
                            continue   # an operation divided by one is itself, which need not be an integer
                        if meth == 'pow' and ka == '0' and kb in ('0', '-1', 'a negative number'):
                            continue
                        sv, ov = value_of('self', a), value_of('other', b)
                        values = {'self': sv, 'other': ov, 'inner': sv, 'self.value': sv, 'self._value': sv, 'other.value': ov,
                                  'self.expr': sv, 'other.expr': ov}
                        if b == 'a negation':
                            values['other.value[0]'] = values['other.value'] = -ov
                        if a == 'a negation':
                            values['self.value[0]'] = values['self.value'] = -sv
                        kinds = {'self': KINDS[a], 'other': KINDS[b], 'inner': KINDS[a]}
                        check(rep, norm, v, Meaning(norm, values), Case(kinds, None), apply(METHODS[meth], *((ov, sv) if rev else (sv, ov))),
                              'operator', f'{cls}.{name}', f'{ka} {op} {kb}', f)
        for meth in ('neg', 'pos', 'abs'):
            c = p.find_class(cls)
            f = p.method(c, f'__{meth}__')
            if f is None:
                rep.bad('operator', f'{cls}.__{meth}__', f'{cls} has no __{meth}__', c.module.name)
                continue
            if f.cls is not c:
                continue
            I = interp(p)
            st = State()
            s = I.sym('self', c)
            if cls == 'Expr':
                st.over[('attr', s, 'expr')] = Seq('list', (I.sym('inner'),))
            if cls == 'UnaryOp':
                if meth == 'abs':
                    continue
                st.over[('attr', s, 'op')] = K('-')
                st.over[('attr', s, 'value')] = Seq('list', (I.sym('inner'),))
            v = I.freeze(I.call_func(f, [], {}, st, self_=s), st)
            for a in selves:
                sv = value_of('self', a)
                values = {'self': sv, 'inner': sv, 'self.value': sv, 'self._value': sv}
                if a == 'a negation':
                    values.update({'inner': -sv})
                check(rep, norm, v, Meaning(norm, values), Case({'self': KINDS[a], 'inner': KINDS[a]}, None),
                      apply(meth, sv), 'operator', f'{cls}.__{meth}__', f'{meth} {a}', f)
    v = p.find_class('Value')
    for meth in COMPARED:
        f = p.method(v, f'__{meth}__')
        I = interp(p)
        st = State()
        s = I.sym('self', v)
        t = I.freeze(I.call_func(f, [I.sym('other')], {}, st, self_=s), st)
        for a in SELF['Value']:
            for b in KINDS:
                sv, ov = value_of('self', a), value_of('other', b)
                values = {'self': sv, 'other': ov, 'self.value': sv, 'self._value': sv, 'other.value': ov}
                check(rep, norm, t, Meaning(norm, values), Case({'self': KINDS[a], 'other': KINDS[b]}, None), apply(meth, sv, ov),
                      'operator', f'Value.__{meth}__', f'{a} {meth} {b}', f)


def check(rep, norm, v, meaning, case, want, rule, construct, words, f):
    for t in ends(v, case, norm):
        try:
            got = meaning(t)
        except Cannot as e:
            rep.bad(rule, f'{construct} ({words})', f'{construct}, {words}: gives {e}', where(f))
            return
        if got != want:
            rep.bad(rule, f'{construct} ({words})', f'{construct}, {words}: gives {norm(t)[:200]}, which has another value', where(f))
            return
    rep.ok(rule, f'{construct}: {words}')


# -------------------------------------------------------------------------------- simplify, evaluate, as_type of a node
OPS2 = ('+', '-', '*', '/', '//', '%', '__pow__', '<<', '>>', '__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__neq__', '__or__',
        '__and__', '__getitem__', '__struct_access__', '__pointer_access__')
SIDES = {'UnaryOp': ('value',), 'BinaryOp': ('left', 'right'), 'TrinaryOp': ('first', 'second', 'third')}


def rebuilt(p, rep, norm):
    """simplify, evaluate and as_type give the same operation between the operands, each processed in the same way"""
    for cls, sides in SIDES.items():
        c = p.find_class(cls)
        ops = {'UnaryOp': ('-', '+', '__not__', '__group__', 'abs', 'round', 'sin'), 'BinaryOp': OPS2 + ('__call__', 'atan2'),
               'TrinaryOp': ('__trinary__',)}[cls]
        for meth in ('simplify', 'evaluate', 'as_type'):
            f = p.method(c, meth)
            if f is None:
                rep.bad('rebuilt', f'{cls}.{meth}', f'{cls} has no {meth}', c.module.name)
                continue
            rep.uses(f.module.name)
            for op in ops:
                I = interp(p)
                st = State()
                s = I.sym('self', c)
                I.exact.add(s)
                st.over[('attr', s, 'op')] = K(op)
                for x in sides:
                    st.over[('attr', s, x)] = Seq('list', (I.sym(x),))
                extra = [I.sym('known')] if meth != 'simplify' else []
                v = I.freeze(I.call_func(f, extra, {}, st, self_=s), st)
                kinds = ('0', '1', 'a number', 'an identifier', 'an operation') if meth == 'simplify' and cls == 'BinaryOp' else \
                    ('an identifier', '1', '0') if meth == 'simplify' else ('an identifier',)
                todo = [()]
                for _ in sides:
                    todo = [t + (k,) for t in todo for k in kinds]
                for ks in todo:
                    if op in ('/', '//', '%') and ks[-1] == '0' or op == '__pow__' and ks[0] == '0':
                        continue
                    vals = [value_of(x, k) for x, k in zip(sides, ks)]
                    values = {f'{x}.{meth}({"known" if extra else ""})': y for x, y in zip(sides, vals)}
                    if meth == 'simplify':
                        values.update(zip(sides, vals))
                    case = Case({x: KINDS[k] for x, k in zip(sides, ks)}, None)
                    if cls == 'TrinaryOp':
                        case = Truth(case)
                    want = apply(op, *vals)
                    if cls == 'TrinaryOp' and meth == 'simplify' and ks[0] in ('0', '1'):
                        want = {want, vals[1] if ks[0] == '1' else vals[2]}
                    check2(rep, norm, v, Meaning(norm, values, ('simplify',)), case, want, f'{cls}.{meth}',
                           f'{op} of ' + ', '.join(ks), f)
            # several operands on one side stay in order
            I = interp(p)
            st = State()
            s = I.sym('self', c)
            I.exact.add(s)
            st.over[('attr', s, 'op')] = K('__call__' if cls == 'BinaryOp' else 'max' if cls == 'UnaryOp' else '__trinary__')
            names, want = [], []
            for x in sides:
                st.over[('attr', s, x)] = Seq('list', (I.sym(x + '1'), I.sym(x + '2')))
                names += [x + '1', x + '2']
            v = I.freeze(I.call_func(f, [I.sym('known')] if meth != 'simplify' else [], {}, st, self_=s), st)
            vals = [number(n) for n in names]
            values = {f'{x}.{meth}({"known" if meth != "simplify" else ""})': y for x, y in zip(names, vals)}
            check2(rep, norm, v, Meaning(norm, values, ('simplify',)), Truth(Case({}, None)),
                   apply(norm_op(st, s), *vals), f'{cls}.{meth}', 'several operands', f)
    e = p.find_class('Expr')
    for meth in ('simplify', 'evaluate'):
        f = p.method(e, meth)
        I = interp(p)
        I.opaque_new = set()
        st = State()
        s = I.sym('self', e)
        st.over[('attr', s, 'expr')] = Seq('list', (I.sym('x1'),))
        v = I.freeze(I.call_func(f, [I.sym('known')] if meth != 'simplify' else [], {}, st, self_=s), st)
        value = number('x1')
        values = {f'x1.{meth}({"known" if meth != "simplify" else ""})': value}
        m = Meaning(norm, values, ('simplify',))
        m.loose = True
        check2(rep, norm, v, m, Case({}, None), value, f'Expr.{meth}', 'its expression', f)
    vc = p.find_class('Value')
    f = p.method(vc, 'evaluate')
    for const in (True, False):
        for known in (True, False):
            I = interp(p)
            st = State()
            s = I.sym('self', vc)
            v = I.freeze(I.call_func(f, [I.sym('known')], {}, st, self_=s), st)
            fl = {'self.is_constant': const, 'in(self.value, known)': known, 'in(self._value, known)': known, 'self._entries': False,
                  'len(self._entries)': False, 'self.is_id': not const}
            want = {'known[self.value]', 'known[self.value].expr[0]', 'known[self._value]', 'known.get(self.value)', 'Value.best(known[self.value])',
                    'known[self.value].first'} if known and not const else {'self'}
            got = {norm(x) for x in ends(v, S(flags=fl), norm)}
            if got <= want:
                rep.ok('rebuilt', f'Value.evaluate: {sorted(got)}')
            else:
                rep.bad('rebuilt', f'Value.evaluate constant={const} known={known}', f'a value that is '
                        f'{"a constant" if const else "an identifier"} {"with" if known else "without"} a known value evaluates to '
                        f'{sorted(got - want)[0][:200]}', where(f))


def norm_op(st, s):
    return st.over[('attr', s, 'op')].v


class Truth(Scene):
    """as another case; True and False are 1 and 0"""

    def __init__(self, case):
        super().__init__()
        self.case = case

    def decide(self, c, norm):
        if isinstance(c, (MCall, App)):
            args = c.args if isinstance(c, App) else (c.recv,) + tuple(c.args)
            if (getattr(c, 'name', None) or c.fn.split('.')[-1]) == 'is_value' and isinstance(args[-1], Const) and isinstance(args[-1].v, bool):
                k = self.case.kind(args[0])
                if k is not None:
                    return isinstance(k, Q) and k == int(args[-1].v)
        return self.case.decide(c, norm)


def check2(rep, norm, v, meaning, case, want, construct, words, f):
    want = want if isinstance(want, set) else {want}
    for t in ends(v, case, norm):
        try:
            got = meaning(t)
        except Cannot as e:
            got, why = None, str(e)
        if got not in want:
            rep.bad('rebuilt', f'{construct} ({words})', f'{construct}, {words}: gives {norm(t)[:200]}, which has another value '
                    'than the operation between its operands', where(f))
            return
    rep.ok('rebuilt', f'{construct}: {words}')


# ------------------------------------------------------------------------------------------------ every operand reached
def reached(p, rep, norm):
    for cls, sides in list(SIDES.items()) + [('Expr', ('expr',))]:
        c = p.find_class(cls)
        for meth in ('depends_on', '__contains__', 'verify_parameters'):
            f = p.method(c, meth)
            if f is None:
                rep.bad('reached', f'{cls}.{meth}', f'{cls} has no {meth}', c.module.name)
                continue
            I = interp(p)
            st = State()
            s = I.sym('self', c)
            I.exact.add(s)
            names = []
            for x in sides:
                st.over[('attr', s, x)] = Seq('list', (I.sym(x + '1'), I.sym(x + '2')))
                names += [x + '1', x + '2']
            v = I.freeze(I.call_func(f, [I.sym('what')], {}, st, self_=s), st)
            rep.uses(f.module.name)
            if meth == 'verify_parameters':
                got = [norm(e.data[0]) for e in I.events if e.kind == 'mcall' and e.data[1] == meth and
                       not [c for c, _ in e.pc if 'in_loop' not in norm(c)] and
                       [norm(x) for x in e.data[2].items] == ['what']]
                for n in names:
                    if n in got:
                        rep.ok('reached', f'{cls}.{meth}: {n}')
                    else:
                        rep.bad('reached', f'{cls}.{meth} {n[:-1]}', f'{cls}.{meth} does not reach every operand of `{n[:-1]}`', where(f))
                continue
            for n in names + [None]:
                q = {True: True, False: False}
                fl = {}
                for m in names:
                    for text in (f'{m}.depends_on(what)', f'in(what, {m})', f'{m}.__contains__(what)'):
                        fl[text] = m == n
                sc = S(flags=fl)
                d = sc.decide(Fold(sc, norm)(v), norm)
                if d is (n is not None):
                    rep.ok('reached', f'{cls}.{meth}: {n}')
                else:
                    rep.bad('reached', f'{cls}.{meth} {n or "none"}', f'{cls}.{meth} is {d if d is not None else norm(v)[:100]} when '
                            + (f'only an operand of `{n[:-1]}` has it' if n else 'no operand has it'), where(f))
    v = p.find_class('Value')
    f = p.method(v, 'verify_parameters')
    I = interp(p)
    st = State()
    s = I.sym('self', v)
    I.call_func(f, [I.sym('what')], {}, st, self_=s)
    sets = [e for e in I.events if e.kind == 'setattr' and e.data[1] in ('_object', 'object_type')]
    ok = len(sets) == 1 and norm(sets[0].data[2]) == 'ObjectType.parameter'
    if ok:
        for is_id in (True, False):
            for there in (True, False):
                sc = S(flags={'self.is_id': is_id, 'in(self.value, what)': there, 'in(self._value, what)': there})
                ds = [(sc.decide(Fold(sc, norm)(c), norm) is pol) for c, pol in sets[0].pc]
                ok = ok and all(ds) is (is_id and there)
    if ok:
        rep.ok('reached', 'Value.verify_parameters: an identifier that is one of the names')
    else:
        rep.bad('reached', 'Value.verify_parameters', 'an identifier does not become a parameter exactly if it is one of the names', where(f))
    f = p.method(v, 'depends_on')
    I = interp(p)
    st = State()
    t = I.freeze(I.call_func(f, [I.sym('what')], {}, st, self_=I.sym('self', v)), st)
    for const in (True, False):
        for same in (True, False):
            sc = S(flags={'self.is_constant': const, 'self.is_id': not const, 'eq(self.value, what)': same, 'eq(what, self.value)': same,
                          'any([each(self._entries: self._entries#*.depends_on(what))])': False, 'self._entries': False})
            d = sc.decide(Fold(sc, norm)(t), norm)
            if d is (same and not const):
                rep.ok('reached', f'Value.depends_on: constant {const}, same name {same}')
            else:
                rep.bad('reached', f'Value.depends_on constant={const} same={same}', f'Value.depends_on is {d} for '
                        f'{"a constant" if const else "an identifier"} {"of" if same else "not of"} the name', where(f))


# ---------------------------------------------------------------------------------------------------- reading the source
def read(p, rep, norm):
    """every production of an expression makes the operation it stands for, of its parts in the order of the source"""
    a, b, c = number('e0'), number('e1'), number('e2')
    two = {'v(expr#0)': a, 'v(expr#1)': b}
    ident = number('text(Identifier)')
    table = []

    def r(name, sc, want, values):
        table.append((f'visitExpression{name}', sc, want, values))
    for plus in (True, False):
        r('UnaryPM', S(dict(Plus=plus, Minus=not plus), dict(str=False)), a if plus else -a, {'v(expr)': a})
        r('BinaryPM', S(dict(Plus=plus, Minus=not plus)), a + b if plus else a - b, two)
        r('BinaryMD', S(dict(Mult=plus, Div=not plus)), a * b if plus else a / b, two)
        r('BinaryLogic', S(dict(AndAnd=plus, OrOr=not plus)), apply('__and__' if plus else '__or__', a, b), two)
    r('Grouping', S(), a, {'v(expr)': a})
    r('Exponentiation', S(), apply('pow', a, b), two)
    for n, op in dict(Mod='%', LeftShift='<<', RightShift='>>', NotEqual='__neq__', Equal='__eq__', LessEqual='__le__',
                      GreaterEqual='__ge__', Less='__lt__', Greater='__gt__').items():
        r('Binary' + n, S(), apply(op, a, b), two)
    r('UnaryLogic', S(dict(Not=True)), apply('__not__', a), {'v(expr)': a})
    r('TrinaryLogic', S(), apply('__trinary__', a, b, c), dict(two, **{'v(expr#2)': c}))
    for n, op in (('PointerAccess', '__pointer_access__'), ('StructAccess', '__struct_access__'), ('ArrayAccess', '__getitem__')):
        r(n, S(), apply(op, ident, a), {'v(expr)': a, 'text(Identifier)': ident})
    r('Zero', S(), Q(0), {})
    for n, t in (('Integer', 'IntegerLiteral'), ('Float', 'FloatingLiteral')):
        r(n, S(), number(t), {f'text({t})': number(t)})
    seen = {}
    for v in visitors(p):
        for name, sc, want, values in table:
            f = v.methods.get(name)
            if f is None:
                continue
            key = id(f.node)
            if key not in seen:
                seen[key] = Run(p, v.cls, f), set()
            run, done = seen[key]
            if (about(sc)) in done:
                continue
            done.add(about(sc))
            rep.uses(f.module.name)
            t = Fold(sc, norm)(run.I.freeze(run.value, run.st))
            m = Meaning(norm, values)
            for x in ends(t, sc, norm):
                try:
                    got = m(Fold(sc, norm)(x))
                except Cannot as e:
                    got = None
                if got != want:
                    rep.bad('read', f'{name} {about(sc)}'.strip(), f'{name} {about(sc)} reads its parts as {norm(x)[:200]}', where(f))
                    break
            else:
                rep.ok('read', f'{v.cls.name}.{name} {about(sc)}: {norm(t)[:100]}')
    texts = dict(
        visitExpressionFunctionCall={"Expr(expr=BinaryOp(op='__call__', left=Value(value=text(Identifier), object_type=ObjectType.function), "
                                     f"right=[each(expr: v(expr#*).{x})]))" for x in ('expr[0]', 'first')},
        visitExpressionString={"Expr.str(join('\"', each(StringLiteral: inner(StringLiteral#*)), '\"'))"},
        visitExpressionFloat={'Expr.float(text(FloatingLiteral))'}, visitExpressionInteger={'Expr.int(text(IntegerLiteral))'},
        visitExpressionZero={'Expr.int(0)', "Expr.int('0')"}, getExpr={'v(ctx)'})
    known = {}
    for given in (True, False):
        known[given] = 'Expr(expr=Value(value=text(Identifier), data_type={}, object_type=ObjectType.{}))'.format(
            'get_parameter(self.state, text(Identifier), None).value.data_type' if given else 'DataType.undefined',
            'parameter' if given else 'identifier')
    seen = set()
    for v in visitors(p):
        for name, right in texts.items():
            f = v.methods.get(name)
            if f is None or id(f.node) in seen:
                continue
            seen.add(id(f.node))
            run = Run(p, v.cls, f)
            got = run.show(run.value, S())
            if got in right:
                rep.ok('read', f'{v.cls.name}.{name}: {got}')
            else:
                rep.bad('read', f'{name} text', f'{name} gives {got[:200]} instead of {sorted(right)[0]}', where(f))
        f = v.methods.get('visitExpressionIdentifier')
        if f is not None and 'translators' not in v.cls.module.name and id(f.node) not in seen:
            seen.add(id(f.node))
            run = Run(p, v.cls, f)
            for given in (True, False):
                got = set()
                for g in (f'get_parameter(self.state, text(Identifier), None) given', 'self.state.get_parameter(text(Identifier), None) given'):
                    got.add(run.show(run.value, S(flags={g: given})).replace('self.state.get_parameter(', 'get_parameter(self.state, '))
                if known[given] in got:
                    rep.ok('read', f'{v.cls.name}.visitExpressionIdentifier: {known[given]}')
                else:
                    rep.bad('read', f'visitExpressionIdentifier parameter={given}', 'an identifier that is '
                            f'{"" if given else "not "}an instrument parameter is read as {sorted(got)[0][:250]}', where(f))
        f = v.methods.get('visitInitializerlist')
        if f is not None and id(f.node) not in seen:
            seen.add(id(f.node))
            run = Run(p, v.cls, f)
            got = run.show(run.value, S())
            if re.match(r'^Expr(\(expr=|\.array\()', got) and 'each(expr: ' in got and 'v(expr#*).expr[0]' in got:
                rep.ok('read', f'{v.cls.name}.visitInitializerlist: {got[:100]}')
            else:
                rep.bad('read', 'visitInitializerlist', f'an initializer list is read as {got[:200]}', where(f))


def about(sc):
    return ' '.join(sorted(k for k, x in sc.present.items() if x))


# --------------------------------------------------------------------------------------------------------- printed text
class Reader:
    """reads an expression the way the grammar does: the order of the alternatives of `expr` is the order of binding"""
    TOKEN = re.compile(r'\s*(\d+|[A-Za-z_]\w*|->|<<|>>|!=|==|<=|>=|&&|\|\||.)')

    def __init__(self, grammar, text):
        self.binary, self.prefix, self.right = {}, {}, set()
        alts = grammar.rules.get('expr')
        if not alts:
            raise AnalysisBroken('the grammar has no rule expr')
        level = len(alts)
        self.empty_first = None
        for i, alt in enumerate(alts):
            prec = level - i
            els = alt.els
            if all(e.optional for e in els) and self.empty_first is None:
                self.empty_first = prec
            kinds = [e.name if e.kind == 'rule' else (literal(e, grammar),) for e in els]
            ops = [literal(e, grammar) for e in els if e.kind != 'rule' and e.name != 'Identifier']
            if len(els) >= 3 and kinds[0] == 'expr' and kinds[-1] == 'expr' and '?' not in ops:
                for o in ops:
                    self.binary[o] = prec
                    if alt.label and 'Exponent' in alt.label:
                        self.right.add(o)
            elif kinds[0] == 'expr' and '?' in ops:
                self.binary['?'] = prec
            elif kinds[-1] == 'expr' and els[0].kind != 'rule' and els[0].name != 'Identifier':
                for o in ops:
                    self.prefix[o] = prec
            elif kinds[-1] == 'expr' and els[0].name == 'Identifier':
                self.prefix['ident' + ops[0]] = prec
        self.toks = self.TOKEN.findall(text)
        self.i = 0
        self.text = text

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, t=None):
        x = self.peek()
        if x is None or t is not None and x != t:
            raise Cannot(f'`{self.text}` cannot be read')
        self.i += 1
        return x

    def read(self):
        t = self.expr(0)
        if self.peek() is not None:
            raise Cannot(f'`{self.text}` cannot be read after `{"".join(self.toks[:self.i])}`')
        return t

    def expr(self, least):
        left = self.primary()
        while True:
            o = self.peek()
            prec = self.binary.get(o)
            if prec is None or prec < least:
                return left
            self.take()
            if o == '?':
                second = self.expr(0)
                self.take(':')
                third = self.expr(prec + 1)
                left = ('__trinary__', left, second, third)
                continue
            right = self.expr(prec if o in self.right else prec + 1)
            if left == ('empty',) and o in ('+', '-'):
                left = ('neg', right) if o == '-' else right
            elif ('empty',) in (left, right):
                raise Cannot(f'`{self.text}` is read as an operation on nothing')
            else:
                left = (o, left, right)

    def primary(self):
        o = self.peek()
        if o in ('+', '-'):
            if self.empty_first is not None and self.empty_first > self.prefix.get(o, 0):
                return ('empty',)
            self.take()
            x = self.expr(self.prefix[o])
            return ('neg', x) if o == '-' else x
        if o == '!':
            self.take()
            return ('!', self.expr(self.prefix['!']))
        if o == '(':
            self.take()
            x = self.expr(0)
            self.take(')')
            return x
        if o is None or not re.match(r'\w', o):
            raise Cannot(f'`{self.text}` cannot be read at `{o}`')
        self.take()
        n = self.peek()
        if re.match(r'[A-Za-z_]', o):
            if n in ('->', '.'):
                self.take()
                return (n, (o,), self.expr(self.prefix['ident' + n]))
            if n == '[':
                self.take()
                x = self.expr(0)
                self.take(']')
                return ('[]', (o,), x)
            if n == '(':
                self.take()
                xs = [self.expr(0)]
                while self.peek() == ',':
                    self.take()
                    xs.append(self.expr(0))
                self.take(')')
                return ('call', (o,), *xs)
        return (o,)


def literal(e, grammar):
    """the text of a token"""
    known = {'AndAnd': '&&', 'OrOr': '||', 'Not': '!'}
    if e.kind == 'literal':
        return e.name.strip("'")
    lit = getattr(e, 'literal', None)
    if lit:
        return lit.strip("'")
    for text, name in grammar.literals.items():
        if name == e.name:
            return text.strip("'")
    return known.get(e.name, e.name)


TEXT = {'__lt__': '<', '__gt__': '>', '__le__': '<=', '__ge__': '>=', '__neq__': '!=', '__eq__': '==', '__or__': '||', '__and__': '&&',
        '__pow__': '^', '__getitem__': '[]', '__struct_access__': '.', '__pointer_access__': '->', '//': '/'}


def plain(t):
    """a tree without groups, with signs in front of products"""
    if t[0] == '-1':
        return ('neg', ('1',))
    if len(t) == 1:
        return t
    ks = [plain(x) for x in t[1:]]
    if t[0] in ('__group__', 'pos'):
        return ks[0]
    if t[0] == 'neg':
        return ks[0][1] if ks[0][0] == 'neg' else ('neg', ks[0])
    if t[0] in ('*', '/'):
        n = sum(k[0] == 'neg' for k in ks)
        ks = [k[1] if k[0] == 'neg' else k for k in ks]
        return ('neg', (t[0], *ks)) if n % 2 else (t[0], *ks)
    return (t[0], *ks)


class Tree:
    """a node given as (class, op, operands...) with leaves given by text"""

    def __init__(self, p, I, st):
        self.p, self.I, self.st, self.n, self.texts = p, I, st, 0, {}
        self.cls = {c: p.find_class(c) for c in NODES}

    def make(self, spec):
        self.n += 1
        if isinstance(spec, str):
            s = self.I.sym(f'leaf{self.n}', self.cls['Value'])
            self.I.exact.add(s)
            self.texts[s] = spec
            return s
        cls, op, kids = spec[0], spec[1], spec[2:]
        s = self.I.sym(f'node{self.n}', self.cls[cls])
        self.I.exact.add(s)
        self.st.over[('attr', s, 'op')] = K(op)
        self.st.over[('attr', s, 'style')] = K('C')
        for side, kid in zip(SIDES[cls], kids):
            many = kid if isinstance(kid, list) else [kid]
            self.st.over[('attr', s, side)] = Seq('list', tuple(self.make(k) for k in many))
        return s


def tree(spec):
    """the same as a tree of text operators"""
    if isinstance(spec, str):
        return (spec,)
    cls, op, kids = spec[0], spec[1], spec[2:]
    flat = [tree(k) for kid in kids for k in (kid if isinstance(kid, list) else [kid])]
    if cls == 'UnaryOp':
        if op == '__not__':
            return ('!', *flat)
        if op in ('-', '+', '__group__'):
            return ({'-': 'neg', '+': 'pos'}.get(op, op), *flat)
        return ('call', (op,), *flat)
    if op == '__call__':
        return ('call', *flat)
    if cls == 'BinaryOp' and op not in TEXT and re.match(r'[a-z]', op):
        return ('call', (op,), *flat)
    return (TEXT.get(op, op), *flat)


def text_of(t, leaf, how, norm):
    """the text of a term, with the texts of the leaves in place of their printed form"""
    if isinstance(t, Const):
        return str(t.v)
    if isinstance(t, Str):
        return pieces(t.parts, leaf, how, norm)
    if isinstance(t, Phi):
        return text_of(t.a if holds(t.cond, leaf, how, norm) else t.b, leaf, how, norm)
    if isinstance(t, Sym) and t in leaf:
        if how not in (None, 'str'):
            raise Cannot(f'an operand is printed without `{how}`')
        return leaf[t]
    if isinstance(t, (App, MCall)):
        name = t.fn if isinstance(t, App) else t.name
        args = list(t.args) if isinstance(t, App) else [t.recv, *t.args]
        s = next((a for a in args if isinstance(a, Sym) and a in leaf), None)
        if name in ('str', 'fmt', 'format', '__str__', '__format__', 'repr') and s is not None:
            got = [a.v for a in args if isinstance(a, Const)]
            if how is not None and how != 'str' and how not in got:
                raise Cannot(f'an operand is printed without `{how}`')
            return leaf[s]
        if name in ('str', 'format', 'fmt') and args:
            return text_of(args[0], leaf, how, norm)
        if name == 'join' and isinstance(args[-1], Seq):
            return text_of(args[0], leaf, how, norm).join(text_of(x, leaf, how, norm) for x in args[-1].items)
    if isinstance(t, Item) and isinstance(t.key, App) and t.key.fn == 'slice':
        ks = [x.v if isinstance(x, Const) else None for x in t.key.args]
        return text_of(t.base, leaf, how, norm)[slice(*ks)]
    if isinstance(t, Item) and isinstance(t.key, Const):
        return text_of(t.base, leaf, how, norm)[t.key.v]
    raise Cannot(f'text that depends on {norm(t)[:80]}')


def pieces(parts, leaf, how, norm):
    out = ''
    for x in parts:
        if isinstance(x, Opt):
            out += pieces(x.a if holds(x.cond, leaf, how, norm) else x.b, leaf, how, norm)
        else:
            out += x if isinstance(x, str) else text_of(x, leaf, how, norm)
    return out


def holds(c, leaf, how, norm):
    if isinstance(c, Const):
        return bool(c.v)
    if isinstance(c, App):
        if c.fn == 'not':
            return not holds(c.args[0], leaf, how, norm)
        if c.fn == 'and':
            return all(holds(x, leaf, how, norm) for x in c.args)
        if c.fn == 'or':
            return any(holds(x, leaf, how, norm) for x in c.args)
        if c.fn in ('in', 'eq', 'ne'):
            a = text_of(c.args[0], leaf, how, norm)
            if c.fn == 'in':
                b = [text_of(x, leaf, how, norm) for x in c.args[1].items] if isinstance(c.args[1], Seq) else \
                    text_of(c.args[1], leaf, how, norm)
                return a in b
            return (a == text_of(c.args[1], leaf, how, norm)) == (c.fn == 'eq')
    if isinstance(c, MCall) and c.name == 'startswith':
        what = c.args[0]
        ws = tuple(x.v for x in what.items) if isinstance(what, Seq) else what.v
        return text_of(c.recv, leaf, how, norm).startswith(ws)
    raise Cannot(f'text that depends on whether {norm(c)[:80]}')


def children():
    """operations that can be an operand"""
    out = ['b', '-1']
    for op in ('-', '__not__', '__group__', 'abs'):
        out.append(('UnaryOp', op, 'x'))
    out.append(('UnaryOp', '-', ('BinaryOp', '*', 'x', 'y')))
    for op in OPS2:
        out.append(('BinaryOp', op, 'x', 'y'))
    out.append(('BinaryOp', '*', '-1', 'y'))
    out.append(('BinaryOp', '__pow__', 'x', ('UnaryOp', '-', 'y')))
    out.append(('BinaryOp', '__call__', 'f', ['x', 'y']))
    out.append(('BinaryOp', 'atan2', 'x', 'y'))
    out.append(('TrinaryOp', '__trinary__', 'x', 'y', 'z'))
    return out


ACCESS = ('__getitem__', '__struct_access__', '__pointer_access__', '__call__')


def printed(p, rep, norm, deep):
    g = grammar(p)
    specs = []
    kids = children()
    for k in kids:
        specs.append(k)
        for op in ('-', '__not__', '__group__', 'sin'):
            specs.append(('UnaryOp', op, k))
        for op in OPS2 + ('atan2',):
            if op not in ACCESS:
                specs.append(('BinaryOp', op, k, 'a'))
            if k != '-1' or op not in ('__struct_access__', '__pointer_access__'):
                specs.append(('BinaryOp', op, 'a', k))
        specs.append(('BinaryOp', '__call__', 'f', [k, 'a']))
        specs.append(('BinaryOp', '__call__', 'f', ['a', k]))
        specs.append(('TrinaryOp', '__trinary__', k, 'a', 'c'))
        specs.append(('TrinaryOp', '__trinary__', 'a', k, 'c'))
        specs.append(('TrinaryOp', '__trinary__', 'a', 'c', k))
    if deep:
        some = [k for k in kids if not isinstance(k, str)]
        for k in some:
            for op in ('-', '__not__'):
                mid = [('UnaryOp', op, k)]
                for m in mid:
                    specs += [('BinaryOp', o, m, 'a') for o in OPS2 if o not in ACCESS]
                    specs += [('BinaryOp', o, 'a', m) for o in OPS2]
            for op in OPS2:
                for m in ([('BinaryOp', op, k, 'b')] if op not in ACCESS else []) + [('BinaryOp', op, 'b', k)]:
                    for o in OPS2:
                        if o not in ACCESS:
                            specs.append(('BinaryOp', o, m, 'a'))
                        specs.append(('BinaryOp', o, 'a', m))
                    specs.append(('UnaryOp', '-', m))
                    specs.append(('UnaryOp', '__not__', m))
                    specs.append(('TrinaryOp', '__trinary__', 'a', 'c', m))
    global WORK
    WORK = (p, norm, g)
    todo = [(how, arg, spec) for how, arg in (('__str__', None), ('__format__', 'p')) for spec in specs if not isinstance(spec, str)]
    for cls in SIDES:
        for how in ('__str__', '__format__'):
            if p.method(p.find_class(cls), how) is None:
                rep.bad('printed', f'{cls}.{how}', f'{cls} has no {how}', p.find_class(cls).module.name)
                return
    if deep:
        import multiprocessing
        with multiprocessing.get_context('fork').Pool(8) as pool:
            out = pool.imap(one_printed, todo, 64)
            collect(p, rep, todo, out)
    else:
        collect(p, rep, todo, map(one_printed, todo))


def collect(p, rep, todo, out):
    bad = {}
    for (how, arg, spec), (text, why) in zip(todo, out):
        words = show(tree(spec))
        if why is None:
            rep.ok('printed', f'{how} of {words}: {text}')
            continue
        rep.bad('printed', f'{how} {words}', f'{words} is printed as {why}', where(p.method(p.find_class(spec[0]), how)))
        bad[how] = bad.get(how, 0) + 1
        if bad[how] > 20:
            break


def one_printed(job):
    how, arg, spec = job
    p, norm, g = WORK
    f = p.method(p.find_class(spec[0]), how)
    I = Interp(p)
    I.max_rec, I.MAXDEPTH = 12, 90
    I.opaque |= {'Value'}
    st = State()
    T = Tree(p, I, st)
    s = T.make(spec)
    v = I.freeze(I.call_func(f, [K(arg)] if arg else [], {}, st, self_=s), st)
    want = plain(tree(spec))
    try:
        text = text_of(v, T.texts, arg or 'str', norm)
        got = plain(Reader(g, text).read())
        return text, None if got == want else f'`{text}`, which is read as {show(got)}'
    except Cannot as e:
        return None, str(e)


def grammar(p):
    return Grammar(p.src / 'grammar', 'McCommon').finish()


def show(t):
    if len(t) == 1:
        return t[0]
    return f'{t[0]}({", ".join(show(x) for x in t[1:])})'


def values_printed(p, rep, norm):
    """a value is printed as it is, with the prefix exactly if it is an instrument parameter and a prefix is asked for"""
    v = p.find_class('Value')
    rep.uses(v.module.name)
    cases = [('__str__', None, '')] + [('__format__', a, b) for a, b in (('', ''), ('p', '_instrument_var._parameters.'), ('prefix:q->', 'q->'))]
    for meth, arg, prefix in cases:
        f = p.method(v, meth)
        for par in (True, False):
            I = Interp(p)
            I.opaque_fn |= {'Value.is_parameter'}
            st = State()
            s = I.sym('self', v)
            t = I.freeze(I.call_func(f, [K(arg)] if arg is not None else [], {}, st, self_=s), st)
            fl = {x: par for x in ('self.is_parameter', 'self._object.is_parameter', 'is_parameter(self)', 'eq(self._object, ObjectType.parameter)')}
            fl.update({'isinstance(self.value, list)': False, 'self._entries': False, 'isinstance(self._value, list)': False})
            t = Fold(S(isa=dict(list=False), flags=fl), norm)(t)
            got = norm(t)
            want = {x for y in ('self.value', 'self._value') for x in
                    ((f"join('{prefix}', {y})",) if par and prefix else (y, f'str({y})', f'join({y})'))}
            if got in want:
                rep.ok('printed', f'Value.{meth}({arg or ""}), parameter {par}: {got}')
            else:
                rep.bad('printed', f'Value.{meth}({arg or ""}) parameter={par}', f'a value that is {"" if par else "not "}an instrument '
                        f'parameter is printed as {got[:200]}', where(f))
    e = p.find_class('Expr')
    for meth, arg in (('__str__', None), ('__format__', 'p')):
        f = p.method(e, meth)
        I = Interp(p)
        I.opaque |= {'Value'}
        st = State()
        s = I.sym('self', e)
        leaves_ = {}
        items = []
        for n in ('a', 'b'):
            x = I.sym('leaf' + n, v)
            I.exact.add(x)
            leaves_[x] = n
            items.append(x)
        st.over[('attr', s, 'expr')] = Seq('list', tuple(items))
        t = I.freeze(I.call_func(f, [K(arg)] if arg else [], {}, st, self_=s), st)
        try:
            text = text_of(t, leaves_, arg or 'str', norm)
        except Cannot as ex:
            text = str(ex)
        if text in ('a,b', 'a, b'):
            rep.ok('printed', f'Expr.{meth}: {text}')
        else:
            rep.bad('printed', f'Expr.{meth}', f'an expression of two values is printed as {text}', where(f))


def ambiguous(p, rep):
    """no alternative of an expression that can match nothing comes before the alternative for a sign"""
    g = grammar(p)
    alts = g.rules['expr']
    sign = [i for i, a in enumerate(alts) if a.label and 'UnaryPM' in a.label]
    for i, a in enumerate(alts):
        if all(e.optional for e in a.els):
            if not sign or i < sign[0]:
                rep.bad('empty', f'alternative {a.label}', f'the alternative {a.label} of an expression can match nothing and is preferred '
                        'to the alternative for a sign: 2*-3 is read as 2*"" - 3', 'src/grammar/McCommon.g4')
                continue
        rep.ok('empty', f'{a.label}')


def c15(p, rep):
    rep.rule('read', 'every production of an expression makes the operation it stands for, of its parts in the order of the source')
    rep.rule('operator', 'an operation between expressions has the value of the operation between their values')
    rep.rule('rebuilt', 'simplify, evaluate and as_type give an expression of the same value, with every operand processed')
    rep.rule('printed', 'printed text is read again as the same tree')
    rep.rule('reached', 'questions about an expression reach every operand')
    rep.rule('empty', 'no operand of an expression can be left out')
    norm = Norm(p)
    read(p, rep, norm)
    operators(p, rep, norm)
    rebuilt(p, rep, norm)
    reached(p, rep, norm)
    printed(p, rep, norm, rep.tier == 'thorough')
    values_printed(p, rep, norm)
    ambiguous(p, rep)
    for rule, n in (('read', 30), ('operator', 300), ('rebuilt', 400), ('printed', 1000), ('reached', 40)):
        rep.need(rule, n, 'obligations')
