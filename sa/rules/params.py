"""C17: instrument parameters are recognised, and counted as used, wherever an expression or C block can stand"""
from __future__ import annotations
import ast
import re
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Item, Const, Phi, Seq, Rep, Opt, Sym, Splice, walk)
from ..norm import Scene, Fold
from ..project import AnalysisBroken
from .copies import Call, DATA, OWN, where, built, leaf

HOLDS = re.compile(r'\b(Expr|RawC|ComponentParameter|InstrumentParameter|Jump|VectorReference|AnglesReference|Instance)\b')
EXPRS = re.compile(r'\b(Expr|ComponentParameter|Jump|VectorReference|AnglesReference)\b')
OPERANDS = {'Expr': ('expr',), 'UnaryOp': ('value',), 'BinaryOp': ('left', 'right'), 'TrinaryOp': ('first', 'second', 'third'),
            'Value': ('_value',)}


def annotated(p, cls):
    """[(field, text of its annotation)] of a dataclass, those it inherits first"""
    out = {}
    for c in reversed(p.mro(cls)):
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out[n.target.id] = ast.unparse(n.annotation)
    return out


class In(Scene):
    """the name is found in what this field of self holds, and nowhere else"""

    def __init__(self, me, hit, sub=None, yes=()):
        super().__init__()
        self.me, self.hit, self.sub, self.yes = me, hit, sub, yes

    def at(self, t):
        """the field of self a term is about; with the part of it"""
        for x in walk(t):
            if isinstance(x, Attr) and x.base == self.me:
                if self.sub is not None and not any(isinstance(y, Attr) and y.name == self.sub for y in walk(t)):
                    return None
                return x.name
        return None

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn in ('in', 'notin') and len(c.args) == 2 and c.args[0] == Sym('name'):
            return (self.hit is not None and self.at(c.args[1]) == self.hit) == (c.fn == 'in')
        if isinstance(c, App) and c.fn.split('.')[-1] in ('parameter_used', '__contains__') and Sym('name') in c.args:
            return self.hit is not None and self.at(c.args[0]) == self.hit
        if isinstance(c, MCall) and c.name in ('parameter_used', '__contains__') and Sym('name') in c.args:
            return self.hit is not None and self.at(c.recv) == self.hit
        if isinstance(c, App) and c.fn in ('any', 'all') and len(c.args) == 1:
            rs = [self.each(x, norm) for x in (c.args[0].items if isinstance(c.args[0], Seq) else c.args)]
            if c.fn == 'any':
                return True if True in rs else None if None in rs else False
            return False if False in rs else None if None in rs else True
        if isinstance(c, App) and c.fn == 'bool' and len(c.args) == 1:
            return self.decide(c.args[0], norm)
        if isinstance(c, App) and c.fn in ('is', 'isnot', 'eq', 'ne') and K(None) in c.args:
            x = [y for y in c.args if y != K(None)]
            if x and self.at(x[0]):
                return c.fn in ('isnot', 'ne')
        if isinstance(c, App) and c.fn == 'isinstance':
            return True
        if isinstance(c, Attr) and c.base == self.me:
            return True
        if isinstance(c, (Attr, MCall)) and (getattr(c, 'name', None) in self.yes):
            return True
        return super().decide(c, norm)

    def each(self, x, norm):
        if isinstance(x, (Rep, Opt)):
            its = x.items if isinstance(x, Rep) else (*x.a, *x.b)
            if isinstance(x, Opt):
                d = self.decide(x.cond, norm)
                if d is not None:
                    its = x.a if d else x.b
            rs = [self.each(i, norm) for i in its]
            return True if True in rs else None if None in rs else False
        if isinstance(x, Splice):
            if isinstance(x.base, Seq):
                rs = [self.each(i, norm) for i in x.base.items]
                return True if True in rs else None if None in rs else False
            return None
        if isinstance(x, Const):
            return bool(x.v)
        if isinstance(x, Phi):
            d = self.decide(x.cond, norm)
            if d is not None:
                return self.each(x.a if d else x.b, norm)
            a, b = self.each(x.a, norm), self.each(x.b, norm)
            return a if a == b else None
        return self.decide(x, norm)


def answer(call, scene):
    t = call.fold(call.value, scene)
    return scene.each(t, call.norm)


def c17(p, rep):
    rep.rule('recognised', 'every expression of a component instance is searched for the names of instrument parameters: its parameters, '
                           'WHEN, SPLIT, JUMP conditions, coordinates and angles')
    rep.rule('operands', 'searching an expression, and asking whether a name is in it, reaches every operand')
    rep.rule('marked', 'an identifier is marked as an instrument parameter exactly when it is one')
    rep.rule('before', 'the expressions of every instance are searched before an instrument is translated')
    rep.rule('used', 'an instrument parameter is used if its name is in any expression or C block of the instrument or its instances, '
                     'and otherwise it is not')
    rep.rule('removed', 'a parameter is removed only on request, and only if it is not used; the number of unused ones is reported')
    inst, instr = p.find_class('Instance'), p.find_class('Instr')
    recognised(p, rep, inst)
    operands(p, rep)
    marked(p, rep)
    before(p, rep)
    for cls, opaque in ((inst, ()), (instr, ('Instance.parameter_used',))):
        used(p, rep, cls, opaque)
    removed(p, rep, instr)
    for r, n, what in (('recognised', 6, 'fields'), ('operands', 16, 'operands'), ('marked', 4, 'facts'), ('before', 2, 'facts'),
                       ('used', 14, 'fields'), ('removed', 5, 'facts')):
        rep.need(r, n, what)


def recognised(p, rep, cls):
    call = Call(p, cls, 'verify_parameters', args=('known',), opaque_fn=['Expr.verify_parameters'])
    f = call.f
    rep.uses(f.module.name)
    fields = {k: a for k, a in annotated(p, cls).items() if EXPRS.search(a)}
    seen = {}
    for e in call.I.events:
        if e.kind not in ('mcall', 'call') or e.data[1] != 'verify_parameters':
            continue
        recv = call.freeze(e.data[0])
        args = [call.freeze(x) for x in e.data[2].items]
        for x in walk(recv):
            if isinstance(x, Attr) and x.base == call.me:
                seen.setdefault(x.name, []).append((e, recv, args))
                break
    part = {'parameters': ('value',), 'jump': ('condition',)}
    for k, a in fields.items():
        if k == 'orientation':
            continue
        good = None
        for e, recv, args in seen.get(k, []):
            sc = Given(call.me)
            if call.when(e, sc) is False:
                continue
            good = k
            if not args or not names_of(args[0], 'known'):
                good = None
                rep.bad('recognised', f'Instance.verify_parameters {k} names', f'{k} of an instance is searched for '
                        f'{call.norm(args[0])[:120] if args else None}, not the names of the instrument parameters', where(f, e.node))
                break
            conds = [call.fold(c, sc) for c, _ in e.pc]
            sure = call.when(e, sc)
            if k in part and not (isinstance(recv, Attr) and recv.name in part[k] and isinstance(recv.base, (Elem,))):
                good = None
            if ('Vector' in a or 'Angles' in a) and not all_of(recv, call, k, seen[k]):
                good = None
            if sure is not True:
                good = None
                rep.bad('recognised', f'Instance.verify_parameters {k} condition', f'{k} of an instance is searched only if '
                        f'{[call.norm(c)[-100:] for c in conds][:3]}', where(f, e.node))
                break
            if good is None:
                continue
            break
        if good:
            rep.ok('recognised', f'{k}: {a}')
        elif not any(v.construct.startswith(f'Instance.verify_parameters {k} ') for v in rep.violations):
            rep.bad('recognised', f'Instance.verify_parameters {k}', f'{k} of an instance is not (all) searched for names of instrument '
                    f'parameters, which then are not found in generated code', where(f))


class Given(Scene):
    """all optional fields are given, and everything is an expression"""

    def __init__(self, me):
        super().__init__()
        self.me = me

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn in ('is', 'isnot', 'eq', 'ne') and K(None) in c.args:
            return c.fn in ('isnot', 'ne')
        if isinstance(c, App) and c.fn == 'isinstance':
            return True
        if isinstance(c, App) and c.fn == 'hasattr':
            return True
        if isinstance(c, (Attr, Elem, Item)):
            return True
        return super().decide(c, norm)


def names_of(t, src):
    """the names of every element of src"""
    if isinstance(t, App) and t.fn in ('list', 'tuple', 'set', 'frozenset') and len(t.args) == 1:
        t = t.args[0]
    while isinstance(t, Seq) and len(t.items) == 1 and isinstance(t.items[0], Splice):
        t = t.items[0].base
    if not (isinstance(t, Seq) and len(t.items) == 1 and isinstance(t.items[0], Rep)):
        return False
    r = t.items[0]
    base = r.base
    return r.items == (Attr(Elem(base, r.lid), 'name'),) and (base == Sym(src) if isinstance(src, str) else base == src)


def all_of(recv, call, k, events):
    """is the first item of a reference searched as a whole, or each of x, y and z"""
    pair = Item(Attr(call.me, k), K(0))
    if recv == pair or isinstance(recv, Elem) and recv.base == pair:
        return True
    got = {(r.name if isinstance(r, Attr) else getattr(r.key, 'v', None) if isinstance(r, Item) else None)
           for _, r, _ in events if isinstance(r, (Attr, Item)) and r.base == pair}
    return {'x', 'y', 'z'} <= got or {0, 1, 2} <= got


def operands(p, rep):
    for name, ops in OPERANDS.items():
        cls = p.find_class(name)
        call = Call(p, cls, 'verify_parameters', args=('names',), opaque_fn=[f'{n}.verify_parameters' for n in OPERANDS if n != name])
        rep.uses(call.f.module.name)
        got = {}
        for e in call.I.events:
            if e.kind in ('mcall', 'call') and e.data[1] == 'verify_parameters':
                recv = call.freeze(e.data[0])
                args = [call.freeze(x) for x in e.data[2].items]
                for x in walk(recv):
                    if isinstance(x, Attr) and x.base == call.me and (e, recv, args) not in got.get(x.name, []):
                        got.setdefault(x.name, []).append((e, recv, args))
        for o in ops:
            es = [x for x in got.get(o, []) if isinstance(x[1], Elem) and (part_of(x[1].base, call.me, o) or name == 'Value') and
                  not any('zip' in repr(l) for l in x[0].loops)]
            if es and all(x[2][:1] == [Sym('names')] for x in es) and any(call.when(x[0], Given(call.me)) for x in es):
                rep.ok('operands', f'{name}.verify_parameters: {o}')
            else:
                rep.bad('operands', f'{name}.verify_parameters {o}', f'the search for parameter names does not reach {o} of '
                        f'{name}', where(call.f))
        f = p.method(cls, '__contains__')
        if f is None:
            rep.bad('operands', f'{name}.__contains__', f'{name} cannot be asked for a name', f'{cls.module.path} {name}')
            continue
        call = Call(p, cls, '__contains__', args=('name',), opaque_fn=[f'{n}.__contains__' for n in OPERANDS if n != name])
        if name == 'Value':
            value_contains(p, rep, call)
            continue
        for o in ops:
            a = answer(call, In(call.me, o))
            if a is True:
                rep.ok('operands', f'{name}.__contains__: {o}')
            else:
                rep.bad('operands', f'{name}.__contains__ {o}', f'a name in {o} of {name} is not found there', where(f))
        if answer(call, In(call.me, None)) is True:
            rep.bad('operands', f'{name}.__contains__', f'a name is found in {name} that is not there', where(f))
    for name, ops in (('RawC', ('source',)), ('Jump', ('condition',)), ('Vector', 'xyz'), ('Angles', 'xyz')):
        cls = p.find_class(name)
        f = p.method(cls, '__contains__')
        if f is None:
            rep.bad('operands', f'{name}.__contains__', f'{name} cannot be asked for a name', f'{cls.module.path} {name}')
            continue
        I = Interp(p)
        I.opaque |= {'Comp'}
        I.opaque_fn |= {f'{n}.__contains__' for n in OPERANDS}
        call = Call(p, cls, '__contains__', args=('name',), opaque_fn=[f'{n}.__contains__' for n in OPERANDS])
        for o in ops:
            if answer(call, In(call.me, o)) is True and answer(call, In(call.me, None)) is False:
                rep.ok('operands', f'{name}.__contains__: {o}')
            else:
                rep.bad('operands', f'{name}.__contains__ {o}', f'a name in {o} of {name} is not found there', where(f))


def part_of(t, me, o):
    """is t the field o, or a longer sequence with all of it"""
    if leaf(t, me, o):
        return True
    if isinstance(t, App) and t.fn == 'add':
        return any(part_of(x, me, o) for x in t.args)
    if isinstance(t, Seq):
        return any(isinstance(x, Splice) and part_of(x.base, me, o) for x in t.items)
    return False


class Single(Scene):
    """a value that is an identifier or not, equal to what is asked for or not"""

    def __init__(self, me, ident, same):
        super().__init__()
        self.me, self.ident, self.same = me, ident, same

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn in ('eq', 'ne') and len(c.args) == 2:
            if any(isinstance(a, Attr) and a.name == '_object' or isinstance(a, Attr) and a.name == 'object_type' for a in c.args):
                t = ' '.join(norm(a) for a in c.args)
                if self.ident in ('identifier', 'parameter', 'value'):
                    for k in ('identifier', 'parameter', 'value', 'function'):
                        if f'ObjectType.{k}' in t:
                            return (k == self.ident) == (c.fn == 'eq')
            if Sym('name') in c.args and any(isinstance(a, Attr) and a.base == self.me for a in c.args):
                return self.same == (c.fn == 'eq')
        if isinstance(c, App) and c.fn == 'in' and len(c.args) == 2 and c.args[1] in (Sym('names'), Sym('known')):
            return self.same
        if isinstance(c, App) and c.fn == 'isinstance' and c.args[0] == Sym('name'):
            return 'str' in repr(c.args[1:])
        return super().decide(c, norm)


def value_contains(p, rep, call):
    for ident in ('identifier', 'parameter'):
        for same in (True, False):
            sc = Single(call.me, ident, same)
            t = call.fold(call.value, sc)
            got = t.v if isinstance(t, Const) else sc.decide(t, call.norm)
            if got is same:
                rep.ok('operands', f'Value.__contains__: {ident} of {"this" if same else "another"} name')
            else:
                rep.bad('operands', f'Value.__contains__ {ident} {same}', f'an {ident} of {"this" if same else "another"} name is '
                        f'{"not " if same else ""}taken to be the name asked for: {call.norm(t)[:120]}', where(call.f))


def marked(p, rep):
    cls = p.find_class('Value')
    call = Call(p, cls, 'verify_parameters', args=('names',))
    sets = [e for e in call.I.events if e.kind == 'setattr' and call.freeze(e.data[0]) == call.me]
    for ident in ('identifier', 'parameter', 'value'):
        for same in (True, False):
            sc = Single(call.me, ident, same)
            now = [(call.when(e, sc), e) for e in sets]
            on = [(s, e) for s, e in now if s is not False]
            want = same and ident == 'identifier'
            right = [e for s, e in on if s and e.data[1] in ('_object', 'object_type') and
                     call.norm(call.fold(e.data[2], sc)).endswith('ObjectType.parameter')]
            if want and len(right) == len(on) and right or not want and (not on or ident == 'parameter' and same and len(right) == len(on)):
                rep.ok('marked', f'{ident} {"with" if same else "without"} the name of a parameter')
            else:
                rep.bad('marked', f'Value.verify_parameters {ident} {same}', f'{ident} {"with" if same else "without"} the name of an '
                        f'instrument parameter is {"not " if want else ""}marked as one', where(call.f))


def before(p, rep):
    cls = p.find_class('Instr')
    call = Call(p, cls, 'verify_instance_parameters', opaque_fn=['Instance.verify_parameters'])
    es = [e for e in call.I.events if e.kind in ('mcall', 'call') and e.data[1] == 'verify_parameters']
    me = call.me
    ok = [e for e in es if call.freeze(e.data[0]) in ([Elem(Attr(me, 'components'), x) for x in range(60)]) and call.when(e, Scene()) and
          call.freeze(e.data[2]).items[:1] == (Attr(me, 'parameters'),)]
    if ok:
        rep.ok('before', 'Instr.verify_instance_parameters: every instance, with the parameters of the instrument')
    else:
        rep.bad('before', 'Instr.verify_instance_parameters', 'not every instance of an instrument is searched for its parameters: '
                f'{[call.norm(call.freeze(e.data[0])) for e in es]}', where(call.f))
    call = Call(p, cls, 'check_expr', args=('expr',), opaque_fn=['Expr.verify_parameters', 'Expr.best'])
    es = [e for e in call.I.events if e.kind in ('mcall', 'call') and e.data[1] == 'verify_parameters']
    ok = [e for e in es if names_of(call.freeze(e.data[2]).items[0], Attr(call.me, 'parameters')) and call.when(e, Given(call.me)) and
          call.freeze(e.data[0]) == call.value]
    if ok:
        rep.ok('before', 'Instr.check_expr: the expression it returns')
    else:
        rep.bad('before', 'Instr.check_expr', 'an expression checked for an instrument is not searched for its parameters', where(call.f))
    # translation
    n = 0
    t = p.find_class('TargetVisitor')
    for c in [t] + list(p.concrete_subclasses(t)):
        f = p.method(c, '__init__')
        I = Interp(p)
        I.opaque_fn |= {'Instr.verify_instance_parameters', 'Instr.determine_groups', f'{c.name}.__post_init__',
                        'TargetVisitor.__post_init__', 'CTargetVisitor.__post_init__'}
        st = State()
        me = I.sym('self', c)
        names = [a.arg for a in f.node.args.args][1:]
        args = [I.sym(a, cls if a in ('instr', 'instrument', 'source') else None) if a in ('instr', 'instrument', 'source') else I.sym(a)
                for a in names]
        I.call_func(f, [me] + args, {}, st)
        got = [e for e in I.events if e.kind in ('mcall', 'call') and e.data[1] == 'verify_instance_parameters' and not
               [1 for cnd, _ in e.pc] and not e.loops]
        if got and any(I.freeze(e.data[0], st) in args or I.freeze(e.data[0], st) == Attr(me, 'source') for e in got):
            rep.ok('before', f'{c.name}.__init__')
            n += 1
        else:
            rep.bad('before', f'{c.name}.__init__', 'an instrument is translated without a search for its parameters in the '
                    'expressions of its instances', where(f))


def used(p, rep, cls, opaque):
    extra = [f'{n}.__contains__' for n in ('Expr', 'UnaryOp', 'BinaryOp', 'TrinaryOp', 'Value', 'RawC', 'Jump')]
    call = Call(p, cls, 'parameter_used', args=('name',), opaque_fn=extra + list(opaque))
    f = call.f
    rep.uses(f.module.name)
    for k, a in annotated(p, cls).items():
        if not HOLDS.search(a) or k in ('groups', 'orientation') or k == 'parameters' and cls.name == 'Instr':
            continue
        sub = 'value' if k == 'parameters' else None
        r = answer(call, In(call.me, k, sub))
        if r is True:
            rep.ok('used', f'{cls.name}.{k}: {a}')
        else:
            rep.bad('used', f'{cls.name}.parameter_used {k}', f'an instrument parameter that is only in {k} of '
                    f'{"an instance" if cls.name == "Instance" else "the instrument"} is taken to be unused', where(f))
    if answer(call, In(call.me, None)) is False:
        rep.ok('used', f'{cls.name}: nowhere is not used')
    else:
        rep.bad('used', f'{cls.name}.parameter_used nowhere', f'{cls.name}.parameter_used does not answer no for a name that is nowhere',
                where(f))


class Remove(Scene):
    def __init__(self, remove, all_used, this=None):
        super().__init__()
        self.r, self.all, self.this = remove, all_used, this

    def decide(self, c, norm):
        if isinstance(c, Seq) and any('parameter_used' in norm(x) for x in c.items if isinstance(x, Rep)):
            return not self.all
        if isinstance(c, App) and c.fn in ('gt', 'ne', 'eq', 'lt', 'bool', 'ge') and c.args and any(
                isinstance(x, App) and x.fn == 'len' and 'parameter_used' in norm(x) for x in c.args):
            return self.all if c.fn in ('eq', 'lt') else not self.all
        if isinstance(c, App) and c.fn in ('len', 'nonempty') and 'parameter_used' in norm(c):
            return not self.all
        if c == Sym('remove'):
            return self.r
        if isinstance(c, App) and c.fn == 'all':
            return self.all
        if isinstance(c, App) and c.fn == 'any':
            inner = [x for x in walk(c) if isinstance(x, App) and x.fn == 'not']
            return (not self.all) if inner else None
        if isinstance(c, App) and c.fn.split('.')[-1] == 'parameter_used' or isinstance(c, MCall) and c.name == 'parameter_used':
            return self.this
        return super().decide(c, norm)


def removed(p, rep, cls):
    call = Call(p, cls, 'check_instrument_parameters', kwargs=dict(remove='remove'), opaque_fn=['Instr.parameter_used'])
    f = call.f
    me = call.me
    sets = [e for e in call.I.events if e.kind == 'setattr' and call.freeze(e.data[0]) == me]
    for e in sets:
        if e.data[1] != 'parameters':
            rep.bad('removed', f'check_instrument_parameters sets {e.data[1]}', f'checking parameters changes {e.data[1]} of the instrument',
                    where(f, e.node))
    sets = [e for e in sets if e.data[1] == 'parameters']
    for e in sets:
        if call.when(e, Remove(False, False)) is not False:
            rep.bad('removed', 'check_instrument_parameters unasked', 'parameters are removed though it was not asked for', where(f, e.node))
        else:
            rep.ok('removed', 'not unless asked for')
    on = [e for e in sets if call.when(e, Remove(True, False))]
    if len(on) != 1:
        rep.bad('removed', 'check_instrument_parameters', 'unused parameters are not removed when asked for', where(f))
    for e in on:
        v = call.freeze(e.data[2])
        got = kept(call, v, me)
        if got == (True, False):
            rep.ok('removed', 'those that are used are kept', n=2)
        else:
            rep.bad('removed', 'check_instrument_parameters which', f'of the parameters, those left are {call.norm(v)[-200:]}', where(f, e.node))
    txt = call.norm(call.value)
    counted = [x for x in walk(call.value) if isinstance(x, App) and x.fn.split('.')[-1] == 'parameter_used' or
               isinstance(x, MCall) and x.name == 'parameter_used']
    if counted:
        rep.ok('removed', f'reported: {txt[-160:]}', n=2)
    else:
        rep.bad('removed', 'check_instrument_parameters count', f'the number of unused parameters is reported as {txt[-160:]}', where(f))


def kept(call, v, me):
    """is a parameter kept that is used, and one that is not"""
    while isinstance(v, App) and v.fn in ('tuple', 'list') and len(v.args) == 1:
        v = v.args[0]
    if not (isinstance(v, Seq) and len(v.items) == 1 and isinstance(v.items[0], Rep)):
        return None
    r = v.items[0]
    if not any(x == Attr(me, 'parameters') for x in walk(r.base)):
        return None
    its = r.items
    conds = []
    while len(its) == 1 and isinstance(its[0], Opt) and not (its[0].a and its[0].b):
        conds.append(its[0].cond if its[0].a else App('not', (its[0].cond,)))
        its = its[0].a or its[0].b
    if len(its) != 1 or not isinstance(its[0], (Elem, Item)):
        return None
    out = []
    for u in (True, False):
        ds = [whether(c, u, call) for c in conds]
        out.append(False if False in ds else None if None in ds else True)
    return tuple(out)


def kept_if(s, u, call):
    """is one that is used or not in a filtered sequence"""
    if len(s.items) != 1 or not isinstance(s.items[0], Rep):
        return None
    its, conds = s.items[0].items, []
    while len(its) == 1 and isinstance(its[0], Opt) and not (its[0].a and its[0].b):
        conds.append(its[0].cond if its[0].a else App('not', (its[0].cond,)))
        its = its[0].a or its[0].b
    ds = [whether(c, u, call) for c in conds]
    return False if False in ds else None if None in ds else True


def whether(c, u, call):
    """a condition on whether a parameter is used"""
    if isinstance(c, App) and c.fn == 'not':
        r = whether(c.args[0], u, call)
        return None if r is None else not r
    if isinstance(c, App) and c.fn in ('in', 'notin') and len(c.args) == 2 and isinstance(c.args[1], Seq):
        r = kept_if(c.args[1], u, call)
        return None if r is None else r == (c.fn == 'in')
    if isinstance(c, App) and c.fn in ('and', 'or') and len(c.args) == 1:
        return whether(c.args[0], u, call)
    if any(isinstance(x, App) and x.fn.split('.')[-1] == 'parameter_used' or isinstance(x, MCall) and x.name == 'parameter_used'
           for x in walk(c)) and not any(isinstance(x, App) and x.fn == 'not' for x in walk(c)):
        return u
    return None
