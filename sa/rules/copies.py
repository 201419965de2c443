"""C16: copying and splitting an instrument keeps everything and shares nothing that changes.  C17: instrument parameters are
recognised and counted wherever an expression or C block can stand"""
from __future__ import annotations
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Item, Const, Str, Phi, Seq, Rep, Opt, Sym, Splice,
                      HObj, ClsV, walk)
from ..norm import Scene, Fold, Norm, rebuild
from ..project import AnalysisBroken

# what can change after it is made: (class, field) -> 'object' (a copy), 'each' (a sequence of copies), 'list' (a list of
# its own with the same elements)
OWN = {
    ('InstrumentParameter', 'value'): 'object', ('ComponentParameter', 'value'): 'object',
    ('MetaData', 'source'): 'object', ('Jump', 'condition'): 'object',
    ('Instance', 'parameters'): 'each', ('Instance', 'extend'): 'each', ('Instance', 'jump'): 'each',
    ('Instance', 'metadata'): 'each', ('Instance', 'split'): 'object', ('Instance', 'when'): 'object',
    ('Group', 'ids'): 'list', ('Group', 'members'): 'list',
    ('Instr', 'parameters'): 'each', ('Instr', 'metadata'): 'each', ('Instr', 'components'): 'each',
    ('Instr', 'user'): 'each', ('Instr', 'declare'): 'each', ('Instr', 'initialize'): 'each', ('Instr', 'save'): 'each',
    ('Instr', 'final'): 'each',
    ('Expr', 'expr'): 'each', ('UnaryOp', 'value'): 'each', ('BinaryOp', 'left'): 'each', ('BinaryOp', 'right'): 'each',
    ('TrinaryOp', 'first'): 'each', ('TrinaryOp', 'second'): 'each', ('TrinaryOp', 'third'): 'each',
    ('Value', '_value'): 'each',
}
DATA = ('RawC', 'DataSource', 'MetaData', 'InstrumentParameter', 'ComponentParameter', 'Jump', 'Group', 'Instance', 'Instr',
        'Expr', 'UnaryOp', 'BinaryOp', 'TrinaryOp', 'Value')
# not copied one by one: groups are worked out again, the C style is a way of printing
AGAIN = {('Instr', 'groups')}
SKIP = {('UnaryOp', 'style'), ('BinaryOp', 'style'), ('TrinaryOp', 'style'), ('UnaryOp', 'data_type'),
        ('BinaryOp', 'data_type'), ('TrinaryOp', 'data_type')}
OTHER = ['Comp', 'Registry', 'Orient', 'Vector', 'Angles', 'Coords', 'Rotation']


def where(f, node=None):
    return f'{f.module.path}:{getattr(node, "lineno", f.node.lineno)} in {f.qualname}'


class Call:
    """one method interpreted over arbitrary arguments"""

    def __init__(self, p, cls, name, args=(), kwargs=None, opaque_fn=(), identity=(), before=None):
        self.p, self.cls = p, cls
        self.f = p.method(cls, name)
        if self.f is None:
            raise AnalysisBroken(f'{cls.name}.{name} not found')
        I = self.I = Interp(p)
        I.opaque |= set(OTHER)
        I.opaque_fn |= set(opaque_fn)
        I.identity = set(identity)
        st = self.st = State()
        self.me = I.sym('self', cls)
        if before:
            before(self)
        v = I.call_func(self.f, [self.me] + [I.sym(a) if isinstance(a, str) else a for a in args],
                        {k: I.sym(a) if isinstance(a, str) else a for k, a in (kwargs or {}).items()}, st)
        self.value = I.freeze(v, st)
        self.raw = v
        self.norm = Norm(p)

    def freeze(self, t):
        return self.I.freeze(t, self.st) if isinstance(t, Term) else t

    def fold(self, t, scene):
        return Fold(scene, self.norm)(self.freeze(t))

    def show(self, t, scene):
        return self.norm(self.fold(t, scene))

    def when(self, e, scene):
        """does this event happen: True, False or None"""
        ds = []
        for c, pol in e.pc:
            d = scene.decide(self.fold(c, scene), self.norm)
            ds.append(d if pol or d is None else not d)
        return False if False in ds else None if None in ds else True


def fields_of(p, cls, call):
    """names of what an object of this class holds"""
    if p.method(cls, '__init__') is None:
        return [x[0] if isinstance(x, tuple) else getattr(x, 'name', x) for x in p.class_fields(cls)]
    out = []
    for e in call.I.events:
        if e.kind == 'setattr' and e.func is not None and e.func.name == '__init__' and e.data[1] not in out:
            out.append(e.data[1])
    return out


def built(t):
    """the constructed object of a term -> {field: term}"""
    if isinstance(t, App) and t.fn.startswith('new:'):
        return dict(t.kw), list(t.args)
    return None


class Kinds(Scene):
    """a scene in which every enumeration is one, and `value` is a list or not"""

    def __init__(self, given, listed, names=()):
        super().__init__(default=None)
        self.given, self.listed = given, listed

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn in ('is', 'isnot', 'eq', 'ne') and K(None) in c.args:
            return (c.fn in ('is', 'eq')) != self.given
        if isinstance(c, App) and c.fn == 'isinstance':
            ts = c.args[1].items if isinstance(c.args[1], Seq) else c.args[1:]
            names = {repr(t).replace('<class ', '').replace('>', '') for t in ts}
            if names <= {'DataType', 'ObjectType', 'ShapeType'}:
                return True
            if isinstance(c.args[0], Attr) and 'list' in names:
                return self.listed
            if isinstance(c.args[0], Elem) and names & {'Value', 'Op', 'Expr'}:
                return True
        if isinstance(c, (Attr, MCall)):
            return self.given
        return super().decide(c, norm)


def leaf(t, me, f):
    return isinstance(t, Attr) and t.base == me and t.name == f


def shared(t, me, f, kind, owned=frozenset()):
    """does t hold the very object (or an element of it) that `me.f` holds"""
    if not isinstance(t, Term) or isinstance(t, (Const, Str, Sym, ClsV)):
        return False
    if leaf(t, me, f):
        return True
    if isinstance(t, Phi):
        return shared(t.a, me, f, kind) or shared(t.b, me, f, kind)
    if isinstance(t, Elem):
        return kind != 'list' and mentions(t.base, me, f)
    if isinstance(t, Item):
        if isinstance(t.key, App) and t.key.fn == 'slice':
            return kind != 'list' and shared(t.base, me, f, kind)
        return kind != 'list' and mentions(t.base, me, f)
    if isinstance(t, Seq):
        return any(shared(x, me, f, kind) for x in t.items)
    if isinstance(t, Rep):
        return any(shared(x, me, f, kind) for x in t.items)
    if isinstance(t, Opt):
        return any(shared(x, me, f, kind) for x in (*t.a, *t.b))
    if isinstance(t, Splice):
        return kind != 'list' and shared(t.base, me, f, kind)
    if copied(t) is not None:
        x = copied(t)
        if kind == 'each' and (leaf(x, me, f) or isinstance(x, Item) and isinstance(x.key, App) and x.key.fn == 'slice'):
            return True  # a list of its own, with the same elements
        return False
    if isinstance(t, App) and t.fn.startswith('new:'):
        cls = t.fn[4:]
        return any(shared(v, me, f, kind) for k, v in t.kw if (cls, k) in OWN)
    if isinstance(t, App) and t.fn in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'dict', 'set') and kind == 'list':
        return False
    if isinstance(t, App):
        return any(shared(x, me, f, kind) for x in t.args)
    if isinstance(t, Attr):
        return mentions(t, me, f)
    return False


def mentions(t, me, f):
    return any(leaf(x, me, f) for x in walk(t))


def copied(t):
    """the thing t is a copy of, or None"""
    if isinstance(t, MCall) and t.name == 'copy':
        return t.recv
    if isinstance(t, App) and t.fn.split('.')[-1] in ('copy', 'deepcopy') and t.args:
        return t.args[0]
    return None


def of_copies(p, cls):
    """every copy() of the data classes but that of cls: taken as what it says"""
    return [f'{n}.copy' for n in DATA if n != cls.name] + ['Instance.__post_init__', 'Instr.determine_groups',
                                                           'Instr.has_component_named', 'Instr.get_component']


def c16(p, rep):
    rep.rule('kept', 'copy() of a data class gives each field of the new object from the same field of the old one')
    rep.rule('own', 'what can change after it is made (expressions, parameters, C blocks, jumps, metadata, components, and the '
                    'lists that hold them) is copied, not shared, by copy()')
    rep.rule('instance', 'an instance made as a copy of another (COPY in the TRACE section) takes its type, parameters, WHEN, GROUP, '
                         'EXTEND, JUMP, metadata and mode from it, copied')
    rep.rule('within', 'references and groups of a copied instrument are to its own components')
    rep.rule('split', 'the parts of a split instrument are copies: one up to and including the split point, one from there on; '
                      'a reference to a component that is not in the second part becomes the absolute position')
    rep.rule('mcpl', 'in a split with MCPL files, the replaced components keep name and place, the output comes last in the first '
                     'part and the input first in the second, and both parts get the file name parameter')
    for n in DATA:
        one_class(p, rep, p.find_class(n))
    from_instance(p, rep)
    instr_copy(p, rep)
    split(p, rep)
    mcpl(p, rep)
    for r, n, what in (('kept', 45, 'fields'), ('own', 22, 'fields that can change'), ('instance', 12, 'fields'),
                       ('within', 5, 'facts'), ('split', 7, 'facts'), ('mcpl', 8, 'facts')):
        rep.need(r, n, what)


def one_class(p, rep, cls):
    f = p.method(cls, 'copy')
    if f is None:
        if cls.name in ('RawC', 'DataSource', 'MetaData') or any(True for k in OWN if k[0] == cls.name):
            rep.bad('kept', f'{cls.name}.copy', f'{cls.name} has no copy()', f'{cls.module.path} class {cls.name}')
        return
    rep.uses(f.module.name)
    if cls.name == 'Instr':
        kw = dict(kwargs=dict(first=K(0), last=K(-1)))
    else:
        kw = {}
    same = Call(p, cls, 'copy', identity=('copy',), opaque_fn=of_copies(p, cls), **kw)
    apart = Call(p, cls, 'copy', opaque_fn=of_copies(p, cls), **kw)
    fields = fields_of(p, cls, same)
    if not fields:
        raise AnalysisBroken(f'{cls.name} holds nothing')
    for fl in fields:
        if (cls.name, fl) in SKIP or (cls.name, fl) in AGAIN:
            continue
        wrong, part = None, None
        for given in (True, False) if cls.name != 'Value' else (True,):
            for listed in (True, False):
                sc = Kinds(given, listed)
                t = same.fold(same.value, sc)
                b = built(t)
                if b is None:
                    part = f'{cls.name}.copy'
                    wrong = same.norm(t)
                    continue
                v = b[0].get(fl)
                got = None if v is None else simple(same, v, sc)
                if got in (f'self.{fl}', f'[*self.{fl}]') or not given and got in ('None', '[]'):
                    continue
                wrong = wrong or f'{got}'
        if wrong is None:
            rep.ok('kept', f'{cls.name}.{fl}')
        else:
            rep.bad('kept', part or f'{cls.name}.copy {fl}', f'{cls.name}.copy() makes {fl} {wrong[:160]} instead of that of the '
                    f'original', where(f))
        kind = OWN.get((cls.name, fl))
        if kind is None or wrong is not None:
            continue
        bad = False
        for listed in ((True,) if kind != 'each' or cls.name != 'Value' else (True,)):
            sc = Kinds(True, listed)
            t = apart.fold(apart.value, sc)
            b = built(t)
            if b is None or fl in b[0] and shared(b[0][fl], apart.me, fl, kind):
                bad = True
        if bad:
            rep.bad('own', f'{cls.name}.copy {fl}', f'{cls.name}.copy() shares {fl} (or what it holds) with the original: '
                    f'changing one changes the other', where(f))
        else:
            rep.ok('own', f'{cls.name}.{fl} ({kind})')


def linear(t, n):
    """a sum as {text of a term: how often}, constants under None"""
    out = {}

    def add(t, k):
        if isinstance(t, App) and t.fn in ('add', 'sub') and len(t.args) == 2:
            add(t.args[0], k)
            add(t.args[1], k if t.fn == 'add' else -k)
        elif isinstance(t, App) and t.fn in ('neg', 'usub') and len(t.args) == 1:
            add(t.args[0], -k)
        elif isinstance(t, Const) and isinstance(t.v, int):
            out[None] = out.get(None, 0) + k * t.v
        else:
            x = n(t)
            out[x] = out.get(x, 0) + k
    add(t, 1)
    return {k: v for k, v in out.items() if v}


def bounds(t, n):
    """(what, first, last) of a slice, each bound as a sum; a bound from the end is one from the start"""
    if not (isinstance(t, Item) and isinstance(t.key, App) and t.key.fn == 'slice'):
        return t, {}, {f'len({n(t)})': 1}
    ln = f'len({n(t.base)})'
    out = []
    for i, b in enumerate(t.key.args[:2]):
        if b == K(None):
            out.append({ln: 1} if i else {})
        elif isinstance(b, Const) and isinstance(b.v, int) and b.v < 0:
            out.append({ln: 1, None: b.v})
        else:
            out.append(linear(b, n))
    return (t.base, *out)


def simple(call, t, sc):
    """text of t, with a sequence that is all of another as that one"""
    if isinstance(t, Seq) and len(t.items) == 1 and isinstance(t.items[0], Splice):
        t = t.items[0].base
    if isinstance(t, App) and t.fn in ('list', 'tuple') and len(t.args) == 1:
        return simple(call, t.args[0], sc)
    if isinstance(t, Seq) and len(t.items) == 1 and isinstance(t.items[0], Rep) and len(t.items[0].items) == 1:
        r = t.items[0]
        x = r.items[0]
        if isinstance(x, Seq) and len(x.items) == 1 and isinstance(x.items[0], Splice) and x.items[0].base == Elem(r.base, r.lid):
            return call.norm(r.base)  # lists of lists
        e = Elem(r.base, r.lid)
        if isinstance(x, Elem) and x.lid == r.lid:
            return simple(call, r.base, sc)
        b = built(x)
        if b is not None and all(v == Attr(e, k) for k, v in b[0].items()):
            return call.norm(r.base)
    b, lo, hi = bounds(t, call.norm)
    if b is not t and not lo and hi == {f'len({call.norm(b)})': 1}:
        return call.norm(b)
    return call.norm(t)


def from_instance(p, rep):
    cls = p.find_class('Instance')
    f = p.method(cls, 'from_instance')
    if f is None:
        raise AnalysisBroken('Instance.from_instance not found')
    rep.uses(f.module.name)
    for ident in (True, False):
        I = Interp(p)
        I.opaque |= set(OTHER)
        I.opaque_fn |= set(of_copies(p, p.find_class('Group'))) | {'Instance.copy'}
        I.identity = {'copy'} if ident else set()
        st = State()
        ref = I.sym('ref', cls)
        v = I.freeze(I.call_func(f, [ClsV(cls), I.sym('name'), ref, I.sym('at'), I.sym('rotate')], {}, st), st)
        norm = Norm(p)
        for given in (True, False):
            sc = Kinds(given, True)
            t = Fold(sc, norm)(v)
            b = built(t)
            if b is None:
                rep.bad('instance', 'from_instance', f'Instance.from_instance gives {norm(t)[:160]}', where(f))
                return
            kw = b[0]
            want = dict(name='name', at_relative='at', rotate_relative='rotate', type='ref.type', group='ref.group', mode='ref.mode')
            for k in ('parameters', 'when', 'extend', 'jump', 'metadata'):
                want[k] = f'ref.{k}'

            class C:
                pass
            c = C()
            c.norm = norm
            for k, right in want.items():
                if not ident and (('Instance', k) not in OWN or not given):
                    continue
                x = kw.get(k)
                if not ident:
                    if x is not None and shared(x, ref, k, OWN['Instance', k]):
                        rep.bad('instance', f'from_instance {k} shared', f'a component instance made with COPY shares {k} (or what it '
                                f'holds) with the one it is a copy of', where(f))
                    else:
                        rep.ok('instance', f'{k} is not shared')
                    continue
                got = None if x is None else simple(c, x, sc)
                if got in (right, f'[*{right}]') or not given and got in ('None', '[]'):
                    rep.ok('instance', f'{k} = {right}')
                else:
                    rep.bad('instance', f'from_instance {k}', f'a component instance made with COPY gets {k} = {str(got)[:160]} instead '
                            f'of {right}', where(f))


class Refs(Scene):
    """a referring component: is there a reference, and is the component it names in the copy"""

    def __init__(self, there, named):
        super().__init__()
        self.t, self.named = there, named

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn in ('is', 'isnot', 'eq', 'ne') and K(None) in c.args:
            return (c.fn in ('is', 'eq')) != self.t
        if isinstance(c, App) and c.fn == 'isinstance' and not isinstance(c.args[0], Sym):
            ts = c.args[1].items if isinstance(c.args[1], Seq) else c.args[1:]
            if any('Instance' in repr(t) for t in ts):
                return self.t
        if (isinstance(c, App) and c.fn.split('.')[-1] == 'has_component_named' or
                isinstance(c, MCall) and c.name == 'has_component_named'):
            return self.named
        if isinstance(c, App) and c.fn in ('in', 'notin') and c.args and isinstance(c.args[0], Attr) and c.args[0].name == 'name':
            return self.named == (c.fn == 'in')
        if isinstance(c, (Item, Attr)) and self.t is not None and repr(c).endswith('relative[1]'):
            return self.t
        return super().decide(c, norm)


def relative_sets(call, who):
    """setattr events of at_relative and rotate_relative -> {name: [event]}"""
    out = {'at_relative': [], 'rotate_relative': []}
    for e in call.I.events:
        if e.kind == 'setattr' and e.data[1] in out:
            out[e.data[1]].append(e)
    return out


def instr_copy(p, rep):
    cls = p.find_class('Instr')
    call = Call(p, cls, 'copy', opaque_fn=of_copies(p, cls), kwargs=dict(first='first', last='last'))
    f = call.f
    last = [i for i, e in enumerate(call.I.events) if e.kind == 'setattr' and e.data[1] == 'components']
    # groups
    det = [i for i, e in enumerate(call.I.events) if e.kind in ('mcall', 'call') and
           (e.data[1] == 'determine_groups' or 'determine_groups' in str(e.data[0])) and call.when(e, Scene()) is not False]
    groups = [i for i, e in enumerate(call.I.events) if e.kind == 'setattr' and e.data[1] == 'groups' and e.func is f]
    sure = [i for i in det if not call.I.events[i].loops and call.when(call.I.events[i], Scene())]
    if sure and last and max(sure) > max(last) and not [g for g in groups if g > max(sure)]:
        rep.ok('within', 'the groups of a copied instrument are worked out from its own components')
    elif not sure and not groups:
        rep.bad('within', 'Instr.copy groups', 'a copied instrument has no groups', where(f))
    else:
        rep.bad('within', 'Instr.copy groups', 'the groups of a copied instrument are not worked out again after its components are '
                'known', where(f))
    sets = relative_sets(call, None)
    for name, es in sets.items():
        what = f'{name} of a copied component'
        hit = [e for e in es if call.when(e, Refs(True, True)) is not False]
        if not hit:
            rep.bad('within', f'Instr.copy {name}', f'{what} still refers to a component of the original instrument', where(f))
            continue
        for e in hit:
            v = call.fold(e.data[2], Refs(True, True))
            parts = v.items if isinstance(v, Seq) else ()
            obj = call.freeze(e.data[0])
            ok0 = len(parts) == 2 and same_item(parts[0], name, 0, obj)
            ok1 = len(parts) == 2 and not same_item(parts[1], name, 1, obj) and \
                any(isinstance(x, Attr) and x.name == 'name' and same_item(x.base, name, 1, obj) for x in walk(parts[1]))
            missing = [e for e in es if call.when(e, Refs(True, False)) is True]
            none = [e for e in es if call.when(e, Refs(False, False)) is True]
            conds = [call.freeze(c) for c, _ in e.pc]
            odd = [c for c in conds if not (isinstance(c, App) and c.fn == 'in_loop') and
                   not any(same_item(x, name, 1, obj) for x in walk(c))]
            asked = wrongly_asked(call, conds, name, obj)
            odd += [asked] if asked is not None else []
            if not ok0 or not ok1:
                rep.bad('within', f'Instr.copy {name}', f'{what} becomes {call.norm(v)[-200:]}', where(f, e.node))
            elif missing or none or odd:
                rep.bad('within', f'Instr.copy {name} condition', f'{what} is set to a component of the copy under the wrong condition: '
                        f'{[call.norm(c)[-120:] for c in odd]}', where(f, e.node))
            elif call.when(e, Refs(True, True)) is False or not e.loops:
                rep.bad('within', f'Instr.copy {name} condition', f'{what} is not always set', where(f, e.node))
            else:
                rep.ok('within', f'{what} refers to the copy')
    # which components
    for neg in (False, True):
        same = Call(p, cls, 'copy', identity=('copy',), opaque_fn=of_copies(p, cls), kwargs=dict(first='first', last='last'))
        sc = Scene(flags={'lt(last, 0)': neg, 'lt(last, 0, )': neg, 'ge(last, 0)': not neg, 'gt(0, last)': neg, 'le(0, last)': not neg})
        b = built(same.fold(same.value, sc))
        v = None if b is None else b[0].get('components')
        got = None if v is None else simple(same, v, sc)
        while isinstance(v, Seq) and len(v.items) == 1 and isinstance(v.items[0], (Splice, Rep)):
            v = v.items[0].base
        if v is not None and bounds(v, same.norm) == (Attr(same.me, 'components'), {'first': 1}, {
                'last': 1, **({'len(self.components)': 1, None: 1} if neg else {})}):
            rep.ok('within', f'components {got}')
        else:
            rep.bad('within', f'Instr.copy components {"last<0" if neg else ""}', f'a copy of part of an instrument has the components '
                    f'{str(got)[:200]}', where(f))


def same_item(t, name, i, obj):
    """is t item i of the reference `name` of the object that is changed"""
    return isinstance(t, Item) and t.key == K(i) and isinstance(t.base, Attr) and t.base.name == name


def of_names(t, call):
    """the place of a name in the list of the names of the components"""
    if isinstance(t, MCall) and t.name == 'index' and t.args == (Sym('at'),):
        s = t.recv
    elif isinstance(t, App) and t.fn.split('.')[-1] == 'index' and t.args[1:] == (Sym('at'),):
        s = t.args[0]
    else:
        return False
    return isinstance(s, Seq) and len(s.items) == 1 and isinstance(s.items[0], Rep) and \
        s.items[0].base == Attr(call.me, 'components') and \
        s.items[0].items == (Attr(Elem(s.items[0].base, s.items[0].lid), 'name'),)


def wrongly_asked(call, conds, name, obj, part=None):
    """a condition asks for another name, or another instrument, than that of the reference"""
    for c in conds:
        for x in walk(c):
            who, args = None, ()
            if isinstance(x, MCall) and x.name == 'has_component_named':
                who, args = x.recv, x.args
            elif isinstance(x, App) and x.fn.split('.')[-1] == 'has_component_named' and x.args:
                who, args = x.args[0], x.args[1:]
            elif isinstance(x, App) and x.fn in ('in', 'notin') and isinstance(x.args[0], Attr) and x.args[0].name == 'name':
                args = x.args[:1]
            if args and not (isinstance(args[0], Attr) and args[0].name == 'name' and same_item(args[0].base, name, 1, obj)):
                return x
            if args and who is not None and part is not None and who != part:
                return x
    return None


class At(Scene):
    """what a split is asked for: a component, or its name"""

    def __init__(self, kind, flags=None):
        super().__init__(flags=flags)
        self.kind = kind

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn == 'isinstance' and c.args[0] == Sym('at'):
            ts = c.args[1].items if isinstance(c.args[1], Seq) else c.args[1:]
            names = {repr(t).replace('<class ', '').replace('>', '') for t in ts}
            return self.kind in names
        if isinstance(c, App) and c.fn in ('ne', 'eq', 'gt', 'lt', 'ge', 'le') and any(isinstance(x, App) and x.fn == 'len' for x in c.args) \
                and K(1) in c.args:
            return c.fn in ('eq', 'ge', 'le')
        return super().decide(c, norm)


def argument(call, x, sc, names, i, name, default=None):
    """argument i of a recorded call"""
    args, kw = x
    kw = dict(kw)
    if name in kw:
        return kw[name]
    return args[i] if i < len(args) else default


def split(p, rep):
    cls = p.find_class('Instr')
    call = Call(p, cls, 'split', args=('at',), kwargs=dict(remove_unused_parameters='remove'),
                opaque_fn=['Instr.copy', 'Instr.check_instrument_parameters', 'Instr.has_component_named', 'Instr.get_component',
                           'Orient.position', 'Orient.angles'])
    f = call.f
    rep.uses(f.module.name)
    copies = [e for e in call.I.events if e.kind == 'mcall' and e.data[1] == 'copy' and call.freeze(e.data[0]) == call.me]
    v = call.value
    pair = v.items if isinstance(v, Seq) and len(v.items) == 2 else None
    if pair is None or len(copies) != 2:
        rep.bad('split', 'Instr.split result', f'a split instrument is not returned as two copies of it: {call.norm(v)[:200]}', where(f))
        return
    for kind in ('Instance', 'str'):
        sc = At(kind)
        got = []
        for t in pair:
            t = call.fold(t, sc)
            x = t
            while isinstance(x, App) and not x.fn.split('.')[-1] == 'copy':
                x = x.args[0] if x.args else None
            if isinstance(t, MCall) and t.name == 'copy':
                args, kw = t.args, dict(t.kw)
            elif isinstance(x, App):
                args, kw = x.args[1:], dict(x.kw)
            else:
                got.append(None)
                continue
            got.append((kw.get('first', args[0] if args else K(0)), kw.get('last', args[1] if len(args) > 1 else K(-1))))
        if None in got:
            rep.bad('split', 'Instr.split result', f'a split instrument is not returned as two copies of it: {call.norm(v)[:200]}', where(f))
            return
        (a0, a1), (b0, b1) = got
        n = call.norm
        idx = n(b0)
        gap = linear(App('sub', (a1, b0)), n)
        good = n(a0) == '0' and gap == {None: 1} and n(b1) in ('-1', 'len(self.components)')
        if good:
            rep.ok('split', f'at {kind}: the first part ends after, the second begins at {idx[-100:]}')
        else:
            rep.bad('split', f'Instr.split bounds ({kind})', f'split at {"a component" if kind == "Instance" else "a name"}: components '
                    f'{n(a0)[-60:]} to {n(a1)[-60:]}, and {n(b0)[-60:]} to {n(b1)[-60:]}', where(f))
        comps = Attr(call.me, 'components')
        ask = Attr(Sym('at'), 'name')
        about = any(x == comps for x in walk(b0)) and any(x == Sym('at') for x in walk(b0))
        if kind == 'str':
            raw = call.freeze(pair[1])
            about = any(x == comps for x in walk(raw)) and any(isinstance(x, App) and x.fn == 'eq' and Sym('at') in x.args and
                                  any(isinstance(y, Attr) and y.name == 'name' and isinstance(y.base, (Elem, Item)) and
                                      mentions(y.base, call.me, 'components') for y in x.args)
                                  for x in walk(raw)) or any(of_names(x, call) for x in walk(raw))
        if about:
            rep.ok('split', f'at {kind}: {idx[-100:]}')
        else:
            rep.bad('split', f'Instr.split place ({kind})', f'the place of the split is {idx[-160:]}: not that of the component asked for',
                    where(f))
    # the order of what is done with the parts
    second = call.freeze(pair[1])
    first = call.freeze(pair[0])
    for part, t in (('first', pair[0]), ('second', pair[1])):
        names = [e for e in call.I.events if e.kind == 'setattr' and e.data[1] == 'name' and call.freeze(e.data[0]) == call.freeze(t)]
        ok = [e for e in names if any(leaf(x, call.me, 'name') for x in walk(call.freeze(e.data[2])))]
        if ok:
            rep.ok('split', f'name of the {part} part')
        else:
            rep.bad('split', f'Instr.split name {part}', f'the {part} part of a split instrument is not named after it', where(f))
    n1 = [call.norm(call.freeze(e.data[2])) for e in call.I.events if e.kind == 'setattr' and e.data[1] == 'name']
    if len(set(n1)) == len(n1):
        rep.ok('split', f'names differ: {n1}')
    else:
        rep.bad('split', 'Instr.split names', 'both parts of a split instrument have the same name', where(f))
    # parameters are dropped only when asked
    for e in call.I.events:
        if e.kind == 'mcall' and e.data[1] == 'check_instrument_parameters':
            args = list(e.data[2].items) + [x for x in e.data[3].items]
            txt = ' '.join(repr(call.freeze(x)) for x in args)
            if 'remove' in txt.replace("'remove'", '') or not args:
                rep.ok('split', 'unused parameters are removed only if asked for')
            else:
                rep.bad('split', 'Instr.split parameters', f'unused parameters are removed from a part though it was not asked for: '
                        f'{txt[:100]}', where(f, e.node))
    # dangling references
    sets = relative_sets(call, None)
    for name, how in (('at_relative', 'position'), ('rotate_relative', 'angles')):
        es = sets[name]
        what = f'{name} of a component of the second part'
        hit = [e for e in es if call.when(e, Refs(True, False)) is not False]
        if not hit:
            rep.bad('split', f'Instr.split {name}', f'{what} may refer to a component that is not part of it', where(f))
            continue
        if [e for e in es if call.when(e, Refs(True, True)) is True or call.when(e, Refs(False, False)) is True]:
            rep.bad('split', f'Instr.split {name} condition', f'{what} is made absolute though what it refers to is there', where(f))
            continue
        for e in hit:
            v = call.fold(e.data[2], Refs(True, False))
            parts = v.items if isinstance(v, Seq) else ()
            obj = call.fold(e.data[0], Refs(True, False))
            pos = len(parts) == 2 and parts[1] == K(None) and \
                any(isinstance(x, (MCall, App)) and (getattr(x, 'name', '') or x.fn.split('.')[-1]) == how for x in walk(parts[0])) and \
                any(isinstance(x, Attr) and x.name == 'orientation' and x.base == obj for x in walk(parts[0]))
            of = second_of(call, call.freeze(e.data[0]), pair[1])
            conds = [call.freeze(c) for c, _ in e.pc]
            odd = [c for c in conds if not (isinstance(c, App) and c.fn == 'in_loop') and not (isinstance(c, App) and c.fn == 'isinstance')
                   and not any(same_item(x, name, 1, obj) for x in walk(c)) and Sym('at') not in list(walk(c))]
            asked = wrongly_asked(call, conds, name, obj, call.freeze(pair[1]))
            odd += [asked] if asked is not None else []
            if not of:
                rep.bad('split', f'Instr.split {name} part', f'{what}: it is not the second part whose components are changed', where(f, e.node))
            elif odd:
                rep.bad('split', f'Instr.split {name} condition', f'{what} is made absolute under {call.norm(odd[0])[-160:]}', where(f, e.node))
            elif not pos:
                rep.bad('split', f'Instr.split {name}', f'{what} that refers to a component of the first part becomes {call.norm(v)[-160:]}',
                        where(f, e.node))
            else:
                rep.ok('split', f'{what} becomes absolute when what it refers to is not there')


def second_of(call, obj, part):
    """is obj an element of part.components"""
    t = call.freeze(part)
    return isinstance(obj, Elem) and isinstance(obj.base, Attr) and obj.base.name == 'components' and obj.base.base == t


class Named(Scene):
    """parameters are given, with a file name or not; for the other component it is the other way round"""

    def __init__(self, who, given, has):
        super().__init__()
        self.who, self.given, self.has = who, given, has

    def decide(self, c, norm):
        if isinstance(c, App) and c.fn in ('is', 'isnot') and K(None) in c.args:
            x = [a for a in c.args if a != K(None)]
            if x and x[0] in (Sym('op'), Sym('ip')):
                return (self.given == (x[0] == Sym(self.who))) == (c.fn == 'isnot')
        if c in (Sym('op'), Sym('ip')):
            return self.given == (c == Sym(self.who))
        if isinstance(c, App) and c.fn in ('any', 'in', 'notin') and 'filename' in norm(c):
            who = {x.name for x in walk(c) if isinstance(x, Sym)} & {'op', 'ip'}
            if len(who) == 1:
                return (self.has == (who == {self.who})) == (c.fn != 'notin')
        return super().decide(c, norm)


def mcpl(p, rep):
    cls = p.find_class('Instr')
    call = Call(p, cls, 'mcpl_split', args=('after',), kwargs=dict(filename='filename', output_component='oc', output_parameters='op',
                                                                   input_component='ic', input_parameters='ip', remove_unused_parameters='remove'),
                opaque_fn=['Instr.split', 'Instr.make_instance', 'Instr.add_parameter', 'InstrumentParameter.parse', 'Expr.float',
                           'Instr.get_component'])
    f = call.f
    rep.uses(f.module.name)
    n = call.norm
    v = call.value
    pair = [call.freeze(x) for x in v.items] if isinstance(v, Seq) and len(v.items) == 2 else None
    sp = [e for e in call.I.events if e.kind == 'mcall' and e.data[1] == 'split']
    if pair is None or len(sp) != 1:
        rep.bad('mcpl', 'mcpl_split result', f'a split with MCPL files is not the two parts of one split: {n(v)[:160]}', where(f))
        return
    args = [call.freeze(x) for x in sp[0].data[2].items]
    if args[:1] == [Sym('after')] and 'remove' in repr(call.freeze(sp[0].data[3])) + repr(args[1:]):
        rep.ok('mcpl', 'the split is at the component asked for')
    else:
        rep.bad('mcpl', 'mcpl_split split', f'the instrument is split at {[n(a)[:60] for a in args]}', where(f, sp[0].node))
    texts = [n(x) for x in pair]
    if len(set(texts)) == 2 and texts[0].endswith('[0]') and texts[1].endswith('[1]'):
        rep.ok('mcpl', 'the parts in order')
    else:
        rep.bad('mcpl', 'mcpl_split order', f'the parts are returned as {texts}', where(f))
        return
    for i, part in enumerate(('first', 'second')):
        me = pair[i]
        given = [e for e in call.I.events if e.kind == 'mcall' and e.data[1] == 'add_parameter' and call.freeze(e.data[0]) == me
                 and call.when(e, Scene()) is not False]
        if given and any('mcpl_filename' in repr(call.freeze(x)) for e in given for x in e.data[2].items):
            rep.ok('mcpl', f'the {part} part has the parameter mcpl_filename')
        else:
            rep.bad('mcpl', f'mcpl_split parameter {part}', f'the {part} part does not get the parameter mcpl_filename', where(f))
        made = [(j, e) for j, e in enumerate(call.I.events) if e.kind == 'mcall' and e.data[1] == 'make_instance' and
                call.freeze(e.data[0]) == me]
        if len(made) != 1:
            rep.bad('mcpl', f'mcpl_split {part}', f'the {part} part gets {len(made)} components for its MCPL file', where(f))
            continue
        j, e = made[0]
        names = p.method(cls, 'make_instance').arg_names()[1:] if hasattr(p.method(cls, 'make_instance'), 'arg_names') else \
            [a.arg for a in p.method(cls, 'make_instance').node.args.args][1:]
        got = {}
        for k, x in zip(names, e.data[2].items):
            got[k] = call.freeze(x)
        for x in e.data[3].items:
            x = call.freeze(x)
            if isinstance(x, App) and x.fn == 'kv':
                got[x.args[0].v if isinstance(x.args[0], Const) else n(x.args[0]).strip("'")] = x.args[1]
            elif isinstance(x, Seq) and len(x.items) == 2:
                got[n(x.items[0]).strip("'")] = x.items[1]
        old = Item(Attr(me, 'components'), K(-1 if i == 0 else 0))
        for k, fld in (('name', 'name'), ('at_relative', 'at_relative'), ('rotate_relative', 'rotate_relative')):
            if got.get(k) == Attr(old, fld):
                rep.ok('mcpl', f'{k} of the replaced component in the {part} part')
            else:
                rep.bad('mcpl', f'mcpl_split {part} {k}', f'the MCPL component of the {part} part has {k} = '
                        f'{n(got[k])[-100:] if k in got else None} instead of that of the component it replaces', where(f, e.node))
        typ = n(got['component']) if 'component' in got else ''
        want = ('oc', 'MCPL_output') if i == 0 else ('ic', 'MCPL_input')
        if all(w in typ for w in want) and not any(w in typ for w in (('ic', 'MCPL_input') if i == 0 else ('oc', 'MCPL_output'))):
            rep.ok('mcpl', f'{want[1]} in the {part} part')
        else:
            rep.bad('mcpl', f'mcpl_split {part} component', f'the component of the {part} part is {typ[-100:]}', where(f, e.node))
        par = got.get('parameters')
        txt = n(par) if par is not None else ''
        want = 'op' if i == 0 else 'ip'
        good = par is not None and any(x == Sym(want) for x in walk(par))
        for given, has in ((False, False), (True, False), (True, True)) if good else ():
            t = n(call.fold(par, Named(want, given, has)))
            good = good and ('mcpl_filename' in t) == (not has) and (f'*{want}' in t or t == want or t.endswith(f', {want})')) == given
        if good:
            rep.ok('mcpl', f'parameters in the {part} part: the file name unless given, and what is given')
        else:
            rep.bad('mcpl', f'mcpl_split {part} parameters', f'the parameters of the component of the {part} part are {txt[-100:]}', where(f, e.node))
        cs = [(q, x) for q, x in enumerate(call.I.events) if x.kind == 'setattr' and x.data[1] == 'components' and call.freeze(x.data[0]) == me]
        before = [call.freeze(x.data[2]) for q, x in cs if q < j]
        after = [call.freeze(x.data[2]) for q, x in cs if q > j]
        all_ = Attr(me, 'components')
        ln = f'len({n(all_)})'
        cut = bounds(whole(before[0]), n) if len(before) == 1 else None
        if i == 0:
            good = cut == (all_, {}, {ln: 1, None: -1}) and not after
        else:
            good = cut == (all_, {None: 1}, {ln: 1}) and len(after) == 1 and front(after[0], n)
        if good:
            rep.ok('mcpl', f'place of the component in the {part} part')
        else:
            rep.bad('mcpl', f'mcpl_split {part} place', f'the component of the {part} part does not take the place of the one it replaces: '
                    f'{[n(b)[-160:] for b in before]} then {[n(a)[-160:] for a in after]}', where(f, e.node))


def whole(t):
    """a sequence that is all of another: that one"""
    while isinstance(t, Seq) and len(t.items) == 1 and isinstance(t.items[0], Splice) or \
            isinstance(t, App) and t.fn in ('tuple', 'list') and len(t.args) == 1:
        t = t.items[0].base if isinstance(t, Seq) else t.args[0]
    return t


def front(t, n):
    """the last element and then all but the last, of the same sequence"""
    if isinstance(t, App) and t.fn == 'add' and len(t.args) == 2:
        a, b = t.args
        its = list(a.items if isinstance(a, Seq) else [Splice(a)]) + list(b.items if isinstance(b, Seq) else [Splice(b)])
    elif isinstance(t, Seq):
        its = list(t.items)
    else:
        return False
    if len(its) != 2 or not isinstance(its[0], Item) or not isinstance(its[1], Splice):
        return False
    x, (b, lo, hi) = its[0], bounds(whole(its[1].base), n)
    ln = f'len({n(b)})'
    return x.base == b and linear(x.key, n) in ({None: -1}, {ln: 1, None: -1}) and not lo and hi == {ln: 1, None: -1}
