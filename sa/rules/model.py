"""C19: names in an instrument or component type are unique, and looking one up gives exactly that object"""
from __future__ import annotations
from ..absint import K, App, Seq, Sym, Term, Const, MCall
from ..spec import World, Method, pieces, lookup, exists, test
from ..project import AnalysisBroken
from .whole import Facts, where, OTHER

STEPS = ('Instance.collect_metadata', 'Comp.collect_metadata', 'Comp.get_parameter', 'Comp.has_parameter', 'Expr.parse',
         'blocks_to_raw_c', 'RawC.from_tuple', 'Comp.parameter_name_used', 'Expr.copy', 'Instance.set_parameter')


class Kept(World):
    keep_pick = True


def has(seq, cond):
    return f'has({seq}: {cond})'


def named(seq, name):
    a, b = sorted((f'{seq}#*.name', name))
    return f'eq({a}, {b})'


def world(flags=None, types=None):
    return Kept(types or {}, flags or {'': False})


def quiet(fx, rule, construct, m, w):
    """a question changes nothing"""
    bad = [e.kind for e in m.I.events if e.kind in ('setattr', 'setitem', 'delitem', 'augassign') and not fresh(m, e)
           and m.when(e, w) is not False]
    fx.check(rule, construct, not bad, f'{construct}: a question about names changes something ({bad[:2]})', m)


def fresh(m, e):
    """does this event change only an object made in the method itself"""
    from ..absint import HList, HObj, Ref
    return isinstance(e.data[0], (HList, HObj, Ref))


def adding(fx):
    """adding under a name that is taken fails; otherwise what is added comes last and nothing else changes"""
    for cls, name, taken, field in (
            ('Instr', 'add_component', ('components',), 'components'),
            ('Instr', 'add_parameter', ('parameters',), 'parameters'),
            ('Comp', 'add_define', ('define', 'setting', 'output'), 'define'),
            ('Comp', 'add_setting', ('define', 'setting', 'output'), 'setting'),
            ('Comp', 'add_output', ('output',), 'output')):
        c = f'{cls}.{name}'
        m = fx.method(cls, name, 'a', steps=STEPS[:-4])
        where_ = {t: has(f'self.{t}', named(f'self.{t}', 'a.name')) for t in taken}
        for t in taken:
            w = world({x: x == where_[t] for x in where_.values()})
            fx.check('unique', f'{c} taken in {t}', m.raises(w) is True, f'{c}: a name that is taken in {t} is accepted', m)
        w = world({x: False for x in where_.values()})
        fx.check('unique', f'{c} free', m.raises(w) is False, f'{c}: a free name is refused', m)
        got = [(s, e) for s, e, *_ in m.pieces(m.field(field), w)]
        fx.same('unique', f'{c} result', got, ([(f'self.{field}', '*'), ('', 'a')],), m, f'{field} after {c}')
        for other in ('define', 'setting', 'output') if cls == 'Comp' else ():
            if other != field:
                fx.same('unique', f'{c} keeps {other}', m.show(m.field(other), w), f'self.{other}', m, f'{other} after {c}')
    m = fx.method('Instr', 'add_parameter', 'a', kwargs={'ignore_repeated': K(True)}, steps=STEPS[:-4])
    w = world({has('self.parameters', named('self.parameters', 'a.name')): True})
    fx.check('unique', 'Instr.add_parameter ignored', m.raises(w) is False, 'add_parameter(ignore_repeated=True) fails', m)
    fx.same('unique', 'Instr.add_parameter kept', [(s, e) for s, e, *_ in m.pieces(m.field('parameters'), w)],
            ([('self.parameters', '*')],), m, 'parameters after a repeated one is ignored')
    for cls in ('Instr', 'Instance', 'Comp'):
        m = fx.method(cls, 'add_metadata', 'm')
        for taken in (False, True):
            w = world({has('self.metadata', named('self.metadata', 'm.name')): taken})
            got = [(s, e, sorted(cond)) for s, e, cond, _ in m.pieces(m.field('metadata'), w)]
            others = [f'not({named("self.metadata", "m.name")})']
            kept = [('self.metadata', '*', [])], [('self.metadata', '*', others)]
            got = [(s, e, [canonical(x) for x in cs]) for s, e, cs in got]
            fx.check('unique', f'{cls}.add_metadata {taken}', m.raises(w) is False and len(got) == 2
                     and got[1] == ('', 'm', []) and got[:1] in (kept[1:] if taken else kept),
                     f'{cls}.add_metadata makes {got} of the metadata', m)


def canonical(text):
    """the sides of an == in a condition text in alphabetical order"""
    neg = text.startswith('not(')
    t = text[4:-1] if neg else text
    if t.startswith(('eq(', 'ne(')) and t.count(', ') == 1:
        a, b = sorted(t[3:-1].split(', '))
        neg = neg != t.startswith('ne(')
        t = f'eq({a}, {b})'
    return f'not({t})' if neg else t


def finding(fx):
    """a lookup gives the object of exactly this name, its default, or an error"""
    p = lambda s: f'{s}: {named(s, "name")}'
    for cls, name, args, flags, right in (
            ('Instr', 'get_parameter', ('name', 'default'), {}, [p('self.parameters'), 'default']),
            ('Instr', 'get_component', ('name',), {"eq(name, 'PREVIOUS')": False}, [p('self.components')]),
            ('Comp', 'get_parameter', ('name', 'default'), {}, [p('self.define'), p('self.setting'), 'default']),
            ('Instance', 'get_parameter', ('name',), {}, [p('self.parameters'), 'get_parameter(self.type, name)'])):
        m = fx.method(cls, name, *args, steps=STEPS)
        w = world(flags)
        got = m.lookup(w)
        fx.same('lookup', f'{cls}.{name}', got, (right,), m, f'{cls}.{name}')
        quiet(fx, 'lookup', f'{cls}.{name}', m, w)
    m = fx.method('Instr', 'get_component', 'name', steps=STEPS)
    x = has('self.components', named('self.components', 'name'))
    fx.check('lookup', 'Instr.get_component unknown', m.raises(world({"eq(name, 'PREVIOUS')": False, x: False})) is True, 'a component name that does not exist is no error', m)
    for cls, name, right in (
            ('Instr', 'has_parameter', has('self.parameters', named('self.parameters', 'name'))),
            ('Instr', 'has_component_named', x),
            ('Instance', 'defines_parameter', has('self.parameters', named('self.parameters', 'name')))):
        m = fx.method(cls, name, 'name', steps=STEPS)
        w = world()
        t = m.fold(m.raw, w)
        fx.same('lookup', f'{cls}.{name}', exists(t, m.norm) or m.norm(t), right, m, f'{cls}.{name}')
        quiet(fx, 'lookup', f'{cls}.{name}', m, w)
    m = fx.method('Comp', 'has_parameter', 'name', steps=[s for s in STEPS if s != 'Comp.get_parameter'])
    both = {s: has(f'self.{s}', named(f'self.{s}', 'name')) for s in ('define', 'setting')}
    for d in (False, True):
        for s in (False, True):
            w = world({both['define']: d, both['setting']: s})
            got = w.decide(m.fold(m.raw, w), m.norm)
            if got is None:
                got = m.result(w)
            fx.same('lookup', f'Comp.has_parameter {d} {s}', str(got), str(d or s), m, f'has_parameter, in define {d}, setting {s},')


def last(fx):
    for ok, right in ((True, ('self.components[neg(count)]',)),
                      (False, ('[each(self.components: (self.components#*.removable ?  : self.components#*))][neg(count)]',))):
        m = fx.method('Instr', 'last_component', 'count', K(ok), steps=STEPS)
        w = world()
        fx.same('lookup', f'Instr.last_component {ok}', m.result(w), right, m, f'last_component(count, {ok})')
        seq = right[0].rsplit('[neg', 1)[0]
        few = {'lt(len(self.components), count)': False}
        few[f'lt(len({seq}), count)'] = True
        for e in m.I.events:
            if e.kind == 'raise' and m.when(e, world(few)) is True:
                fx.rep.ok('lookup', f'Instr.last_component too few {ok}')
                break
        else:
            fx.rep.bad('lookup', f'Instr.last_component too few {ok}', 'going back further than there are components is no error',
                       where(m.f))


def modifiers(fx):
    """each call that modifies a component or its type changes the field it is named for and no other"""
    E = {'x': 'Expr', 'x.is_constant': 'bool'}
    for cls, name, args, field, right, flags in (
            ('Instance', 'REMOVABLE', (), 'removable', 'True', {}), ('Instance', 'CPU', (), 'cpu', 'True', {}),
            ('Instance', 'SPLIT', ('x',), 'split', 'x', {}), ('Instance', 'WHEN', ('x',), 'when', 'x', {'x.is_constant': False}),
            ('Instance', 'GROUP', ('x',), 'group', 'x', {}), ('Comp', 'no_acc', (), 'acc', 'False', {}),
            ('Instr', 'add_included', ('x',), 'included', '[*self.included, x]', {}),
            ('Instr', 'DEPENDENCY', ('x', 'y'), 'flags', '[*self.flags, x, y]', {}),
            ('Instance', 'JUMP', ('x', 'y'), 'jump', '[x, y]', {}),
            ('Instance', 'JUMP', (), 'jump', 'self.jump', {}),
            ('Instance', 'EXTEND', (), 'extend', 'self.extend', {}),
            ('Instance', 'EXTEND', ('x', 'y'), 'extend', 'blocks_to_raw_c(x, y)', {})):
        c = f'{cls}.{name}({", ".join(args)})'
        m = fx.method(cls, name, *args, steps=STEPS)
        w = world(flags, E)
        fx.same('modifier', c, m.show(m.field(field), w), right, m, f'{field} after {c}')
        only(fx, c, m, w, {field})
    for name, field, text in (('SPLIT', 'split', 'x'), ('WHEN', 'when', 'x')):
        m = fx.method('Instance', name, 'x', steps=STEPS)
        w = world({'parse(x).is_constant': False}, {'x': 'str', 'parse(x)': 'Expr'})
        fx.same('modifier', f'{name} text', m.show(m.field(field), w), ('parse(x)', 'Expr.parse(x)'), m, f'{field} after {name} with text')
        w = world({}, {'x': 'float'})
        fx.check('modifier', f'{name} other', m.raises(w) is True, f'{name} accepts what is no expression', m)
    m = fx.method('Instance', 'WHEN', 'x', steps=STEPS)
    fx.check('modifier', 'WHEN constant', m.raises(world({'x.is_constant': True}, E)) is True, 'WHEN accepts a constant', m)
    for cls, sections in (('Instr', SECTIONS), ('Comp', dict(SECTIONS, SHARE='share', TRACE='trace', DISPLAY='display'))):
        for name, field in sections.items():
            m = fx.method(cls, name, 'x', 'y', steps=STEPS)
            w = world()
            got = [(s, e) for s, e, *_ in m.pieces(m.field(field), w)]
            fx.same('modifier', f'{cls}.{name}', got, ([(f'self.{field}', '*'), ('blocks_to_raw_c(x, y)', '*')],), m,
                    f'{field} after {cls}.{name}')
            only(fx, f'{cls}.{name}', m, w, {field})


SECTIONS = dict(USERVARS='user', DECLARE='declare', INITIALIZE='initialize', SAVE='save', FINALLY='final')


def only(fx, c, m, w, fields):
    other = [e.data[1] for e in m.I.events if e.kind == 'setattr' and e.data[0] == m.me and e.data[1] not in fields]
    fx.check('modifier', c + ' only', not other, f'{c} changes {other} as well', m)


def collected(fx):
    """metadata of types, instances and the instrument; an instance's own replaces that of its type with the same name"""
    m = fx.method('Instr', 'collect_metadata', steps=STEPS)
    got = [(s, e) for s, e, *_ in m.pieces(m.raw, world())]
    fx.same('metadata', 'Instr.collect_metadata', got,
            ([('collect_metadata(self.components#*)', '*'), ('self.metadata', '*')],), m)
    m = fx.method('Comp', 'collect_metadata', steps=STEPS)
    fx.same('metadata', 'Comp.collect_metadata', m.result(world()), 'self.metadata', m)


def setting(fx):
    """a parameter of an instance: only what its type has, once, with the type of the definition"""
    P = 'get_parameter(self.type, name)'
    there = [has(f'self.type.{g}', named(f'self.type.{g}', 'name')) for g in ('define', 'setting')]
    own = has('self.parameters', named('self.parameters', 'name'))
    steps = [s for s in STEPS if s not in ('Comp.has_parameter', 'Instance.set_parameter')]

    def w(define=False, setting=True, taken=False, fits=True, vector=False, kind='Expr'):
        known = define or setting
        flags = {there[0]: define, there[1]: setting, own: taken, f'{P}.compatible_value(value)': fits, f'{P}.value.is_vector': vector}
        return world(flags, {P: 'ComponentParameter' if known else 'None', 'value': kind})
    m = fx.method('Instance', 'set_parameter', 'name', 'value', steps=steps)
    fx.check('setting', 'unknown', m.raises(w(setting=False)) is True, 'a parameter that the component type does not have is accepted', m)
    for define in (False, True):
        fx.check('setting', f'known {define}', m.raises(w(define, not define)) is False, 'a parameter that the component type has is refused', m)
    fx.check('setting', 'unfit', m.raises(w(fits=False)) is True, 'a value that does not fit the parameter is accepted', m)
    for kind, vec, right in (('Expr', False, ('value',)), ('str', False, ('parse(value)', 'Expr.parse(value)')),
                             ('float', False, (f'Expr(expr=[Value(value=value, data_type={P}.value.data_type)])',)),
                             ('list', True, (f'Expr(expr=[Value(value=value, data_type={P}.value.data_type)])',)),
                             ('str', True, (f'Expr(expr=[Value(value=value, data_type={P}.value.data_type, shape_type={P}.value.shape_type)])',))):
        ww = w(kind=kind, vector=vec)
        got = [(s, e) for s, e, *_ in m.pieces(m.field('parameters'), ww)]
        right = tuple([('self.parameters', '*'), ('', f'ComponentParameter(name={n}, value={r})')] for r in right
                      for n in (f'{P}.name', 'name'))
        fx.same('setting', f'{kind} {vec}', got, right, m, f'the parameters after a value of type {kind} is set')
    for kw, fails, right in (({}, False, [('self.parameters', '*', [])]), ({'allow_repeated': K(False)}, True, None),
                             ({'overwrite': K(True)}, False, [('self.parameters', '*', [f'not({named("self.parameters", "name")})']),
                                                              ('', '', [])])):
        m = fx.method('Instance', 'set_parameter', 'name', 'value', kwargs=kw, steps=steps)
        ww = w(taken=True)
        fx.check('setting', f'repeated {"".join(kw)}', m.raises(ww) is fails, f'a repeated parameter {"is" if not fails else "is not"} '
                 f'an error with {"".join(kw) or "defaults"}', m)
        if right:
            got = [(s, '' if s == '' else e, [canonical(x) for x in sorted(c)]) for s, e, c, _ in m.pieces(m.field('parameters'), ww)]
            fx.same('setting', f'repeated {"".join(kw)} result', got, (right,), m, 'the parameters after a repeated one')
    m = fx.method('Instance', 'set_parameters', kwargs={'x': 'u', 'y': 'v'}, steps=STEPS)
    got = [t for _, t, _ in m.done(world(), {'set_parameter'})]
    fx.same('setting', 'several', got, (["set_parameter('x', u)", "set_parameter('y', v)"],
                                        ["self.set_parameter('x', u)", "self.set_parameter('y', v)"]), m, 'set_parameters')


def references(fx):
    """what a reference to a component in an instrument stands for"""
    steps = ('Instr.last_component', 'Instr.get_component', 'Instr.has_component_named')
    m = fx.method('InstrVisitor', 'visitComponent_ref', 'ctx', opaque=[o for o in OTHER if o != 'InstrVisitor'], steps=steps)
    N = 'text(Identifier)'
    known = has('self.state.components', named('self.state.components', N))
    for destination in (False, True):
        t = {'self.destination': 'Instr' if destination else 'None', 'Previous': 'Token', 'IntegerLiteral': 'Token'}
        for given in (False, True):
            tt = dict(t, IntegerLiteral='Token' if given else 'None')
            n = 'int(text(IntegerLiteral))' if given else '1'
            for enough in (True, False):
                w = world({f'le({n}, len(self.state.components))': enough}, tt)
                c = f'PREVIOUS {given} {enough} {destination}'
                if not enough and not destination:
                    fx.check('reference', c, m.raises(w) is True, 'a reference PREVIOUS back beyond the first component is no error', m)
                    continue
                right = f'self.state.last_component({n}, True)' if enough else \
                    f'self.destination.last_component(sub({n}, len(self.state.components)), True)'
                got = m.result(w)
                fx.check('reference', c, m.raises(w) is False and call(got) in [call(x) for x in (right, right.replace(', True)', ')'))],
                         f'the reference is {got[:200]} instead of {right}', m)
        for there in (True, False):
            w = world({known: there, f'has_component_named(self.state, {N})': there}, dict(t, Previous='None'))
            c = f'name {there} {destination}'
            if not there and not destination:
                fx.check('reference', c, m.raises(w) is True, 'a reference to a component that does not exist is no error', m)
                continue
            right = f'self.{"state" if there else "destination"}.get_component({N})'
            got = m.result(w)
            fx.check('reference', c, m.raises(w) is False and call(got) == call(right), f'the reference is {got[:200]} instead of {right}', m)


def call(text):
    """a method call written as f(x, ...) or x.f(...)"""
    import re
    text = text.replace('removable_ok=', '').replace('count=', '').replace('name=', '')
    r = re.match(r'^((?:self\.)[\w.]+)\.(\w+)\((.*)\)$', text)
    return f'{r[2]}({r[1]}, {r[3]})' if r else text


def blocks(fx):
    """C blocks: every one that is not empty is kept, in order, as it is"""
    made = lambda f, n, s: f'RawC(filename={f}, line={n}, source={s}'
    f, s, n = Sym('f'), Sym('s'), Sym('n')
    for c, arg, types, right in (
            ('three', Seq('tuple', (f, n, s)), {'f': 'str', 'n': 'int', 's': 'str'}, made('f', 'n', 's')),
            ('two', Seq('tuple', (n, s)), {'n': 'int', 's': 'str'}, made("''", 'n', 's')),
            ('text', s, {'s': 'str'}, made("''", '-1', 's'))):
        m = fx.method('RawC', 'from_tuple', arg, opaque=OTHER, steps=())
        w = world({}, types)
        got = m.result(w)
        fx.check('block', f'from_tuple {c}', got.startswith(right) and got[len(right):] in (')', ', translated=None)'),
                 f'a block given as {c} is {got[:150]}', m)
    m = fx.function('blocks_to_raw_c', 'x', 'y', opaque=OTHER, steps=('RawC.is_empty',))
    for a in (True, False):
        for b in (True, False):
            ww = world({'x.is_empty': a, 'y.is_empty': b, 'is_empty(x)': a, 'is_empty(y)': b}, {'x': 'RawC', 'y': 'RawC'})
            got = [e for _, e, *_ in m.pieces(m.raw, ww)]
            fx.same('block', f'blocks_to_raw_c {a} {b}', got, ([v for v, x in (('x', a), ('y', b)) if not x],), m, 'what is kept of blocks x and y')


def c19(p, rep):
    fx = Facts(p, rep)
    setting(fx)
    references(fx)
    blocks(fx)
    adding(fx)
    finding(fx)
    last(fx)
    modifiers(fx)
    collected(fx)
