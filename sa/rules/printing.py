"""C20: the text that an instrument is printed as is an instrument definition that says the same, and its HTML form escapes it"""
from __future__ import annotations
from collections import Counter
from ..absint import App, Str, Rep, Opt, Phi, Splice, Const, Seq, walk
from ..reread import Grammar, cut, flat, valued, Undecided, Unreadable
from ..spec import World, Method
from .whole import Facts, where
from ..project import AnalysisBroken

OPAQUE = ('Value', 'Expr', 'Vector', 'Angles', 'Registry', 'Orient')
SECTIONS = dict(declare=('declare', 'Declare'), user=('uservars', 'Uservars'), initialize=('initialise', 'Initialize'),
                save=('save', 'Save'), final=('finally_', 'Finally'))
REST = dict(IDENT={'Identifier'}, EXPR={'expr', 'StringLiteral'}, COORDS={'coords', 'closed'}, TEXT={'Text'})


class Scene(World):
    """given: normal form -> N (how many elements), None (not there), True (there), or the value it has: a V, text or number"""

    def __init__(self, given, types=None, flags=None):
        self.values = {k: v.v if isinstance(v, V) else v for k, v in given.items() if isinstance(v, (V, str, int)) and v is not True}
        types = dict(types or {})
        flags = dict(flags or {})
        for k, v in given.items():
            if v is None:
                types[k] = 'None'
            elif v is True:
                types[k] = 'object'
            elif isinstance(v, N):
                flags[k] = bool(v)
        super().__init__(types, flags or {'': False})
        self.counts = {k: v.n for k, v in given.items() if isinstance(v, N)}

    def decide(self, c, norm):
        v = valued(c, norm, self.values)
        if v is not None:
            return bool(v[0])
        if isinstance(c, App) and c.fn == 'len' and len(c.args) == 1 or isinstance(c, App) and c.fn in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
            v = valued(c, lambda t: norm(t), Sizes(self.values, self.counts))
            if v is not None:
                return bool(v[0])
        return super().decide(c, norm)


class Sizes(dict):
    def __init__(self, values, counts):
        super().__init__(values)
        self.update({k: [0] * n for k, n in counts.items()})


class V:
    def __init__(self, v):
        self.v = bool(v)


class N:
    def __init__(self, n):
        self.n = n

    def __bool__(self):
        return self.n > 0


class Reading:
    def __init__(self, m, grammar, rule, raw, scene, kinds, strip=''):
        self.m, self.scene, self.error, self.got = m, scene, None, None
        t = m.fold(raw, scene)
        norm = m.norm

        def known(x):
            v = valued(x, norm, scene.values) if not isinstance(x, (Str, Const)) else None
            return None if v is None else str(v[0])
        try:
            self.toks = toks = cut(flat(t, norm, scene.counts.get, known), grammar, kinds)
            got = grammar.read(rule, toks)
            if got is None:
                n = grammar.far
                self.error = f'is not a{"n" if rule[0] in "aeio" else ""} {rule} at: {" ".join(map(repr, toks[max(0, n - 6):n + 1]))}'
            else:
                self.got = got
        except Unreadable as e:
            self.error = f'cannot be read: {e}'
        except Undecided as e:
            self.error = f'depends on {str(e)[:160]}'


def kinds_of(n):
    """what kind of token a hole is printed as"""
    last = n.split('.')[-1]
    if n.startswith('or(') and n.endswith(", 'None')"):
        return kinds_of(n[3:-9])
    if n.startswith('Vector(') or n.startswith('Angles('):
        return REST['COORDS']
    if n.endswith(('at_relative[0]', 'rotate_relative[0]')):
        return REST['COORDS']
    if n == 'self.name' or last in ('name', 'group'):
        return REST['IDENT']
    if last in ('when', 'split', 'condition', 'x', 'y', 'z') or last == 'value' and 'parameters#' in n:
        return REST['EXPR']
    if last in ('source', 'mimetype', 'value', 'filename', 'line') or last.startswith(('flags', 'included', 'registries')):
        return REST['TEXT']
    return None


def plain(n):
    if n.startswith('or(') and n.endswith(", 'None')"):
        n = n[3:-9]
    for a, b in (('Vector(', ')'), ('Angles(', ')'), ('*', '')):
        if n.startswith(a) and n.endswith(b):
            n = n[len(a):len(n) - len(b)]
    return n.strip('"')


def compare(F, rule, name, r, want, m):
    """want: what is said -> (rules it is read under, how often); nothing else may be said"""
    if r.error:
        F.rep.bad(rule, name, f'the text {r.error}', where(m.f))
        return
    got = Counter()
    for h, path in r.got:
        got[(plain(h), path)] += 1
    wrong = []
    for t in r.toks:
        apart = t.text.strip('%{}"').strip().split('…')[1:-1]
        if len(t.holes) > 1 and not all('\n' in a if t.text[0] == '%' else a.isspace() for a in apart):
            wrong.append(f'{t.holes[0]} and {t.holes[1]} are not kept apart')
    for (what, under), n in want.items():
        have = sum(c for (h, path), c in got.items() if h == what and set(under) <= set(path))
        if have != n:
            wrong.append(f'{what} is said {have} times instead of {n} as {"/".join(under)}')
    said = {w for w, _ in want}
    for (h, path), c in got.items():
        if '.' in h and h not in said:
            wrong.append(f'{h} is said as {"/".join(path[-3:])}')
    if wrong:
        F.rep.bad(rule, name, '; '.join(wrong[:3])[:300], where(m.f))
    else:
        F.rep.ok(rule, name)


# name of the target as it is read, relative target, what the text has to have
JUMPS = (('PREVIOUS', -1, {'PREVIOUS': 'Previous'}), ('PREVIOUS_1', -1, {'PREVIOUS': 'Previous'}),
         ('PREVIOUS_3', -3, {'PREVIOUS': 'Previous', '3': 'IntegerLiteral'}),
         ('NEXT', 1, {'NEXT': 'Next'}), ('NEXT_2', 2, {'NEXT': 'Next', '2': 'IntegerLiteral'}), ('MYSELF', 0, {'MYSELF': 'Myself'}),
         ('PREVIOUS_guide', 0, {'PREVIOUS_guide': 'Identifier'}), ('NEXT_2', 0, {'NEXT_2': 'Identifier'}),
         ('guide_1', 0, {'guide_1': 'Identifier'}))


def instance_scene(s, cpu=True, removable=True, split=True, when=True, group=True, extend=2, jumps=1, metadata=2, parameters=2,
                   at=True, rot=True, null=False, iterate=True, jump=JUMPS[0], mdname='header', tuples=False):
    """(what is so, what the text has to say)"""
    P = f'{s}.parameters#*'
    J, M = f'{s}.jump#*', f'{s}.metadata#*'
    given = {f'{s}.cpu': V(cpu), f'{s}.removable': V(removable), f'{s}.split': split or None, f'{s}.when': when or None,
             f'{s}.group': group or None, f'{s}.extend': N(extend), f'{s}.jump': N(jumps), f'{s}.metadata': N(metadata),
             f'{s}.parameters': N(parameters), f'{s}.at_relative[1]': at or None, f'{s}.rotate_relative[1]': rot or None,
             f'{J}.iterate': V(iterate), f'{J}.target': jump[0], f'{J}.relative_target': jump[1], f'{M}.name': mdname}
    types = {f'{s}.at_relative[0]': {'tuple'} if tuples else {'Vector', 'tuple'},
             f'{s}.rotate_relative[0]': {'tuple'} if tuples else {'Angles', 'tuple'}, 'wrapper': 'TextWrapper'}
    flags = {}
    for x in (f'{s}.rotate_relative[0]', f'Vector(*{s}.rotate_relative[0])', f'Angles(*{s}.rotate_relative[0])'):
        flags[f'is_null({x})'] = flags[f'{x}.is_null()'] = null
    for x in (f'{s}.at_relative[0]', f'Vector(*{s}.at_relative[0])', f'Angles(*{s}.at_relative[0])'):
        flags[f'is_null({x})'] = flags[f'{x}.is_null()'] = True
    ci = 'component_instance'
    want = {(f'{s}.name', (ci, 'instance_name')): 1, (f'{s}.type.name', (ci, 'component_type')): 1,
            ('CPU', (ci, 'Cpu')): int(cpu), ('REMOVABLE', (ci, 'Removable')): int(removable),
            ('SPLIT', (ci, 'Split')): int(split), (f'{s}.split', (ci, 'split')): int(split),
            (f'{s}.when', (ci, 'when')): int(when), (f'{s}.group', (ci, 'groupref')): int(group),
            (f'{P}.name', (ci, 'instance_parameter', 'Identifier')): parameters,
            (f'{P}.value', (ci, 'instance_parameter', 'expr')): parameters,
            (f'{s}.extend#*.source', (ci, 'extend')): extend,
            (f'{s}.at_relative[0]', (ci, 'place', 'coords')): 1,
            ('ABSOLUTE', (ci, 'place', 'Absolute')): int(not at), (f'{s}.at_relative[1].name', (ci, 'place', 'reference')): int(at),
            (f'{J}.condition', (ci, 'jumps', 'expr')): jumps, ('JUMP', (ci, 'jump')): jumps,
            ('ITERATE', (ci, 'jump', 'Iterate')): jumps * int(iterate), ('WHEN', (ci, 'jump', 'When')): jumps * int(not iterate),
            (f'{M}.mimetype', (ci, 'metadata', 'StringLiteral')): metadata, (f'{M}.value', (ci, 'metadata', 'unparsed_block')): metadata}
    for text, token in jump[2].items():
        want[(text, (ci, 'jumpname', token))] = jumps
    if metadata:
        want[(mdname.strip('"'), (ci, 'metadata'))] = metadata
    if at or not null or rot:
        want[(f'{s}.rotate_relative[0]', (ci, 'orientation', 'coords'))] = 1
        want[('ABSOLUTE', (ci, 'orientation', 'Absolute'))] = int(not rot)
        want[(f'{s}.rotate_relative[1].name', (ci, 'orientation', 'reference'))] = int(rot)
    return given, types, flags, want


def c20(p, rep):
    F = Facts(p, rep)
    g = Grammar(p.src / 'grammar', 'McInstr', special=('expr',))

    def text(cls, name='to_string', wrapper='TextWrapper'):
        c = p.find_class(cls)
        f = p.method(c, name)
        w = p.find_class(wrapper)
        if f is None or w is None:
            raise AnalysisBroken(f'{cls}.{name} or {wrapper} not found')
        rep.uses(f.module.name, w.module.name)
        args, kw = ((), {}) if name == '__str__' else (('wrapper',), dict(preset=lambda m: m.I.sym('wrapper', w)))
        m = Method(p, f, args, None, cls=c, opaque=[o for o in OPAQUE if o != cls], **kw)
        return m

    # an instance in every combination of its clauses
    m = text('Instance')
    on = dict()
    off = dict(cpu=False, removable=False, split=False, when=False, group=False, extend=0, jumps=0, metadata=0, parameters=0,
               at=False, rot=False, null=True)
    scenes = [('with every clause', on), ('with the least', off)]
    for k, v in off.items():
        if k not in ('at', 'rot', 'null'):
            scenes.append((f'without {k}', {k: v}))
            scenes.append((f'with only {k}', {**off, k: {0: 1, False: True}.get(v, v)}))
    for k in ('extend', 'jumps', 'metadata', 'parameters'):
        scenes.append((f'with 1 of {k}', {k: 1}))
    scenes.append(('with 2 of jumps', dict(jumps=2)))
    for base, bn in ((on, ''), (off, 'only ')):
        for at in (False, True):
            for rot in (False, True):
                for null in (False, True):
                    scenes.append((f'{bn}AT {"RELATIVE" if at else "ABSOLUTE"} ROTATED {"(0, 0, 0) " if null else ""}'
                                   f'{"RELATIVE" if rot else "ABSOLUTE"}', {**base, 'at': at, 'rot': rot, 'null': null}))
    scenes.append(('placed by plain tuples', dict(tuples=True)))
    for j in JUMPS:
        scenes.append((f'jump {j[0]} {j[1]:+d}', dict(jump=j)))
        scenes.append((f'jump {j[0]} {j[1]:+d} WHEN', dict(jump=j, iterate=False)))
    for n in ('"quoted name"', 'a_name', 'not-identifier'):
        scenes.append((f'metadata called {n}', dict(mdname=n)))
    for name, kw in scenes:
        given, types, flags, want = instance_scene('self', **kw)
        r = Reading(m, g, 'component_instance', m.raw, Scene(given, types, flags), kinds_of)
        compare(F, 'instance', f'Instance {name}', r, want, m)

    # an instrument
    m = text('Instr')
    idef = 'instrument_definition'
    off = dict(parameters=0, metadata=0, flags=0, components=0, **{s: 0 for s in SECTIONS})
    scenes = [('with everything', {}), ('with nothing', off)]
    for k in off:
        scenes += [(f'without {k}', {k: 0}), (f'with only {k}', {**off, k: 1}), (f'with 1 of {k}', {k: 1})]
    scenes += [(f'parameter {x}', dict(kind=x)) for x in ('float', 'int', 'str')]
    scenes += [(f'parameter with unit {x!r}', dict(unit=x)) for x in (None, '', '"1/AA"', 'meV')]
    scenes += [('parameter without value', dict(has_value=False)), ('parameter without unit and value', dict(has_value=False, unit=None))]
    for name, kw in dict((x[0], x) for x in scenes).values():
        given, types, flags, want = instr_scene(**kw)
        r = Reading(m, g, idef, m.raw, Scene(given, types, flags), kinds_of)
        compare(F, 'instrument', f'Instr {name}', r, want, m)

    for cls in ('Vector', 'Angles'):
        m = text(cls, '__str__')
        r = Reading(m, g, 'coords', m.raw, Scene({}), kinds_of)
        compare(F, 'vector', cls, r, {(f'self.{x}', ('coords', 'expr')): 1 for x in 'xyz'}, m)
        if not r.error:
            order = [plain(h) for h, path in r.got if plain(h).startswith('self.')]
            F.same('vector', f'{cls} order', ', '.join(order), 'self.x, self.y, self.z', m)

    # HTML: text that can contain anything is escaped
    for cls in ('Instance', 'Instr'):
        m = text(cls, wrapper='HTMLWrapper')
        holes, raw = [], []
        leaves(m.fold(m.raw, World({'wrapper': 'HTMLWrapper'})), False, holes)
        for t, escaped in holes:
            n = plain(m.norm(t))
            if not escaped and not identifier(n):
                raw.append(n)
        for n in dict.fromkeys(plain(m.norm(t)) for t, e in holes if e or not identifier(plain(m.norm(t)))):
            F.check('html', f'{cls}: {n}', n not in raw, f'{n} is written into the HTML text as it is', m)
    rep.need('instance', 60, 'printed component instances')
    rep.need('instrument', 36, 'printed instruments')
    rep.need('vector', 4, 'printed vectors')
    rep.need('html', 15, 'values in HTML text')


def instr_scene(parameters=2, metadata=2, flags=2, components=2, declare=2, user=2, initialize=2, save=2, final=2, kind='float', unit='"m"',
                has_value=True):
    s = 'self.components#*'
    given, types, fl, want = instance_scene(s)
    P, M, idef = 'self.parameters#*', 'self.metadata#*', 'instrument_definition'
    own = dict(declare=declare, user=user, initialize=initialize, save=save, final=final)
    want = {(w, (idef, 'instrument_trace', *under)): n * components for (w, under), n in want.items()}
    given.update({'self.parameters': N(parameters), 'self.metadata': N(metadata), 'self.flags': N(flags), 'self.components': N(components),
                  'self.included': N(1), 'self.registries': N(1), f'{M}.name': 'comment', f'{P}.unit': unit,
                  f'{P}.value.is_str': V(kind == 'str'), f'{P}.value.is_vector': V(False), f'{P}.value.has_value': V(has_value)})
    given.update({f'self.{k}': N(n) for k, n in own.items()})
    fl[f'eq({P}.value.data_type, DataType.int)'] = kind == 'int'
    fl[f'eq({P}.value.data_type, DataType.float)'] = kind == 'float'
    fl[f'eq({P}.value.data_type, DataType.str)'] = kind == 'str'
    ip = (idef, 'instrument_parameters', 'instrument_parameter')
    want.update({('self.name', (idef, 'Identifier')): 1, (f'{P}.name', (*ip, 'Identifier')): parameters,
                 ('int', (*ip, 'Int')): parameters * (kind == 'int'), ('string', (*ip, 'String')): parameters * (kind == 'str'),
                 (f'{P}.value', (*ip,)): parameters * has_value,
                 (f'{M}.mimetype', (idef, 'instrument_metadata', 'metadata', 'StringLiteral')): metadata,
                 ('comment', (idef, 'instrument_metadata', 'metadata')): metadata,
                 (f'{M}.value', (idef, 'instrument_metadata', 'metadata', 'unparsed_block')): metadata,
                 ('self.flags#*', (idef, 'dependency', 'StringLiteral')): flags})
    for k, n in own.items():
        want[(f'self.{k}#*.source', (idef, SECTIONS[k][0], 'unparsed_block'))] = n
    want[((unit or '').strip('"'), (*ip, 'instrument_parameter_unit', 'StringLiteral'))] = parameters * bool(unit)
    return given, types, fl, want


def identifier(n):
    """is this text an identifier, a number or made by the program?"""
    last = n.split('.')[-1]
    if 'metadata#' in n or 'registries' in n:
        return last == 'metadata'
    if 'uuid' in n or last in ('hider', 'hidden', 'index'):
        return True
    return last in ('name', 'group', 'relative_target') or 'target' in n and 'condition' not in n


def leaves(t, escaped, out):
    """the values a text is made from, and whether each of them is escaped"""
    if isinstance(t, (str, Const)):
        return
    if isinstance(t, Str):
        for x in t.parts:
            leaves(x, escaped, out)
    elif isinstance(t, Rep):
        for x in t.items:
            leaves(x, escaped, out)
    elif isinstance(t, (Opt, Phi)):
        for x in (*(t.a if isinstance(t, Opt) else (t.a,)), *(t.b if isinstance(t, Opt) else (t.b,))):
            leaves(x, escaped, out)
    elif isinstance(t, App) and t.fn.split('.')[-1] == 'escape':
        for x in t.args:
            leaves(x, True, out)
    elif isinstance(t, App) and t.fn in ('str', 'format', 'or', 'and', 'join', 'strip'):
        for x in t.args:
            leaves(x, escaped, out)
    else:
        out.append((t, escaped))
