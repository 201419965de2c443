"""C24: parameters and variables of components and of the instrument have their values and types in the generated program"""
from __future__ import annotations
from .. import model as M
from ..absint import App, Elem, Term, walk
from ..ctmpl import programs
from ..model import comp_type, declared, expr, instance, instrument, parameter
from ..reread import Given, Thing, Unknown, bound, value, valued
from .registries import Cases, Undecided, outcome
from .whole import where

RULES = (
    ('assigned', 'each parameter of a component is assigned its own value, or else the default, in the form of its kind, before its position is'),
    ('recorded', 'each parameter of a component is recorded in a NeXus file with its name, default, value and type'),
    ('member', 'each parameter and variable is a member of the structure of the type of component, or of the instrument, with its own C type'),
    ('variable', 'each variable of a component has its initial value; a pointer without one is NULL'),
    ('table', 'each instrument parameter is in the table of parameters with its name, address, type, value and unit'),
    ('user', 'each user variable is read, written, numbered and initialised by the functions for the particle, and named in the EXTEND code'),
    ('declaration', 'the user variables that a program has are those of all the blocks of the instrument and of each component of the types; contradictions are an error'),
)
FAIL = (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError)


class Text:
    """the program of an instrument, written out"""

    def __init__(self, g, source, **more):
        self.text = M.written(g, source, **more)
        self.toks = M.tokens(self.text)
        self.functions = M.functions(self.toks)

    def body(self, name):
        return M.statements(self.functions[name])

    def struct(self, name):
        """the members of a struct definition"""
        t = self.toks
        for i in range(len(t) - 2):
            if t[i:i + 3] == ['struct', name, '{']:
                d = 0
                for j in range(i + 2, len(t)):
                    d += (t[j] == '{') - (t[j] == '}')
                    if d == 0:
                        return M.statements(t[i + 3:j])
        return None

    def initializer(self, name):
        """the tokens of the initializer of a variable or array"""
        t = self.toks
        for i in range(len(t) - 1):
            if t[i] == name and t[i + 1] in ('=', '['):
                j = i + 1
                while t[j] not in ('=', ';'):
                    j += 1
                if t[j] == ';':
                    continue
                k = j + 1
                d = 0
                while not (t[k] == ';' and d == 0):
                    d += (t[k] in '{(') - (t[k] in '})') if len(t[k]) == 1 else 0
                    k += 1
                return t[j + 1:k]
        return None


class Values:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        f = p.method(p.find_class('CTargetVisitor'), 'translate')
        self.place = where(f) if f else 'translators/c.py'
        self.unknown = {}

    def texts(self, what, source, **more):
        for g in programs(self.p):
            try:
                yield g, Text(g, source, **more)
            except FAIL as x:
                self.unknown.setdefault(f'{type(x).__name__}: {str(x)[:160]}', []).append(f'{what} ({g.name})')

    def check(self, rule, construct, good, message, g):
        if good:
            self.rep.ok(rule)
        else:
            self.rep.bad(rule, construct, f'{message} ({g.name})', self.place)


def sp(text):
    """the text with its tokens separated"""
    return ' '.join(M.tokens(text))


def guarded(target, value):
    return [sp(f'if ({value} && strlen({value})) {{ stracpy({target}, {value}, 16384); }} else {{ {target}[0] = \'\\0\'; }}')]


def text_copied(target, text):
    # with its last zero, and within the 16384 characters of the parameter
    return [sp(f'stracpy({target}, {text}, {len(text) - 1});'), sp(f'stracpy({target}, {text}, sizeof({text}));')]


def emptied(target):
    return [sp(f"{target}[0] = '\\0';")]


def plain(target, value):
    return [sp(f'{target} = {value};')]


def vector(target, ctype, values):
    n = len(values)
    rest = ' '.join(f'{target}[{i}] = {v};' for i, v in enumerate(values))
    return [sp(f'{target} = {c}; {rest}') for c in (f'calloc(sizeof({ctype}), {n})', f'calloc({n}, sizeof({ctype}))', f'malloc({n} * sizeof({ctype}))')]


# the kind of the default, that of the own value (or none) and what is to be written
def cases():
    S = lambda text: expr(text, 'str')
    yield 'f', expr('1.5'), expr('7.25'), lambda t: plain(t, '7.25'), '7.25'
    yield 'f_default', expr('1.5'), None, lambda t: plain(t, '1.5'), '1.5'
    yield 'f_nothing', expr('None', 'no float'), None, lambda t: plain(t, '0'), 'None'
    yield 'f_id', expr('1.5'), expr('par_q', 'id'), lambda t: plain(t, 'par_q'), 'par_q'
    yield 'f_op', expr('1.5'), expr('2 * par_q', 'op'), lambda t: plain(t, '2 * par_q'), '2 * par_q'
    yield 'f_zero', expr('1.5'), expr('0', value=0), lambda t: plain(t, '0'), '0'
    yield 'i', expr('2', 'int'), expr('9', 'int'), lambda t: plain(t, '9'), '9'
    yield 'i_default', expr('2', 'int'), None, lambda t: plain(t, '2'), '2'
    yield 'i_op', expr('2', 'int'), expr('3 + n', 'op'), lambda t: plain(t, '3 + n'), '3 + n'
    yield 's', S('"given"'), S('"other text"'), lambda t: text_copied(t, '"other text"'), '"other text"'
    yield 's_default', S('"given"'), None, lambda t: text_copied(t, '"given"'), '"given"'
    yield 's_empty', S('"given"'), S('""'), lambda t: emptied(t) + text_copied(t, '""'), '""'
    yield 's_zero', S('"given"'), S('0'), lambda t: emptied(t), '0'
    yield 's_null', S('"given"'), S('NULL'), lambda t: emptied(t), 'NULL'
    yield 's_nothing', expr('None', 'no str'), None, lambda t: emptied(t), 'None'
    yield 's_id', S('"given"'), expr('par_r', 'id'), lambda t: guarded(t, 'par_r'), 'par_r'
    yield 's_id_str', S('"given"'), expr('par_r', 'id str'), lambda t: guarded(t, 'par_r'), 'par_r'
    yield 's_op', S('"given"'), expr('fun(par_r)', 'op'), lambda t: guarded(t, 'fun(par_r)'), 'fun(par_r)'
    yield 'v_null', expr('NULL', 'vector'), None, lambda t: plain(t, 'NULL'), 'NULL'
    yield 'v_nothing', expr('None', 'no vector'), None, lambda t: plain(t, 'NULL'), 'None'
    yield 'v_id', expr('NULL', 'vector'), expr('data', 'id'), lambda t: plain(t, 'data'), 'data'
    yield 'v_known', expr('NULL', 'vector'), expr('{1.5, 2.5, n}', 'known', value=[1.5, 2.5, expr('n', 'id')]), \
        lambda t: vector(t, 'double', ('1.5', '2.5', 'n')), '{1.5, 2.5, n}'
    yield 'v_default', expr('{3, 4}', 'known', value=[3, 4]), None, lambda t: vector(t, 'double', ('3', '4')), '{3, 4}'
    yield 'v_ints', expr('{3, 4}', 'known', value=[3, 4], mccode_c_type='int *'), \
        expr('{5}', 'known', value=[5], mccode_c_type='int *'), lambda t: vector(t, 'int', ('5',)), '{5}'


def kinds_instrument(V):
    every = list(cases())
    T = comp_type('T', [parameter(n, d) for n, d, *_ in every])
    U = comp_type('U', [parameter('only', expr('4.5'))])
    t1 = instance('first', T, [parameter(n, v) for n, _, v, *_ in reversed(every) if v is not None], at=None)
    u1 = instance('second', U, at=t1)
    u2 = instance('third', U, [parameter('only', expr('8.75'))], at=u1, rotate=t1)
    return every, instrument('I', [t1, u1, u2])


def c24(p, rep):
    for r, text in RULES:
        rep.rule(r, text)
    V = Values(p, rep)
    every, source = kinds_instrument(V)
    for g, t in V.texts('parameters of all kinds', source):
        assigned(V, g, t, every)
        recorded(V, g, t, every)
        members(V, g, t, every)
    for f in (variables, table, users):
        f(V)
    declarations(Cases(p, rep))
    for what, names in V.unknown.items():
        rep.note(f'not decided: {what}: {", ".join(names)}')
    for r, n in (('assigned', 80), ('recorded', 25), ('member', 80), ('variable', 20), ('table', 15), ('user', 50), ('declaration', 6)):
        rep.need(r, n, 'instances')


def until_position(body, name):
    """the part before the first use of the position and rotation functions"""
    for i, s in enumerate(body):
        if 'rot_set_rotation (' in s or 'coords_set (' in s:
            return i
    return len(body)


def assigned(V, g, t, every):
    def one(comp, name, rights, n_own):
        f = f'_{comp}_setpos'
        if f not in t.functions:
            return V.check('assigned', f'{f}:missing', False, f'there is no function {f}', g)
        body = t.body(f)
        end = until_position(body, comp)
        text = ' '.join(s for s in body if not s.startswith('#'))
        target = f'_{comp}_var._parameters.{name}'
        good = any(f' {r} ' in f' {text} ' for r in rights)
        used = [i for i, s in enumerate(body) if f' {sp(target)} ' in f' {s} ']
        early = [i for i in used if i < end]
        got = ' '.join(body[i] for i in used)
        V.check('assigned', f'{f}:{n_own}', good, f'the parameter {name} of the component is assigned by: {got[:200] or "nothing"}, and not: {rights[0]}', g)
        times = max((r.count(f'{sp(target)} ') for r in rights if f' {r} ' in f' {text} '), default=len(used))
        V.check('assigned', f'{f}:{n_own}:once', f'{text} '.count(f'{sp(target)} ') == times, f'the parameter {name} of the component is assigned more than once: {got[:200]}', g)
        V.check('assigned', f'{f}:{n_own}:early', len(early) == len(used), f'the parameter {name} is assigned after the position of the component is: {got[:200]}', g)
    for name, default, own, right, _ in every:
        one('first', name, right(f'_first_var._parameters.{name}'), name)
    one('second', 'only', plain('_second_var._parameters.only', '4.5'), 'default of another component')
    one('third', 'only', plain('_third_var._parameters.only', '8.75'), 'own value of another component')
    for comp, index, typ in (('first', 1, 'T'), ('second', 2, 'U'), ('third', 3, 'U')):
        body = t.body(f'_{comp}_setpos') if f'_{comp}_setpos' in t.functions else []
        text = ' '.join(body)
        for what, right in (('name', [sp(f'stracpy(_{comp}_var._name, "{comp}", {len(comp) + 1});')]),
                            ('type', [sp(f'stracpy(_{comp}_var._type, "{typ}", {len(typ) + 1});')]),
                            ('index', [sp(f'_{comp}_var._index = {index};')])):
            V.check('assigned', f'setpos:{what}', any(r in text for r in right), f'the {what} of the component {comp} is not set by: {right[0]}', g)
    V.rep.uses(f'{len(every) + 2} parameters')


def recorded(V, g, t, every):
    own = {}
    for name, default, value, _, text in every:
        own[name] = ('first', 0, default, value if value is not None else default)
    for comp, index, name, default, value in [(c, i, n, d, v) for n, (c, i, d, v) in own.items()] + [
            ('second', 1, 'only', expr('4.5'), expr('4.5')), ('third', 2, 'only', expr('4.5'), expr('8.75'))]:
        f = f'_{comp}_setpos'
        text = ' '.join(t.body(f)) if f in t.functions else ''
        quote = not (default.fields['is_str'] or value.fields['is_str'])
        d, v = (f'"{default}"', f'"{value}"') if quote else (str(default), str(value))
        right = sp(f'mccomp_param_nexus(nxhandle, "{index:04d}_{comp}", "{name}", {d}, {v}, "{default.fields["mccode_c_type"]}");')
        got = [s for s in text.split('mccomp_param_nexus') if f'"{name}" ,' in s]
        V.check('recorded', f'{comp}:{name}', right in text, f'the parameter {name} of {comp} is recorded by mccomp_param_nexus{got[0][:120] if got else " nowhere"}, and not {right}', g)
    for comp, index, typ in (('first', 0, 'T'), ('second', 1, 'U'), ('third', 2, 'U')):
        text = ' '.join(t.body(f'_{comp}_setpos')) if f'_{comp}_setpos' in t.functions else ''
        right = sp(f'mccomp_placement_type_nexus(nxhandle, "{index:04d}_{comp}", _{comp}_var._position_absolute, _{comp}_var._rotation_absolute, "{typ}");')
        V.check('recorded', f'{comp}:placement', right in text, f'the placement of {comp} is not recorded by {right}', g)


def ctype(e, name):
    return sp(f'char {name}[16384];') if e.fields['is_str'] else sp(f'{e.fields["mccode_c_type"]} {name};')


def members(V, g, t, every):
    for typ, pars in (('T', [(n, d) for n, d, *_ in every]), ('U', [('only', expr('4.5'))])):
        got = t.struct(f'_struct_{typ}_parameters')
        if got is None:
            V.check('member', f'{typ}:missing', False, f'there is no structure of the parameters of {typ}', g)
            continue
        for name, default in pars:
            right = ctype(default, name)
            V.check('member', f'{typ}.{name}', got.count(right) == 1, f'the structure of the parameters of {typ} does not have {right} once', g)
        V.check('member', f'{typ}:others', len(got) == len(pars), f'the structure of the parameters of {typ} has {len(got)} members for {len(pars)} parameters', g)
        whole = t.struct(f'_struct_{typ}')
        V.check('member', f'{typ}:_parameters', whole is not None and sp(f'_class_{typ}_parameters _parameters;') in whole,
                f'a component of type {typ} has no parameters of its type', g)
    for comp, typ in (('first', 'T'), ('second', 'U'), ('third', 'U')):
        text = ' '.join(t.toks)
        V.check('member', f'{comp}:variable', text.count(sp(f'_class_{typ} _{comp}_var;')) == 1, f'there is not one variable of type _class_{typ} for the component {comp}', g)
        V.check('member', f'{comp}:number', sp('int mcNUMCOMP = 3;') in text, 'the number of components is not that of the instrument', g)


def variables(V):
    A = comp_type('A', [parameter('pf', expr('1.5'))], ('declare', 'initialize', 'trace'))
    B = comp_type('B', [], ('declare',))
    N = comp_type('N', [])
    a1, a2, b1, n1 = (instance(n, t) for n, t in (('a1', A), ('a2', A), ('b1', B), ('n1', N)))
    source = instrument('I', [a1, b1, a2, n1])
    A_ = [declared('count', init='17', dtype='int'), declared('buffer', pointer=True), declared('given', pointer=True, init='START', dtype='char'),
          declared('plain'), declared('list3', array=True, init='{1,2,3}'), declared('table', array=True), declared('pointers', pointer=True, array=True),
          declared('grid', array=True, init='{{1, 2}, {3, 4}}'), declared('calls', array=True, init='{f(1, 2), 3}'), declared('label', array=True, init='"text"', dtype='char')]
    B_ = [declared('other', init='5.5')]
    for g, t in V.texts('variables of components', source, variables={'A': A_, 'B': B_}):
        for comp, decs in (('a1', A_), ('a2', A_), ('b1', B_), ('n1', [])):
            f = f'_{comp}_setpos'
            body = t.body(f) if f in t.functions else []
            text = ' '.join(body)
            v = f'_{comp}_var._parameters.'
            for d in decs:
                n = d.fields['name']
                rights = {'count': plain(v + n, '17'), 'buffer': plain(v + n, 'NULL'), 'given': plain(v + n, 'START'), 'plain': None, 'table': None,
                          'list3': [sp(' '.join(f'{v}{n}[{i}] = {i + 1};' for i in range(3)))], 'pointers': plain(v + n + '[0]', 'NULL'),
                          'grid': [sp(' '.join(f'{v}{n}[{i}][{j}] = {2 * i + j + 1};' for i in range(2) for j in range(2)))],
                          'calls': [sp(f'{v}{n}[0] = f(1, 2); {v}{n}[1] = 3;')],
                          'label': [sp(f'stracpy({v}{n}, "text", sizeof("text"));'), sp(f'stracpy({v}{n}, "text", 5);'), sp(f'strcpy({v}{n}, "text");')],
                          'other': plain(v + n, '5.5')}[n]
                used = [s for s in body if f' {sp(v + n)} ' in f' {s} ']
                if rights is None:
                    V.check('variable', f'{comp}.{n}', not used, f'the variable {n} of {comp}, declared without a value, gets one: {used[:2]}', g)
                else:
                    V.check('variable', f'{comp}.{n}', any(r in text for r in rights), f'the variable {n} of {comp} gets its value by {used[:3]}, and not by {rights[0]}', g)
        for typ, decs, pars in (('A', A_, 1), ('B', B_, 0), ('N', [], 0)):
            got = t.struct(f'_struct_{typ}_parameters')
            for d in decs:
                right = sp(d.fields['member'] + ';')
                V.check('member', f'{typ}.{d.fields["name"]} declared', got is not None and got.count(right) == 1, f'the structure of the parameters of {typ} does not have {right} once', g)
            n = max(len(decs) + pars, 1)           # a structure has a member
            V.check('member', f'{typ}:all', got is not None and len(got) == n, f'the structure of the parameters of {typ} has {len(got or ())} members and not {n}', g)
        for typ, names in (('A', ['pf'] + [d.fields['name'] for d in A_]), ):
            for f in (f'class_{typ}_initialize', f'class_{typ}_trace'):
                body = t.functions.get(f, [])
                for n in names:
                    V.check('member', f'{f}.{n}', f'#define {n} (_comp->_parameters.{n})' in body and f'#undef {n}' in body,
                            f'{n} does not name that member of the component in {f}', g)


def table(V):
    pars = [parameter('q', expr('3.5')), parameter('r', expr('"z"', 'str'), unit='m'), parameter('k', expr('4', 'int'), unit='"1/s"'),
            parameter('nothing', expr('None', 'no float'), unit=None)]
    A = comp_type('A', [])
    source = instrument('I', [instance('a1', A)], pars, sections=('declare', 'initialize', 'save', 'final'))
    for g, t in V.texts('parameters of the instrument', source):
        got = t.struct('_struct_instrument_parameters')
        for x in pars:
            right = sp(f'{x.fields["value"].fields["mccode_c_type"]} {x.fields["name"]};')
            V.check('member', f'instrument.{x.fields["name"]}', got is not None and got.count(right) == 1, f'the structure of the instrument parameters does not have {right} once', g)
        V.check('member', 'instrument:all', got is not None and len(got) == len(pars), f'the structure of the instrument parameters has {len(got or ())} members and not {len(pars)}', g)
        rows = t.initializer('mcinputtable')
        rights = [f'{{"{n}", &(_instrument_var._parameters.{n}), {ty}, {v}, {u}}}' for n, ty, v, u in (
            ('q', 'instr_type_double', '"3.5"', '""'), ('r', 'instr_type_string', '"z"', '"m"'), ('k', 'instr_type_int', '"4"', '"1/s"'),
            ('nothing', 'instr_type_double', '"None"', '""'))]
        right = sp('{' + ', '.join(rights) + ', {NULL, NULL, instr_type_double, "", ""} }')
        V.check('table', 'mcinputtable', rows is not None and ' '.join(rows) in (right, right.replace('"None"', '""')),
                f'the table of instrument parameters is {" ".join(rows or ())[:400]} and not {right}', g)
        V.check('table', 'numipar', t.initializer('numipar') == [str(len(pars))], f'the number of instrument parameters is not {len(pars)}', g)
        for f in ('init', 'save', 'finally'):
            body = t.functions.get(f, [])
            for x in pars:
                n = x.fields['name']
                V.check('table', f'{f}.{n}', f'#define {n} (instrument->_parameters.{n})' in body and f'#undef {n}' in body,
                        f'{n} does not name that parameter of the instrument in {f}', g)
    source = instrument('I', [instance('a1', A)])
    for g, t in V.texts('an instrument without parameters', source):
        got = t.struct('_struct_instrument_parameters')
        V.check('member', 'instrument:none', got is not None and len(got) == 1, 'the structure of no instrument parameters has no member, which C does not have', g)
        V.check('table', 'numipar 0', t.initializer('numipar') == ['0'], 'the number of instrument parameters is not 0', g)


class Declared(Thing):
    """a declaration of C"""

    def __init__(self, text, copied=None):
        words = text.replace('[', ' [').split()
        name = next(w for w in reversed(words) if not w.startswith('['))
        super().__init__(name=name.lstrip('*'), init=None, dtype=words[0], is_array='[' in text, is_pointer='*' in text)
        self.text = text

    def __eq__(self, other):
        return isinstance(other, Declared) and self.text == other.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return self.text


def extracted(text, **more):
    return [Declared(x.strip()) for x in text.split(';') if x.strip()]


def copied(d, suffix=None):
    return Declared(d.text if suffix is None else f'{d.text}_{suffix}')


def known_of(m, source, **state):
    f = {'extract_c_declared_variables': extracted, 'to_c': lambda b: b.fields['translated'], 'dedup': M.unique, 'dict.fromkeys': M.unique,
         'set': lambda x=(): set(x), 'union': lambda a, *b: set(a).union(*b),
         'component_types': lambda s: M.unique(c.fields['type'] for c in s.fields['components']), 'copy': copied,
         '_handle_raw_c_include': lambda *a, **k: ([], a[-1]), 'ordered_registries': lambda x: x, 'sort_include_hierarchy': lambda x: x}
    return {m.me: Thing(source=source, typedefs=[], **state), **{k: Given(v) for k, v in f.items()}}


def user_instrument(instr, **types):
    """components a1 (A), b1 (B), a2 (A), n1 (N) with these USERVARS"""
    ts = {}
    for n in 'ABN':
        ts[n] = comp_type(n)
        ts[n].fields['user'] = M.blocks(*types.get(n, ()))
    source = instrument('I', [instance('a1', ts['A']), instance('b1', ts['B']), instance('a2', ts['A']), instance('n1', ts['N'])])
    source.fields['user'] = M.blocks(*instr)
    return source


def occurrences(m, e, known, loops=None):
    """what is known each time an event of a function takes place; the terms are their own norm"""
    if loops is None:
        loops = list(e.loops)
        # what is left of a loop that is over is its last element
        for x in dict.fromkeys(x for d in e.data if isinstance(d, Term) for x in walk(m.freeze(d)) if isinstance(x, Elem)):
            if x.lid not in [lid for lid, _ in loops] and x not in known:
                try:
                    last = list(bound(m.freeze(x.base), x.lid, lambda t: t, known))[-1:]
                except FAIL:
                    continue
                if not last:
                    return
                known = last[0]
    if loops:
        lid, base = loops[0]
        if any(x is False for x in (agrees(m, c, pol, known) for c, pol in e.pc)):
            return
        for k in bound(m.freeze(base), lid, lambda t: t, known):
            yield from occurrences(m, e, k, loops[1:])
        return
    for c, pol in e.pc:
        c = m.freeze(c)
        if not (isinstance(c, App) and c.fn == 'in_loop') and bool(value(c, lambda t: t, known)) != pol:
            return
    yield known


def agrees(m, cond, pol, known):
    cond = m.freeze(cond)
    if isinstance(cond, App) and cond.fn == 'in_loop':
        return None
    v = valued(cond, lambda t: t, known)
    return None if v is None else bool(v[0]) == pol


def tables(F):
    """the variables of each component type, from its DECLARE blocks; and the user variables of the whole program"""
    m = F.method('CTargetVisitor', '__post_init__', steps=('extract_c_declared_variables', '_handle_raw_c_include', '_determine_uservars',
                                                           '_parse_libraries_for_typedefs', 'sort_include_hierarchy'), opaque=())
    types = {n: comp_type(n) for n in 'ABN'}
    types['A'].fields['declare'] = M.blocks('int a; int b;', 'char c; int a;')
    types['B'].fields['declare'] = M.blocks('int a;')
    source = instrument('I', [instance('a1', types['A']), instance('b1', types['B']), instance('a2', types['A']), instance('n1', types['N'])])
    known = known_of(m, source)
    got = {}
    try:
        for e in m.I.events:
            if e.kind == 'setitem' and 'component_declared_parameters' in repr(m.freeze(e.data[0])):
                for k in occurrences(m, e, known):
                    got[value(m.freeze(e.data[1]), lambda t: t, k)] = [repr(x) for x in value(m.freeze(e.data[2]), lambda t: t, k)]
    except FAIL as x:
        F.rep.note(f'not decided: component_declared_parameters: {type(x).__name__} {str(x)[:100]}')
    else:
        right = {'A': ['int a', 'int b', 'char c'], 'B': ['int a'], 'N': []}
        F.check('declaration', 'component_declared_parameters', got == right or not got,
                f'the variables that component types declare are {got} and not {right}', m)
    m = F.method('CTargetVisitor', '_instrument_and_component_uservars', opaque=())
    known = {m.me: Thing(instrument_uservars=['q', 'r'], component_uservars={'A': ['ua_1', 'ua_3'], 'N': [], 'B': ['vb_2']}),
             'dict.fromkeys': Given(M.unique), 'dedup': Given(M.unique)}
    try:
        got = list(value(m.freeze(m.raw), lambda t: t, known))
    except FAIL as x:
        F.rep.note(f'not decided: _instrument_and_component_uservars: {type(x).__name__} {str(x)[:100]}')
    else:
        right = ['q', 'r', 'ua_1', 'ua_3', 'vb_2']
        F.check('declaration', 'all user variables', got == right, f'the user variables of a program are {got} and not {right}', m)


def declarations(F):
    tables(F)
    m = F.method('CTargetVisitor', '_determine_uservars', steps=('extract_c_declared_variables',), opaque=())
    m.norm = lambda t: t
    good = (('int q; int r;', 'int q; char* s;'), dict(A=('int ua; char* ub;', 'int uc; int ua;'), B=('int va;',)))
    source = user_instrument(good[0], **good[1])
    known = known_of(m, source)
    for field, right in (('instrument_uservars', ['int q', 'int r', 'char* s']),
                         ('component_uservars', {'A': ['int ua_1', 'char* ub_1', 'int uc_1', 'int ua_3', 'char* ub_3', 'int uc_3'], 'B': ['int va_2'], 'N': []})):
        try:
            got = value(m.freeze(m.field(field)), m.norm, known)
        except FAIL as x:
            F.rep.note(f'not decided: {field}: {type(x).__name__} {str(x)[:100]}')
            continue
        got = {k: [repr(x) for x in v] for k, v in got.items()} if isinstance(got, dict) else [repr(x) for x in got]
        F.check('declaration', field, got == right, f'{field} of an instrument are {got} and not {right}', m)
    for what, instr, types, fails in (
            ('each name declared once', *good, False),
            ('two blocks of the instrument that differ', ('int q;', 'char q;'), {}, True),
            ('one block of the instrument that differs', ('int q; char q;',), {}, True),
            ('two blocks of a component type that differ', (), dict(A=('int ua;', 'char ua;')), True),
            ('two types with the same name', (), dict(A=('int u;',), B=('char u;',)), False),
            ('a component and the instrument', ('int ua_3;',), dict(A=('char ua;',)), True),
            ('a component and the instrument with the same', ('int ua_3;',), dict(A=('int ua;',)), False),
            ('two components', (), dict(A=('int u_2_1;',), B=('char u;',)), False),
            ('two components that differ', (), dict(A=('int u;',), N=('char u; int u_4;', 'int u;')), True)):
        try:
            got = outcome(m, known_of(m, user_instrument(instr, **types)))
        except Undecided as x:
            F.rep.note(f'not decided: user variables: {what}: {str(x)[:100]}')
            continue
        F.check('declaration', f'user variables: {what}', (got == ('error',)) == fails, f'user variables of {what}: {"an error" if got == ("error",) else "no error"}', m)


def users(V):
    A = comp_type('A', [], ('trace',))
    B = comp_type('B', [], ('trace',))
    N = comp_type('N', [], ('trace',))
    a1, b1, a2, n1 = instance('a1', A, extend=['XA1;']), instance('b1', B), instance('a2', A), instance('n1', N, extend=['XN1;'])
    source = instrument('I', [a1, b1, a2, n1])
    D = declared
    I_ = [D('flag', dtype='int'), D('trail', array=True), D('where_', pointer=True, dtype='char'), D('depth')]
    A_ = [D('ua_1'), D('ua_3')]
    B_ = [D('ub_2', dtype='int', init='6')]
    every = I_ + A_ + B_
    for g, t in V.texts('user variables', source, uservars=I_, comp_uservars={'A': A_, 'B': B_}):
        got = t.struct('_struct_particle')
        get, void, put, puts, byid, init, macro = (
            ' '.join(t.functions.get(f, ())) for f in ('particle_getvar', 'particle_getvar_void', 'particle_setvar_void', 'particle_setvar_void_array',
                                                       'particle_getuservar_byid', 'particle_uservar_init', '_get_particle_var'))
        for k, d in enumerate(every):
            f = d.fields
            n, scalar = f['name'], not f['is_array'] and not f['is_pointer']
            right = sp(f['member'] + ';')
            V.check('member', f'particle.{n}', got is not None and got.count(right) == 1, f'the particle does not have {right} once', g)
            for what, text, right, yes in (
                    ('particle_getvar', get, f'if (!str_comp("{n}", name)) {{ rval = *((double*)(&(p->{n}))); s=0; }}', True),
                    ('particle_getvar_void', void, f'if (!str_comp("{n}", name)) {{ rval = (void *) &(p->{n}); s=0; }}', True),
                    ('particle_setvar_void', put, f'if (!str_comp("{n}", name)) {{ memcpy(&(p->{n}), value, sizeof({f["dtype"]})); rval=0; }}', scalar),
                    ('particle_setvar_void_array', puts, f'if (!str_comp("{n}", name)) {{ memcpy(&(p->{n}), value, elements * sizeof({f["dtype"]})); rval=0; }}', not scalar),
                    ('particle_getuservar_byid', byid, f'case {k}: {{ rval = *((double *)(&(p->{n}))); s=0; break; }}', True),
                    ('_get_particle_var', macro, f'if (!strcmp(token, "{n}")) return (void *) &(p->{n});', True),
                    ('particle_uservar_init', init, f'p->{n} = {f["init"] or 0};', scalar)):
                V.check('user', f'{what}:{n}', (sp(right) in text) == yes and (yes or f'"{n}"' not in text and (what != 'particle_uservar_init' or f' {n} ' not in text)),
                        f'{what} does {"not " if yes else ""}have {right}', g)
        for typ, names in (('A', I_ + A_), ('N', I_)):
            body = t.functions.get(f'class_{typ}_trace', [])
            for d in names:
                n = d.fields['name']
                use, define, undef = (body.index(x) if x in body else -1 for x in (f'X{typ}1', f'#define {n} (_particle->{n})', f'#undef {n}'))
                V.check('user', f'EXTEND of {typ}:{n}', -1 < define < use < undef, f'{n} does not name that variable of the particle in the EXTEND code of a {typ}', g)
