"""Parts of C02, C03, C04, C05, C10 and C11: the program written out for one instrument that has its modifiers, sections and references in
every mixture, and compared with what that instrument says.

Nothing of the package is run: the template of the program is the term that the abstract interpreter made of `translate` (ctmpl), and
writing it out is replacing the fields that it asks for by those of a made up instrument (model).
"""
from __future__ import annotations
from .. import model as M
from ..ctmpl import programs
from ..model import block, comp_type, declared, expr, instance, instrument, jump, parameter
from ..reread import Thing
from .registries import Cases
from .values import FAIL, Text, Values, known_of, occurrences, sp
from ..reread import value

SECTIONS = ('initialize', 'save', 'final', 'display')
FUNCTION = {'initialize': 'initialize', 'save': 'save', 'final': 'finally', 'display': 'display', 'trace': 'trace'}
DRIVER = {'initialize': 'init', 'save': 'save', 'final': 'finally', 'display': 'display'}


def under(text, **more):
    """a value that refers to a parameter, so that it is only right with the prefix of parameters"""
    return expr(text, 'op', plain=f'unprefixed_{text}', **more)


def triple(name):
    return M.Triple([under(f'{name}_{c} + {k}') for k, c in enumerate('xyz')])


def types():
    A = comp_type('A', [parameter('pf', expr('1.5')), parameter('pi', expr('2', 'int'))], M.SECTIONS, two=('trace', 'initialize', 'display', 'share'))
    B = comp_type('B', [parameter('pf', expr('2.5'))], ('trace', 'display', 'final'))
    C = comp_type('C', [])
    D = comp_type('D', [parameter('pd', expr('3.5'))], ('trace', 'share'), two=('trace',))
    E = comp_type('E', [parameter('pe', expr('3.5')), parameter('pn', expr('None', 'no float'))], ('initialize', 'save', 'final', 'share'))
    x, y = D.fields['trace']
    D.fields['trace'] = (x, y, x)           # a block may be there twice
    E.fields['metadata'] = (data('E_m1'), )
    return A, B, C, D, E


def data(name):
    return Thing(name=name, mimetype='text', value='v_' + name, source=Thing(name='s_' + name, _name='s_' + name))


GROUPS = {'g': (6, 7, 8), 'h': (13, 14), 'one': (20,), 'k': (28, 29, 30, 31), 'm': (35, 37)}


def large(n=40):
    ts = types()
    comps = []
    for i in range(n):
        t = ts[(i * 7 + i // 5) % 5]
        rel = [None, i - 1, 0, i // 2][(i * 3 + 1) % 4] if i else None
        rot = [None, i // 3, i - 1][(i + i // 4) % 3] if i else None
        group = next((g for g, ids in GROUPS.items() if i in ids), None)
        jumps = []
        kind = (i // 4 + i) % 5
        if kind in (1, 3):
            jumps.append((max(0, i - 3 - i % 4) if i % 3 else min(n - 1, i + 2), f'J{i}', False))
        if kind in (2, 3):
            jumps.append((i // 2 if i % 2 else i, f'K{i}', True))
        comps.append(instance(f'c{i}', t, [parameter('pf', expr(f'{i}.25'))] if t.fields['name'] in 'AB' and i % 2 else [],
                              extend=[f'X{i}_{k};' for k in range(1 + i % 2)] if i % 3 == 1 else (), when=under(f'WHEN{i}') if i % 2 or i % 5 == 0 else None,
                              split=under(f'SPLIT{i}') if i % 6 == 4 else None, group=group, removable=i % 7 == 3, cpu=i % 9 in (4, 5),
                              metadata=[data(f'm{i}')] if i % 10 == 3 else ()))
        f = comps[-1].fields
        f['at_relative'] = (triple(f'at{i}'), None if rel is None else comps[rel])
        f['rotate_relative'] = (triple(f'rot{i}'), None if rot is None else comps[rot])
        f['todo'] = jumps
    for c in comps:
        c.fields['jump'] = tuple(Thing(target=comps[k].fields['name'], absolute_target=k, relative_target=0, iterate=it, condition=under(cond))
                                 for k, cond, it in c.fields.pop('todo'))
    return finished(comps)


def finished(comps):
    source = instrument('I', comps, [parameter('q', expr('3.5')), parameter('r', expr('"z"', 'str'), unit='m'), parameter('none', expr('None', 'no float'))],
                        ('declare', 'initialize', 'save', 'final'), metadata=[data('mi')],
                        groups=[g for g in GROUPS if any(c.fields['group'] == g for c in comps)])
    goals = {j.fields['absolute_target'] for c in comps for j in c.fields['jump']}
    skip = [not (c.fields['extend'] or c.fields['type'].fields['trace'] or c.fields['jump'] or i in goals) for i, c in enumerate(comps)]
    return source, dict(skip=skip, uservars=[declared('uq', dtype='int'), declared('ur', array=True), declared('us', dtype='char', pointer=True)],
                        comp_uservars={'A': [declared(f'ua_{i}') for i, c in enumerate(comps) if c.fields['type'].fields['name'] == 'A'],
                                       'C': [declared('vc_2')]},
                        variables={'A': [declared('da', array=True), declared('db', init='2.5')], 'E': [declared('pi_')]})


def small(*kinds):
    """a few components without modifiers"""
    ts = dict(zip('ABCDE', types()))
    comps = []
    for i, k in enumerate(kinds):
        comps.append(instance(f'c{i}', ts[k]))
        comps[-1].fields['at_relative'] = (triple(f'at{i}'), comps[i - 1] if i else None)
        comps[-1].fields['rotate_relative'] = (triple(f'rot{i}'), None)
    return finished(comps)


class Programs(Values):
    """[(program, text, instrument, what else is given)]"""

    def __init__(self, p, rep):
        super().__init__(p, rep)
        self.all = []
        for what, (source, more) in (('40 components', large()), ('one component', small('A')), ('components without code', small('C', 'C')),
                                     ('two components', small('E', 'B'))):
            for g, t in self.texts(what, source, **more):
                self.all.append((g, t, source, more))
        for what, names in self.unknown.items():
            rep.note(f'not decided: {what}: {", ".join(names)}')

    def done(self, *rules):
        """the least number of instances, if the programs could be written out"""
        if not self.unknown:
            for r, n in rules:
                self.rep.need(r, n, 'instances')


def comps(source):
    return list(enumerate(source.fields['components']))


def types_of(source):
    return M.unique(c.fields['type'] for c in source.fields['components'])


def sources(blocks):
    return [b.fields['source'] for b in blocks]


def user_code(source):
    """every block of code, and where it is to be: function and what is before it"""
    for s, f in (('initialize', 'init'), ('save', 'save'), ('final', 'finally')):
        yield f, sources(source.fields[s])
    for t in types_of(source):
        n = t.fields['name']
        for s in SECTIONS:
            if t.fields[s]:
                yield f'class_{n}_{FUNCTION[s]}', sources(t.fields[s])
        ext = [c for i, c in comps(source) if c.fields['type'] is t and c.fields['extend']]
        if t.fields['trace'] or ext:
            yield f'class_{n}_trace', sources(t.fields['trace']) + [x for c in ext for x in sources(c.fields['extend'])]


def stems(source):
    """the names that stand for code"""
    out = set()
    for s in ('declare', 'initialize', 'save', 'final'):
        out |= set(sources(source.fields[s]))
    for t in types_of(source):
        for s in M.SECTIONS:
            out |= set(sources(t.fields[s]))
    for _, c in comps(source):
        out |= set(sources(c.fields['extend']))
    return {x.rstrip(';') for x in out}


def has_trace(c):
    return bool(c.fields['type'].fields['trace'] or c.fields['extend'])


# ------------------------------------------------------------------------------------------------ C04
def code(p, rep):
    rep.rule('written', 'in the program of an instrument each function has the blocks of code of its section, in order, and no others')
    V = Programs(p, rep)
    for g, t, source, more in V.all:
        names = stems(source)
        right = dict(user_code(source))
        for f, toks in t.functions.items():
            got = [x for x in toks if x in names]
            want = [x.rstrip(';') for x in right.get(f, ())]
            if got or want:
                V.check('written', f, got == want, f'the code in {f} is {shown(got)} and not {shown(want)}', g)
        for f in right:
            V.check('written', f'{f}:missing', f in t.functions, f'there is no function {f} for {shown(right[f])}', g)
        inside = [x for toks in t.functions.values() for x in toks if x in names]
        whole = [x for x in t.toks if x in names]
        outside = list(whole)
        for x in inside:
            if x in outside:
                outside.remove(x)
        share = [x.rstrip(';') for ty in types_of(source) for x in sources(ty.fields['share'])]
        decl = [x.rstrip(';') for x in sources(source.fields['declare'])]
        V.check('written', 'DECLARE', [x for x in outside if x in decl] == decl, f'the DECLARE code is {shown([x for x in outside if x in decl])} and not {shown(decl)}', g)
        V.check('written', 'SHARE', sorted(x for x in outside if x in share) == sorted(share) and in_order([x for x in outside if x in share], source),
                f'the SHARE code is {shown([x for x in outside if x in share])} and not {shown(share)}', g)
        rest = [x for x in outside if x not in share and x not in decl]
        V.check('written', 'outside', not rest, f'outside of all functions there is the code {shown(rest)}', g)
        for i, c in comps(source):
            if c.fields['extend']:
                right = sp(f'if (_comp->_index == {i + 1}) {{ {" ".join(sources(c.fields["extend"]))} }}')
                body = ' '.join(t.functions.get(f'class_{c.fields["type"].fields["name"]}_trace', ()))
                V.check('written', 'EXTEND', right in body, f'the EXTEND code of component {i + 1} is not {right}', g)
    V.done(('written', 60))


def in_order(got, source):
    """the share blocks of one type are in their order"""
    for t in types_of(source):
        mine = [x.rstrip(';') for x in sources(t.fields['share'])]
        if [x for x in got if x in mine] != mine:
            return False
    return True


def shown(names):
    return (' '.join(names) or 'nothing')[:160]


# ------------------------------------------------------------------------------------------------ C05
def calls(p, rep):
    rep.rule('calls', 'in the program of an instrument the driver of a section calls the functions of exactly its components, in order, and each is defined')
    V = Programs(p, rep)
    for g, t, source, more in V.all:
        for s, d in list(DRIVER.items()) + [('trace', 'raytrace'), ('trace', 'raytrace_all_funnel')]:
            body = t.functions.get(d, [])
            got = [(body[k], body[k + 3]) if body[k + 1:k + 3] == ['(', '&'] else (body[k], '?')
                   for k in range(len(body) - 3) if body[k].startswith('class_')]
            want = [(f'class_{c.fields["type"].fields["name"]}_{FUNCTION[s]}', f'_{c.fields["name"]}_var') for _, c in comps(source)
                    if (has_trace(c) if s == 'trace' else c.fields['type'].fields[s])]
            V.check('calls', d, got == want, f'{d} calls {differ(got, want)}', g)
            for f in sorted({f for f, _ in got}):
                V.check('calls', f'{d}:{f[-8:]}', f in t.functions, f'{d} calls {f}, which is not defined', g)
        init = t.functions.get('init', [])
        sets = [x for x in init if x.startswith('_') and x.endswith('_setpos')]
        V.check('calls', 'setpos', sets == [f'_{c.fields["name"]}_setpos' for _, c in comps(source)], f'init places {shown(sets)}', g)
        where = [k for k, x in enumerate(init) if x in sets]
        firsts = [k for k, x in enumerate(init) if x.startswith('class_')]
        mine = [k for k, x in enumerate(init) if x in {y.rstrip(';') for y in sources(source.fields['initialize'])}]
        V.check('calls', 'order', not where or ((not mine or max(mine) < min(where)) and (not firsts or max(where) < min(firsts))),
                'init does not place all components after the code of the instrument and before that of any component', g)
    V.done(('calls', 40))


def differ(got, want):
    for k, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f'{" for ".join(a)} as number {k + 1}, and not {" for ".join(b)}'
    return f'{len(got)} functions and not {len(want)}'


# ------------------------------------------------------------------------------------------------ C02
def macros(p, rep):
    rep.rule('in force', 'in the program of an instrument each block of code has the macros for its names, and none for those of other code')
    V = Programs(p, rep)
    for g, t, source, more in V.all:
        uservars = [d.fields['name'] for d in more['uservars']]
        for ty in types_of(source):
            uservars += [d.fields['name'] for d in more['comp_uservars'].get(ty.fields['name'], ()) if d.fields['name'] not in uservars]
        pars = {}
        for ty in types_of(source):
            n = ty.fields['name']
            pars[n] = [x.fields['name'] for x in ty.fields['setting']] + [d.fields['name'] for d in more['variables'].get(n, ())]
        every = {x for names in pars.values() for x in names}
        instr = [x.fields['name'] for x in source.fields['parameters']]
        own = {}            # what each block needs, what it must not have
        for x in [y for s in ('initialize', 'save', 'final') for y in sources(source.fields[s])]:
            own[x.rstrip(';')] = ({n: f'(instrument->_parameters.{n})' for n in instr}, every | set(uservars), x)
        for ty in types_of(source):
            n = ty.fields['name']
            mine = {x: f'(_comp->_parameters.{x})' for x in pars[n]}
            for s in SECTIONS + ('trace',):
                for x in sources(ty.fields[s]):
                    need = dict(mine)
                    if s == 'display':
                        need.update({m: f'mcdis_{m}' for m in ('magnify', 'line', 'dashed_line', 'multiline', 'rectangle', 'box', 'circle', 'cylinder',
                                                               'sphere', 'cone', 'polygon', 'polyhedron')})
                    if s == 'trace':
                        need.update(particle(g))
                    own[x.rstrip(';')] = (need, (every | set(instr)) - set(mine) | (set(uservars) if s != 'trace' else set()), x)
        for i, c in comps(source):
            n = c.fields['type'].fields['name']
            for x in sources(c.fields['extend']):
                need = {y: f'(_comp->_parameters.{y})' for y in pars[n]}
                shown_ = M.unique([d.fields['name'] for d in more['uservars']] + [d.fields['name'] for d in more['comp_uservars'].get(n, ())])
                need.update({u: f'(_particle->{u})' for u in shown_})
                need.update(particle(g))
                own[x.rstrip(';')] = (need, (every | set(instr)) - set(need), x)
        for x in [y for y in sources(source.fields['declare'])] + [y for ty in types_of(source) for y in sources(ty.fields['share'])]:
            own[x.rstrip(';')] = ({}, every | set(uservars), x)
        state = {}
        for k, x in enumerate(t.toks):
            if x.startswith('#define '):
                name, _, text = x[8:].partition(' ')
                state[name] = text
            elif x.startswith('#undef '):
                state.pop(x[7:].strip(), None)
            elif x in own:
                need, not_, _ = own[x]
                bad = [f'{n} is {state.get(n, "not defined")}' for n, v in need.items() if ''.join(state.get(n, '').split()) != ''.join(v.split())]
                leak = [n for n in not_ if n in state]
                what = x if not x.startswith('X') else 'EXTEND'
                V.check('in force', f'{what}', not bad, f'where the code {x} is, {bad[:3]}', g)
                V.check('in force', f'{what}:leak', not leak, f'where the code {x} is, the names {leak[:3]} of other code are still defined', g)
        left = [n for n in state if n in every | set(uservars) | set(instr)]
        V.check('in force', 'end', not left, f'at the end of the program, {left[:3]} are still defined', g)
    V.done(('in force', 60))


def particle(g):
    names = ['x', 'y', 'z', 't', 'p', 'vx', 'vy', 'vz', 'sx', 'sy', 'sz'] if 'mcstas' in g.name else ['x', 'y', 'z', 'kx', 'ky', 'kz', 'phi', 't', 'Ex', 'Ey', 'Ez', 'p']
    return {n: f'(_particle->{n})' for n in names}


# ------------------------------------------------------------------------------------------------ C03
def numbers(p, rep):
    rep.rule('numbered', 'in the program of an instrument each number of a component, of things counted, of a target and of a place in an array is that of the instrument')
    V = Programs(p, rep)
    for g, t, source, more in V.all:
        n = len(source.fields['components'])
        text = ' '.join(t.toks)
        meta = [m for m in source.fields['metadata']] + [m for _, c in comps(source) for m in (c.fields['metadata'] or c.fields['type'].fields['metadata'])]
        rows = t.initializer('metadata_table')
        count = t.initializer('num_metadata')
        V.check('numbered', 'mcNUMCOMP', t.initializer('mcNUMCOMP') == [str(n)], f'mcNUMCOMP is {t.initializer("mcNUMCOMP")} for {n} components', g)
        if count is not None and rows is not None:
            lines = len(split_rows(rows))
            V.check('numbered', 'num_metadata', len(count) == 1 and count[0].isdigit() and lines - 1 <= int(count[0]) <= lines and int(count[0]) == rows_with_names(rows),
                    f'num_metadata is {" ".join(count)} for {rows_with_names(rows)} rows of metadata', g)
        V.check('numbered', 'numipar', t.initializer('numipar') == [str(len(source.fields['parameters']))],
                f'numipar is {t.initializer("numipar")} for {len(source.fields["parameters"])} parameters', g)
        for f in ('_position_absolute', '_position_relative', 'counter_N', 'counter_P', 'counter_P2', 'counter_AbsorbProp'):
            size = array_size(t.struct('_struct_instrument') or t.toks, f)
            if size is not None:
                V.check('numbered', f'size of {f}', size == n + 1 or size == n + 2, f'the array {f} has {size} elements for {n} components', g)
        lookup = ' '.join(t.functions.get('_getcomp_index', ()))
        for i, c in comps(source):
            name = c.fields['name']
            right = sp(f'if (!strcmp(compname, "{name}")) return {i + 1};')
            V.check('numbered', '_getcomp_index', right in lookup, f'_getcomp_index does not have {right}', g)
            body = ' '.join(t.functions.get(f'_{name}_setpos', ()))
            for right in (f'_{name}_var._index = {i + 1};', f'instrument->_position_absolute[{i + 1}] = _{name}_var._position_absolute;',
                          f'instrument->_position_relative[{i + 1}] = _{name}_var._position_relative;', f'instrument->counter_AbsorbProp[{i + 1}] = 0;'):
                V.check('numbered', right.split('[')[0].split('.')[-1].split(' =')[0], sp(right) in body, f'_{name}_setpos does not have {right}', g)
        for d in ('raytrace', 'raytrace_all_funnel'):
            body = t.functions.get(d, [])
            order = [int(body[k + 4]) for k in range(len(body) - 4) if body[k:k + 4] == ['_particle', '->', '_index', '='] and body[k + 4] == '='] or \
                    [int(body[k + 4]) for k in range(len(body) - 4) if body[k:k + 3] == ['_particle', '->', '_index'] and body[k + 3] == '==' and body[k + 4].isdigit()]
            V.check('numbered', f'{d}:steps', order == list(range(1, n + 1)), f'{d} has the steps {order[:50]} for {n} components', g)
        ends = [body[k + 4] for body in [t.functions.get('raytrace', [])] for k in range(len(body) - 4) if body[k:k + 4] == ['_particle', '->', '_index', '>']]
        V.check('numbered', 'end', ends == [str(n)], f'an event is over after component {ends}, and not {n}', g)
    targets(Cases(p, rep))
    V.done(('numbered', 60))


def targets(F):
    """the targets of JUMPs, for names and distances"""
    F.rep.rule('resolved', 'the target of each JUMP is the position of the component with its name, or as far from its own component as it says')
    m = F.method('TargetVisitor', 'set_jump_absolute_targets', opaque=())
    for removable in ((), (1, 4)):
        resolved(F, m, removable)


def resolved(F, m, removable):
    T = comp_type('T', [])
    names = ['ab', 'abc', 'a', 'bc', 'b', 'c', 'a_b', 'myself_']
    cs = [instance(n, T, removable=i in removable, group='g' if i in (2, 3) else None, when=expr('W') if i == 2 else None) for i, n in enumerate(names)]
    right = {}
    for i, c in enumerate(cs):
        js = [Thing(target=names[t], relative_target=0, absolute_target=old, iterate=k == 1, condition=expr('1'))
              for k, (t, old) in enumerate((((i + 3) % 8, -1), (i, 5), ((i * 5 + 2) % 8, 0))) if t not in removable]
        right.update({id(j): names.index(j.fields['target']) for j in js})
        for word, by in (('MYSELF', 0), ('NEXT', 1), ('PREVIOUS', -1), ('NEXT', 2), ('PREVIOUS', -3), ('myself', 0)):
            if 0 <= i + by < len(cs):
                js.append(Thing(target=word, relative_target=by, absolute_target=-1, iterate=False, condition=expr('1')))
                right[id(js[-1])] = i + by
        c.fields['jump'] = tuple(js)
    known = known_of(m, instrument('I', cs))
    got = {}
    try:
        for e in m.I.events:
            if e.kind == 'setattr' and 'absolute_target' in [x for x in e.data if isinstance(x, str)]:
                for k in occurrences(m, e, known):
                    j = value(m.freeze(e.data[0]), lambda t: t, k)
                    got[id(j)] = value(m.freeze(e.data[2]), lambda t: t, k)
    except FAIL as x:
        F.rep.note(f'not decided: targets of JUMPs: {type(x).__name__} {str(x)[:200]}')
        return
    for c in cs:
        for j in c.fields['jump']:
            w, g = right[id(j)], got.get(id(j))
            F.check('resolved', f'{j.fields["target"] if j.fields["target"] not in names else "name"}', g == w,
                    f'a JUMP of component {c.fields["name"]} to {j.fields["target"]} ({j.fields["relative_target"]}) goes to position {g} and not {w}', m)


def split_rows(toks):
    """the { } groups inside the outer ones"""
    out, d = [], 0
    for x in toks:
        if x == '{':
            d += 1
            if d == 2:
                out.append([])
        elif x == '}':
            d -= 1
        elif d >= 2 and out:
            out[-1].append(x)
    return out


def rows_with_names(toks):
    return sum(1 for r in split_rows(toks) if r and r[0] not in ('NULL', '""'))


def array_size(statements_or_toks, name):
    toks = ' '.join(statements_or_toks).split()
    for k in range(len(toks) - 3):
        if toks[k] == name and toks[k + 1] == '[' and toks[k + 2].isdigit() and toks[k + 3] == ']':
            return int(toks[k + 2])
    return None


# ------------------------------------------------------------------------------------------------ C10
def plain(stmts):
    """without what only reports"""
    out = []
    for s in stmts:
        if s.startswith('DEBUG_') or s.startswith('#pragma') or s.startswith('if ( ! ABSORBED ) { DEBUG_STATE'):
            continue
        out.append(s)
    return out


def parenthesised(text):
    while '( ( ' in text:
        k = text.index('( ( ')
        d, j = 0, k
        toks = text[k:].split(' ')
        # the pair of the second one
        for q, x in enumerate(toks):
            d += (x == '(') - (x == ')')
            if q and d == 1:
                break
        if q + 1 < len(toks) and toks[q + 1] == ')':
            del toks[q], toks[1]
            text = text[:k] + ' '.join(toks)
        else:
            text = text[:k] + '(\0( ' + text[k + 4:]
    return text.replace('\0', ' ')


def segment(body, index):
    """the tokens of the block for the event at this component, and where it begins"""
    head = ['_particle', '->', '_index', '==', str(index), ')', '{']
    for k in range(len(body) - len(head)):
        if body[k:k + len(head)] == head:
            d = 0
            for j in range(k + len(head) - 1, len(body)):
                d += (body[j] == '{') - (body[j] == '}')
                if d == 0:
                    return body[k + len(head):j], k, j
    return None, 0, 0


def steps(text):
    """the tokens without what only reports"""
    text = parenthesised(' '.join(x for x in (text.split() if isinstance(text, str) else text)))
    return text


REPORT = ('DEBUG_STATE ( ) ;', 'if ( ! ABSORBED ) { }', 'if ( ! ABSORBED ) { DEBUG_STATE ( ) ; }')


def quiet(toks, name):
    text = ' '.join(x for x in toks if not x.startswith('#pragma'))
    for x in (REPORT[2], REPORT[0], sp(f'DEBUG_COMP(_{name}_var._name);')):
        text = text.replace(x + ' ', '').replace(' ' + x, '')
    return parenthesised(' '.join(text.split()))


def expected(i, c, source, skip, n):
    """what happens to an event at a component"""
    f = c.fields
    name, out = f['name'], ['_particle->flag_nocoordschange = 0;']
    group = source.fields['groups'].get(f['group'])
    ids = group.fields['ids'] if group else []
    if not group or ids[0] == i:
        if not skip[i]:
            out.append('_particle_save = *_particle;')
    else:
        out.append(f'mccoordschange(_{name}_var._position_relative, _{name}_var._rotation_relative, &_particle_save);')
    if has_trace(c):
        if f['when'] is not None:
            out.append(f'if ({f["when"]:p})')
        out.append(f'class_{f["type"].fields["name"]}_trace(&_{name}_var, _particle); if (_particle->_restore) particle_restore(_particle, &_particle_save);')
    for j in f['jump']:
        t, cond = j.fields['absolute_target'], j.fields['condition']
        counter = f'_particle->_logic.Jump_{name}_{j.fields["target"]}'
        go = f'_particle->_index = {t}; _particle->flag_nocoordschange = 1;'
        out.append(f'if (++{counter} < {cond:p}) {{ {go} }} else {{ {counter} = 0; }}' if j.fields['iterate'] else f'if ({cond:p}) {{ {go} }}')
    if group:
        out.append(f'if (SCATTERED) _particle->_index = {ids[-1] + 1}; else ' +
                   ('ABSORBED = 1;' if ids[-1] == i else 'particle_restore(_particle, &_particle_save);'))
    out.append('_particle->_index++;')
    return parenthesised(sp(' '.join(out)))


def control(p, rep):
    rep.rule('steps', 'in the program of an instrument what happens to an event at each component is what its modifiers say, in order')
    rep.rule('repeated', 'in the program of an instrument each SPLIT repeats everything after it, with the number it gives, and is closed at the end')
    V = Programs(p, rep)
    for g, t, source, more in V.all:
        body = t.functions.get('raytrace', [])
        funnel = t.functions.get('raytrace_all_funnel', [])
        n = len(source.fields['components'])
        end = 0
        depth = 0
        for i, c in comps(source):
            name = c.fields['name']
            seg, k, j = segment(body, i + 1)
            if seg is None:
                V.check('steps', f'component {i + 1}', False, f'there is no step for component {i + 1}', g)
                continue
            got, right = quiet(seg, name), expected(i, c, source, more['skip'], n)
            V.check('steps', kind(c, source), got == right, f'at component {i + 1} the step is {apart(got, right)}', g)
            before = body[end:k]
            has = f'SplitN_{name}' in before
            V.check('repeated', 'begin', has == (c.fields['split'] is not None) and not [x for x in before if x.startswith('SplitN_') and x != f'SplitN_{name}'],
                    f'before component {i + 1} there is {"a" if has else "no"} SPLIT', g)
            if c.fields['split'] is not None:
                text = ' '.join(before)
                for right in (f'int SplitS_{name} = {c.fields["split"]:p};', f'_class_particle Split_{name}_particle = *_particle;', f'*_particle = Split_{name}_particle;',
                              f'for (int SplitN_{name} = 0; SplitN_{name} < SplitS_{name}; SplitN_{name}++) {{',
                              f'p /= SplitS_{name} > 0 ? SplitS_{name} : 1;'):
                    V.check('repeated', 'form', sp(right) in text, f'the SPLIT of component {i + 1} does not have {right}', g)
            end = j + 1
            fseg, _, _ = segment(funnel, i + 1)
            if fseg is not None:
                text = parenthesised(' '.join(fseg))
                if has_trace(c):
                    call = sp(f'class_{c.fields["type"].fields["name"]}_trace(&_{name}_var, _particle);')
                    when = parenthesised(sp(f'if ({c.fields["when"]:p})')) + ' ' if c.fields['when'] is not None else ''
                    V.check('steps', 'funnel WHEN', (when + call) in text and (when != '' or f') {call}' not in text),
                            f'in the FUNNEL layout, component {i + 1} is not traced by {when}{call}', g)
                group = source.fields['groups'].get(c.fields['group'])
                right = sp(f'if (SCATTERED) _particle->_index = {group.fields["ids"][-1] + 1}; else ABSORBED = {int(group.fields["ids"][-1] == i)};') if group else ''
                V.check('steps', 'funnel GROUP', (right in text) if group else 'SCATTERED' not in text, f'in the FUNNEL layout, component {i + 1} of {c.fields["group"]} does not have {right}', g)
                V.check('steps', 'funnel next', text.rstrip().endswith(sp('_particle->_index++;')), f'in the FUNNEL layout, component {i + 1} does not end with the next one', g)
        tail = ' '.join(body[end:])
        n_split = sum(c.fields['split'] is not None for _, c in comps(source))
        closed = tail.split('if ( _particle -> _index >')[0].split().count('}')
        V.check('repeated', 'end', closed == 2 * n_split, f'{closed} brackets are closed after the last component for {n_split} SPLITs', g)
        first = ' '.join(body[:body.index('while')]) if 'while' in body else ''
        for i, c in comps(source):
            for j in c.fields['jump']:
                counter = sp(f'_particle->_logic.Jump_{c.fields["name"]}_{j.fields["target"]} = 0;')
                counts = any(x.fields['iterate'] for x in c.fields['jump'] if x.fields['target'] == j.fields['target'])
                V.check('steps', 'counter', (counter in first) == counts, f'the counter of the JUMP of component {i + 1} is {"not " if counts else ""}0 at the start', g)
        V.check('steps', 'start', sp('_particle->flag_nocoordschange = 0;') in first, 'the first component may be without its change of coordinates', g)
    V.done(('steps', 60), ('repeated', 20))


def kind(c, source):
    f = c.fields
    g = source.fields['groups'].get(f['group'])
    out = [w for w, x in (('WHEN', f['when'] is not None), ('SPLIT', f['split'] is not None), ('EXTEND', f['extend']), ('JUMP', f['jump']), ('GROUP', g)) if x]
    return ' '.join(out) or 'plain'


def apart(got, right):
    a, b = got.split(), right.split()
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'... {" ".join(a[max(0, k - 6):k + 12])} ... and not ... {" ".join(b[max(0, k - 6):k + 12])} ...'


# ------------------------------------------------------------------------------------------------ C11
def places(p, rep):
    rep.rule('placed', 'in the program of an instrument each component is placed with its own coordinates and angles, from those it names and the one before')
    V = Programs(p, rep)
    for g, t, source, more in V.all:
        last = 0
        cs = source.fields['components']
        for i, c in comps(source):
            name = c.fields['name']
            v, ref = f'_{name}_var', f'_{cs[last].fields["name"]}_var'
            text = ' '.join(t.functions.get(f'_{name}_setpos', ()))
            angles, rot = c.fields['rotate_relative']
            xyz, at = c.fields['at_relative']
            deg = ', '.join(f'({a:p})*DEG2RAD' for a in angles)
            right = []
            if rot is None:
                right.append(f'rot_set_rotation({v}._rotation_absolute, {deg});')
            else:
                right.append(f'rot_set_rotation(tr1, {deg}); rot_mul(tr1, _{rot.fields["name"]}_var._rotation_absolute, {v}._rotation_absolute);')
            if i == 0:
                right.append(f'rot_copy({v}._rotation_relative, {v}._rotation_absolute);')
            else:
                right.append(f'rot_transpose({ref}._rotation_absolute, tr1); rot_mul({v}._rotation_absolute, tr1, {v}._rotation_relative);')
            right.append(f'{v}._rotation_is_identity = rot_test_identity({v}._rotation_relative);')
            where = ', '.join(f'{x:p}' for x in xyz)
            if at is None:
                right.append(f'{v}._position_absolute = coords_set({where});')
            else:
                a = f'_{at.fields["name"]}_var'
                right.append(f'tc1 = coords_set({where}); rot_transpose({a}._rotation_absolute, tr1); tc2 = rot_apply(tr1, tc1); '
                             f'{v}._position_absolute = coords_add({a}._position_absolute, tc2);')
            right.append(f'tc1 = coords_neg({v}._position_absolute);' if i == 0 else f'tc1 = coords_sub({ref}._position_absolute, {v}._position_absolute);')
            right.append(f'{v}._position_relative = rot_apply({v}._rotation_absolute, tc1);')
            right.append(f'{v}._position_relative_is_zero = coords_test_zero({v}._position_relative);')
            at_ = 0
            for r in right:
                k = text.find(sp(r), at_)
                V.check('placed', r.replace(name, '').split('(')[0].strip(), k >= 0, f'component {i + 1} is not placed by {r[:200]}' +
                        (' after what is before that' if sp(r) in text else ''), g)
                at_ = max(at_, k)
            if not more['skip'][i]:
                last = i
    V.done(('placed', 60))


# ------------------------------------------------------------------------------------------------ C06
ODD = ' say "a\\b" \\n\n\tand  "" \\\\ \\" \n '


def odd(key):
    """a text with everything in it that needs care"""
    return f'<{key}{ODD}{key}>'


def decoded(literal):
    """the text that a C string literal stands for; None if it is none"""
    import re
    out, i = [], 1
    short = {'n': '\n', 't': '\t', 'r': '\r', '"': '"', '\\': '\\', "'": "'", '0': '\0', '?': '?', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}
    while i < len(literal) - 1:
        if literal[i] == '\\':
            m = re.compile(r'\\(?:x([0-9a-f]+)|u([0-9a-f]{4})|U([0-9a-f]{8}))').match(literal, i)
            if m:
                out.append(chr(int(next(x for x in m.groups() if x), 16)))
                i = m.end()
                continue
            if literal[i + 1] not in short:
                return None
            out.append(short[literal[i + 1]])
            i += 2
        else:
            out.append(literal[i])
            i += 1
    return ''.join(out)


def literals(p, rep):
    rep.rule('denotes', 'each text that is in the program of an instrument as a literal, with quotes, backslashes and line breaks in it, is what the '
             'literal stands for; the literal values and units of parameters are there as they are')
    V = Values(p, rep)
    w = V.place
    A = comp_type('A', [parameter('pf', expr('1.5')), parameter('ps', expr('"s"', 'str'))], M.SECTIONS, two=('initialize',))
    B = comp_type('B', [])
    texts = {}

    def own(key):
        texts[key] = odd(key)
        return texts[key]
    for t in (A,):
        for s in ('initialize', 'trace', 'save', 'final', 'display'):
            t.fields[s][0].fields['filename'] = own(f'file_{s}')
    A.fields['metadata'] = (Thing(name=own('m_name'), mimetype=own('m_type'), value=own('m_value'),
                                  source=Thing(name=own('m_source'), _name=texts['m_source'])), )
    cs = [instance('o', A, [parameter('pf', expr('1.5')), parameter('ps', expr('"s"', 'str'))]), instance('i', B)]
    values = [('q', expr('3.5'), None, '"3.5"', '""'), ('r', expr('"z"', 'str'), 'm', '"z"', '"m"'), ('s', expr('"z w"', 'str'), '"1/s"', '"z w"', '"1/s"'),
              ('u', expr('"', 'str'), '"', '"\\""', '"\\""'), ('v', expr('""', 'str'), '', '""', '""'), ('x', expr('a+b', 'op'), '""', '"a+b"', '""')]
    source = instrument('I', cs, [parameter(n, v, unit=u) for n, v, u, _, _ in values], M.SECTIONS)
    source.fields['source'] = own('source')
    for s in ('initialize', 'save', 'final'):
        source.fields[s][0].fields['filename'] = own(f'own_{s}')
    unknown = {}
    for g in programs(p):
        at = f'({g.name})'
        try:
            text = M.written(g, source, skip=[False, False])
        except FAIL as x:
            unknown.setdefault(f'{type(x).__name__}: {str(x)[:160]}', []).append(at)
            continue
        strings = [t for t in M.tokens(text) if t[0] == '"']
        if '"' in strings:
            k = next(n for n, t in enumerate(strings) if t == '"')
            rep.bad('denotes', f'end {at}', f'a literal is not closed, before {strings[k + 1:k + 3]} {at}', w)
            continue
        known = [decoded(x) for x in strings]
        for key, t in texts.items():
            of = [x for x in known if x is not None and f'<{key}' in x]
            if of and all(t in x for x in of):
                rep.ok('denotes', f'{key} {at}')
            elif of or key in ('source', 'm_name', 'm_type', 'm_value', 'm_source'):
                rep.bad('denotes', f'{key} {at}', f'the literal of {key} stands for {[x for x in of if t not in x]} and not for {t!r} {at}', w)
        for n, _, _, value, unit in values:
            row = [x for x in text.split('\n') if f'_parameters.{n})' in x and x.strip().startswith('{"' + n + '"')]
            got = [x for r in row for x in M.tokens(r) if x[0] == '"']
            if got == [f'"{n}"', value, unit]:
                rep.ok('denotes', f'parameter {n} {at}')
            else:
                rep.bad('denotes', f'parameter {n} {at}', f'a parameter with the value {value} and the unit {unit} is written as {got} {at}', w)
    for what, names in unknown.items():
        rep.note(f'not decided: {what}: {", ".join(names)}')
    if not unknown:
        rep.need('denotes', 30, 'texts and literals')


# ------------------------------------------------------------------------------------------------ C09
def listed(decl):
    """[(type, name)] of a declaration; arrays and pointers keep their marks with the type"""
    import re
    m = re.fullmatch(r'((?:struct )?\w+(?: (?!\w+ ?(?:[,\[]|$))\w+)*) (.*)', decl)
    out = []
    for part in m.group(2).split(',') if m else ():
        part = part.replace(' ', '')
        n = re.search(r'\w+', part).group()
        out.append((m.group(1) + part.replace(n, '', 1), n))
    return out


def signature(text, function):
    """[(type, name)] of the parameters of a function"""
    import re
    m = re.search(rf'\b{function}\s*\(([^()]*)\)\s*;', text)
    return None if m is None else [(sp(x).rsplit(' ', 1)[0].replace(' ', ''), x.split()[-1].strip('*')) for x in m.group(1).split(',')]


def members(p, rep):
    import re
    rep.rule('tables', 'in the program of an instrument the tables of the particle, its macros, and the functions that get, set, restore and initialise its '
             'members have exactly the members of the structure that they are for, with their types')
    V = Values(p, rep)
    source, more = small('A', 'C', 'E')
    more = {**more, 'uservars': [declared('uq', dtype='int'), declared('ur', array=True), declared('us', dtype='char', pointer=True),
                                 declared('uf', dtype='float', init='1.5'), declared('un', dtype='long'), declared('ui', init='2*PI'), declared('uz', dtype='int', init='0')]}
    source.fields['components'][0].fields['extend'] = M.blocks('X0;')
    users = more['uservars'] + [d for n in 'AC' for d in more['comp_uservars'][n]]
    F = [(d.fields['name'], d) for d in users]
    for g, t in V.texts('members', source, **more):
        text = t.text
        stas = 'mcxtrace' not in g.name
        xyz = ['x', 'y', 'z']
        a, b = (['vx', 'vy', 'vz'], ['sx', 'sy', 'sz']) if stas else (['kx', 'ky', 'kz', 'phi'], ['Ex', 'Ey', 'Ez'])
        tmp = ['_mctmp_a', '_mctmp_b', '_mctmp_c']
        doubles = xyz + a + b + ['t', 'p']
        extra = [('int', 'mcgravitation'), ('void*', 'mcMagnet'), ('int', 'allow_backprop')]

        def same(what, got, right):
            V.check('tables', what, got is not None and sorted(got) == sorted(right),
                    f'{what}: {sorted(set(got or ()) - set(right))} are too many and {sorted(set(right) - set(got or ()))} missing'
                    if got is not None and set(got) != set(right) else f'{what}: {got}', g)

        def ordered(what, got, right):
            V.check('tables', what, got == right, f'{what}: {got} and not {right}', g)
        # ---- structure
        got = [x for d in t.struct('_struct_particle') or () for x in listed(d.rstrip(' ;'))]
        right = [('double', n) for n in doubles + tmp] + (extra if stas else []) + [
            (d.fields['dtype'] + ('*' if d.fields['is_pointer'] else '') + ('[3]' if d.fields['is_array'] else ''), n) for n, d in F]
        inner = {'randstate', '_uid', '_index', '_absorbed', '_scattered', '_restore', 'flag_nocoordschange', '_logic'}
        same('the structure', [x for x in got if x[1] not in inner], right)
        same('the state in the structure', [x for _, x in got if x in inner], sorted(inner))
        # ---- macros
        macro = [n + '->' + m for n, m in re.findall(r'^\s*#\s*define (\w+) \(?_particle->(\w+)\)?\s*$', text, re.M)]
        physical = doubles + tmp + ([n for _, n in extra] if stas else [])
        state = ['SCATTERED->_scattered', 'RESTORE->_restore', 'ABSORBED->_absorbed']
        same('macros for members', sorted(set(x for x in macro if x not in state and x.split('->')[0] not in dict(F))), [f'{n}->{n}' for n in physical])
        defined = {n: len(re.findall(rf'^\s*#\s*define {n} ', text, re.M)) for n in physical}
        ended = {n: len(re.findall(rf'^\s*#\s*undef {n}\s*$', text, re.M)) for n in physical}
        V.check('tables', 'ends of macros', defined == ended, f'macros for members are defined and ended {[(n, defined[n], ended[n]) for n in physical if defined[n] != ended[n]]} times', g)
        ext = t.functions.get('class_A_trace')
        body = ' '.join(ext or ())
        mine = [d.fields['name'] for d in more['uservars'] + more['comp_uservars']['A']]
        same('macros for user variables around EXTEND', [m[0] for m in re.findall(r'#define (\w+) \( ?_particle ?-> ?(\w+) ?\)|#define (\w+) \(_particle->\w+\)', body) if m[0] in dict(F)]
             or re.findall(r'#define (u\w+) \(_particle->\1\)', body), mine)
        # ---- functions by name
        def entries(function, pattern):
            f = t.functions.get(function)
            return None if f is None else re.findall(pattern, ' '.join(f))
        for function, pattern, right in (
                ('particle_getvar', r'! str_comp \( "(\w+)" , name \) \) \{ rval = \* \( \( double \* \) \( & \( p -> (\w+) \) \) \) ; s = 0 ; \}',
                 [(n, n) for n in doubles + tmp + list(dict(F))]),
                ('particle_getvar_void', r'! str_comp \( "(\w+)" , name \) \) \{ rval = \( void \* \) & \( p -> (\w+) \) ; s = 0 ; \}',
                 [(n, n) for n in doubles + tmp + list(dict(F))]),
                ('particle_setvar_void', r'! str_comp \( "(\w+)" , name \) \) \{ memcpy \( & \( p -> (\w+) \) , value , sizeof \( ([\w *]+) \) \) ; rval = 0 ; \}',
                 [(n, n, 'double') for n in doubles + tmp] + [(n, n, d.fields['dtype']) for n, d in F if not (d.fields['is_pointer'] or d.fields['is_array'])]),
                ('particle_setvar_void_array', r'! str_comp \( "(\w+)" , name \) \) \{ memcpy \( & \( p -> (\w+) \) , value , elements \* sizeof \( ([\w *]+) \) \) ; rval = 0 ; \}',
                 [(n, n, d.fields['dtype']) for n, d in F if d.fields['is_pointer'] or d.fields['is_array']]),
                ('particle_restore', r'p -> (\w+) = p0 -> (\w+) ;', [(n, n) for n in doubles]),
                ('particle_getuservar_byid', r'case (\d+) : \{ rval = \* \( \( double \* \) \( & \( p -> (\w+) \) \) \) ; s = 0 ; break ; \}',
                 [(str(i), n) for i, (n, _) in enumerate(F)]),
                ('particle_uservar_init', r'p -> (\w+) = ([^;]*?) ;', [(n, sp(d.fields['init'] or '0')) for n, d in F if not (
                    d.fields['is_pointer'] or d.fields['is_array']) and (d.fields['init'] or d.fields['dtype'] in ('int', 'double'))]),
                ('_get_particle_var', r'! strcmp \( token , "(\w+)" \) \) return \( void \* \) & \( p -> (\w+) \) ;', [(n, n) for n, _ in F])):
            same(function, entries(function, pattern), right)
        # ---- the state as arguments, in the order of the library
        order = xyz + a + ['t'] + b + ['p']
        ordered('mcsetstate', signature(text, 'mcsetstate'), [('double', n) for n in order] + extra)
        ordered('mcgetstate', signature(text, 'mcgetstate'), [('_class_particle', 'mcparticle')] + [('double*', n) for n in order])
        f = ' '.join(t.functions.get('mcgenstate', ()))
        m = re.search(r'mcsetstate \( (.*?) \) ;', f)
        ordered('mcgenstate', m and m.group(1).split(' , '),
                ['1' if n in ('vz', 'kz', 'p') else '0' for n in order] + ['mcgravitation', 'NULL', 'mcallowbackprop'])
    for what, names in V.unknown.items():
        rep.note(f'not decided: {what}: {", ".join(names)}')
    if not V.unknown:
        rep.need('tables', 40, 'tables')


# ------------------------------------------------------------------------------------------------ C08
def identifiers(p, rep):
    import re
    rep.rule('in place', 'in the program of an instrument each identifier made of a name is declared before it is used, by a declaration of its kind, and '
             'each parameter is a member of the structure that it is read from')
    V = Programs(p, rep)
    bare = small('C', 'E')
    bare[0].fields['parameters'] = ()
    todo = [(g, t, source) for g, t, source, more in V.all] + [(g, t, bare[0]) for g, t in V.texts('without parameters', bare[0], **bare[1])]
    for g, t, source in todo:
        toks = [x for x in t.toks if x[0] not in '#"\'']
        names = {c.fields['name']: c.fields['type'].fields['name'] for _, c in comps(source)}
        kinds = {x.fields['name'] for x in types_of(source)}
        found, where = {}, {}
        for i, x in enumerate(toks):
            where.setdefault(x, []).append(i)

        def at(i):
            return toks[i] if 0 <= i < len(toks) else ''

        def closed(i):
            """the token after the bracket that opens here is closed"""
            d = 0
            for j in range(i, len(toks)):
                d += (toks[j] == '(') - (toks[j] == ')')
                if d == 0:
                    return at(j + 1)
            return ''

        def first(x, i):
            """is it declared there"""
            m = re.fullmatch(r'_(\w+)_var', x)
            if m and m.group(1) in names:
                return at(i - 1) == f'_class_{names[m.group(1)]}' and at(i + 1) == ';'
            if re.match(r'_struct_', x):
                return at(i - 1) == 'struct' and at(i + 1) == '{'
            if re.match(r'_class_', x) and x != '_class_particle':
                return at(i - 3) == 'typedef' and at(i + 1) == ';'
            if re.match(r'class_\w+_(trace|initialize|save|finally|display)$|_\w+_setpos$', x):
                return at(i + 1) == '(' and at(i - 1) in ('void', 'int', '*') and closed(i + 1) in ('{', ';')
            if re.match(r'Jump_|Group_', x):
                return at(i - 1) == 'long' and at(i + 1) == ';'
            return None
        bad = []
        for x, places in where.items():
            ok = first(x, places[0])
            if ok is False:
                bad.append(x)
            elif ok:
                found[x] = True
        V.check('in place', 'declared', not bad, f'{", ".join(sorted(bad)[:6])}: used without a declaration before', g)
        for x in bad:
            found.pop(x, None)
        for c, ty in names.items():
            need = [f'_{c}_var', f'_{c}_setpos', f'_class_{ty}', f'_struct_{ty}', f'_struct_{ty}_parameters']
            lost = [x for x in need if x not in where]
            V.check('in place', f'{c} named', not lost, f'{", ".join(lost)}: not in the program', g)
        # ---- what is called is defined
        called = {x for x in where if re.match(r'class_\w+_(trace|initialize|save|finally|display)$|_\w+_setpos$', x)}
        lost = sorted(x for x in called if x not in t.functions)
        V.check('in place', 'defined', not lost, f'{", ".join(lost)}: called, and not defined', g)
        twice = [x for x in called if sum(1 for i in where[x] if at(i - 1) in ('void', 'int', '*') and closed(i + 1) == '{') > 1]
        V.check('in place', 'defined once', not twice, f'{", ".join(twice)}: defined twice', g)
        # ---- local ones
        for f, body in t.functions.items():
            have = set()
            for i, x in enumerate(body):
                if re.match(r'Split(?:[SN])?_\w+$', x) and not (i and body[i - 1] in ('.', '->')):
                    if i and body[i - 1] in ('int', '_class_particle'):
                        have.add(x)
                    elif x in have:
                        V.check('in place', 'local', True, '', g)
                    else:
                        V.check('in place', f'{x} in {f}', False, f'{x} is used in {f} and not declared there', g)
        # ---- members
        structs = {}

        def of(name):
            if name not in structs:
                s = t.struct(name)
                structs[name] = None if s is None else {re.sub(r'\[.*|[=*;()]', '', y.rstrip(' ;').replace(' [', '[')).split()[-1]
                                                        for d in s for y in d.split(',') if re.search(r'\w', y)}
            return structs[name]

        def member(struct, x, what):
            s = of(struct)
            if s is None:
                V.check('in place', struct, False, f'there is no structure {struct}', g)
            elif x not in s:
                V.check('in place', f'{x} of {struct}', False, f'{what} has the member {x}, which is not in {struct}', g)
            else:
                V.check('in place', 'member', True, '', g)
        for line in [t.text]:
            for c, x in re.findall(r'\b_(\w+?)_var\._parameters\.(\w+)', line):
                if c in names:
                    member(f'_struct_{names[c]}_parameters', x, f'_{c}_var')
                elif c == 'instrument':
                    member('_struct_instrument_parameters', x, '_instrument_var')
            for x in re.findall(r'\binstrument ?-> ?_parameters ?\. ?(\w+)', line):
                member('_struct_instrument_parameters', x, 'instrument')
            for x in re.findall(r'\b_logic ?\. ?(\w+)', line):
                member('particle_logic_struct', x, '_logic')
            for x in re.findall(r'\binstrument ?-> ?logic ?\. ?(\w+)', line):
                member('instrument_logic_struct', x, 'logic')
                member('_instrument_struct', 'logic', 'instrument')
        for f, body in t.functions.items():
            m = re.match(r'class_(\w+)_(trace|initialize|save|finally|display)$', f)
            if m and m.group(1) in kinds:
                for x in re.findall(r'_comp ?-> ?_parameters ?\. ?(\w+)', ' '.join(body)):
                    member(f'_struct_{m.group(1)}_parameters', x, f'_comp in {f}')
        empty = [s for s in ['_struct_instrument_parameters'] + [f'_struct_{k}_parameters' for k in sorted(kinds)]
                 if not t.struct(s) or any(not re.fullmatch(r'(?:(?:const|unsigned|signed|long|struct|short) )*\w+ (?:\* ?)*\w+(?: ?\[ ?\w+ ?\])*(?: ?;)?', d) for d in t.struct(s))]
        V.check('in place', 'structures', not empty, f'{", ".join(empty)}: without members, or with one that is not a declaration', g)
    if not V.unknown:
        rep.need('in place', 400, 'identifiers')
