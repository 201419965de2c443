"""The template of the generated program, written out for a small instrument that has one of each kind.

Nothing of the package is run: the template is the term that the abstract interpreter made of `translate`, and the instrument is
a table of the fields that the template asks for, with a name, number or text that occurs nowhere else for each.
"""
from __future__ import annotations
import re
from .absint import App, Clo, Const, Elem, Index, Lam, MCall, Sym, Attr
from .reread import Given, Thing, Unknown, items, value


def expr(text, kind='float', **more):
    """a value: its text, and what the translator asks about it"""
    table = dict(is_str=False, is_id=False, is_op=False, is_vector=False, has_value=True, value=text, vector_known=False,
                 mccode_c_type='double', mccode_c_type_name='instr_type_double', is_constant=False, is_zero=False)
    table.update(KINDS[kind])
    table.update(more)
    return Text(text, **table)


STR = dict(is_str=True, mccode_c_type='char *', mccode_c_type_name='instr_type_string')
INT = dict(mccode_c_type='int', mccode_c_type_name='instr_type_int')
VEC = dict(is_vector=True, mccode_c_type='double *', mccode_c_type_name='instr_type_vector')
NONE = dict(has_value=False, value=None)
KINDS = {'float': {}, 'int': INT, 'str': STR, 'vector': {**VEC}, 'known': {**VEC, 'vector_known': True},
         'id': dict(is_id=True), 'op': dict(is_op=True, value=None), 'id str': {**STR, 'is_id': True}, 'op str': {**STR, 'is_op': True, 'value': None},
         'id vector': {**VEC, 'is_id': True}, 'no float': NONE, 'no int': {**INT, **NONE}, 'no str': {**STR, **NONE}, 'no vector': {**VEC, **NONE}}


class Text(Thing):
    """a thing that is printed as this"""

    def __init__(self, text, **fields):
        super().__init__(**fields)
        self.text = text

    def __str__(self):
        # what there is without the prefix of parameters, if that makes a difference
        return self.fields.get('plain') or self.text

    def __format__(self, spec):
        return self.text if spec == 'p' else str(self)

    def __repr__(self):
        return f'<{self.text}>'


def block(text, empty=False):
    return Thing(filename='F_' + re.sub(r'\W', '', text), line=7, source=text, translated=text, is_empty=empty)


def blocks(*texts):
    return tuple(block(t) for t in texts)


SECTIONS = ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display')


def comp_type(name, setting=(), sections=(), metadata=(), acc=True, two=()):
    """a component type; the blocks of its sections are `NAME_SECTION_1;`"""
    f = {s: blocks(*[f'{name}_{s}_{k};' for k in range(1, 3 if s in two else 2)]) if s in sections else () for s in SECTIONS}
    return Thing(name=name, setting=tuple(setting), define=(), output=(), metadata=tuple(metadata), acc=acc, dependency=None, category='user', **f)


def parameter(name, value, unit=None):
    return Thing(name=name, value=value, unit=unit)


def declared(name, pointer=False, array=False, init=None, dtype='double'):
    return Thing(name=name, is_pointer=pointer, is_array=array, init=init, dtype=dtype,
                 member=f'{dtype} {"*" if pointer else ""}{name}{"[3]" if array else ""}')


def place(name):
    v = [expr(f'{name}_{c}') for c in 'xyz']
    return Triple(v)


class Triple(tuple):
    @property
    def fields(self):
        return {'is_null': lambda: False, 'x': self[0], 'y': self[1], 'z': self[2]}


def instance(name, type, parameters=(), at=None, rotate=None, extend=(), jump=(), when=None, split=None, group=None,
             removable=False, cpu=False, metadata=()):
    return Thing(name=name, type=type, parameters=tuple(parameters), at_relative=(place(f'at_{name}'), at),
                 rotate_relative=(place(f'rot_{name}'), rotate), extend=blocks(*extend), jump=tuple(jump), when=when, split=split,
                 group=group, removable=removable, cpu=cpu, metadata=tuple(metadata))


def jump(target, index, condition, iterate=False):
    return Thing(target=target, absolute_target=index, relative_target=0, iterate=iterate, condition=expr(condition))


def instrument(name='I', components=(), parameters=(), sections=(), metadata=(), groups=()):
    f = {s: blocks(f'{name}_{s}_1;', f'{name}_{s}_2;') if s in sections else () for s in ('declare', 'user', 'initialize', 'save', 'final')}
    table = {}
    for g in groups:
        ids = [i for i, c in enumerate(components) if c.fields['group'] == g]
        table[g] = Thing(name=g, index=len(table), ids=ids, members=[components[i] for i in ids])
    return Thing(name=name, source=f'{name}.instr', components=list(components), groups=table, parameters=tuple(parameters),
                 metadata=tuple(metadata), registries=(Thing(name='libc'),), included=(), flags=(), **f)


class Missing(Exception):
    pass


class Model:
    """the values of `self` of the translator"""

    def __init__(self, source, **state):
        self.self_ = Thing(source=source, **state)

    def known(self, I_self):
        k = {I_self: self.self_}
        for name, f in METHODS.items():
            k[name] = f if isinstance(f, Given) else Given(f)
        k[Sym('sys.version_info')] = (3, 12)
        for x in ('str', 'tuple', 'datetime.datetime', 're.MULTILINE'):
            k[Sym(x)] = x
        k['function'] = Given(lambda name: name)
        return k


def array_values(init, at=()):
    """the subscript and value of each element of an initializer, and if it is a text"""
    init = init.strip()
    if not init.startswith('{'):
        return [(''.join(f'[{i}]' for i in at or ((0,) if init[0] != '"' else ())), init, init[0] == '"')]
    parts, depth = [''], 0
    for c in init[1:-1]:
        depth += (c in '({') - (c in ')}')
        if c == ',' and not depth:
            parts.append('')
        else:
            parts[-1] += c
    return [x for i, part in enumerate(parts) for x in array_values(part, at + (i,))]


def unique(x, *a):
    return list(dict.fromkeys(x))


def formatted(v, spec=''):
    if isinstance(v, Thing):
        return v.text if spec == 'p' and isinstance(v, Text) else str(v)
    return format(v, spec)


def position(base, e=None, *a):
    return list(base).index(e)


METHODS = {
    'isinstance': lambda x, c, *a: isinstance(x, Text) and any(k in ('Value', 'Op') for k in ([c] if isinstance(c, str) else c)), 'new:Expr': lambda x: x, 'is_null': lambda v: False,
    'fmt': formatted, 'dict.fromkeys': unique, 'dedup': unique,
    'component_types': lambda s: unique(c.fields['type'] for c in s.fields['components']),
    'translate': lambda s, table: s.translate(table), 'maketrans': lambda recv, *a: str.maketrans(*a),
    'path': Given(None, '/PATH'), 'open': Given(None, '/FILE'), 'read': Given(None, '/* text of a file */'), 'readlines': lambda f: [], 'is_file': lambda f: True,
    'known': lambda r, n, **k: True, 'importlib.resources.as_file': Given(None, '/FILE'), 'enter': Given(None, '/FILE'),
    'as_struct_member': lambda d: d.fields['member'], 'array_values': lambda d, init: array_values(init),
    'finditer': lambda *a: [], 're.compile': lambda *a: None, 're.sub': lambda p, new, s, *a, **k: s,
    'encode': lambda s, *a: s.encode(*a), 'decode': lambda s, *a: s.decode(*a), 'strip': lambda s, *a: s.strip(*a), 'replace': lambda s, *a: s.replace(*a),
    'now': lambda *a: 'NOW', 'pooch.os_cache': lambda n: '/cache', 'importlib.metadata.version': lambda n: '0', 'exists': lambda p: False,
    '_handle_raw_c_include': lambda *a: ([], ''),
}


def written(g, source, variables=None, uservars=(), comp_uservars=None, skip=()):
    """the text of the program for this instrument, or the term that is not known for it"""
    types = unique(c.fields['type'] for c in source.fields['components'])
    state = Model(source, includes=[], typedefs=[], component_declared_parameters={t.fields['name']: list((variables or {}).get(t.fields['name'], ())) for t in types},
                  instrument_uservars=list(uservars), component_uservars={t.fields['name']: list((comp_uservars or {}).get(t.fields['name'], ())) for t in types},
                  ok_to_skip=list(skip))
    known = state.known(g.self_)
    known['carried'] = g.I.started

    def applied(f, *xs):
        if isinstance(f, App) and f.fn.endswith('attrgetter') and len(f.args) == 1:
            return xs[0].fields[f.args[0].v]
        if not isinstance(f, (Lam, Clo)):
            raise Unknown
        named = {Sym(f'#x{i}'): x for i, x in enumerate(xs)}
        t = g.I.call_value(f, list(named), {}, g.state, getattr(f, 'node', None), 0)
        return value(g.I.freeze(t, g.state), lambda t: t, {**known, **named})
    known['()'] = applied
    return ''.join(str(x) for x in items(g.items, lambda t: t, known))


# ------------------------------------------------------------------------------------------------ reading the text
TOKEN = re.compile(r'"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_]\w*|\d[\w.]*|->|\+\+|--|&&|\|\||[-+*/=!<>]=|##|\S')


def tokens(text):
    """[token, ...]; a preprocessor line is one token that starts with #"""
    text = re.sub(r'\\\n', ' ', text)
    out = []
    pos, n = 0, len(text)
    bol = True
    while pos < n:
        c = text[pos]
        if c == '\n':
            bol = True
            pos += 1
        elif c in ' \t\r':
            pos += 1
        elif text.startswith('/*', pos):
            e = text.find('*/', pos)
            pos = n if e < 0 else e + 2
        elif text.startswith('//', pos):
            e = text.find('\n', pos)
            pos = n if e < 0 else e
        elif c == '#' and bol:
            e = text.find('\n', pos)
            e = n if e < 0 else e
            line = re.sub(r'/\*.*?\*/|//.*', '', text[pos:e])
            out.append('#' + ' '.join(line[1:].split()))
            pos = e
        else:
            bol = False
            m = TOKEN.match(text, pos)
            out.append(m.group())
            pos = m.end()
    return out


def functions(toks):
    """{name: tokens of the body} of what is defined as name ( ... ) { ... } at file level"""
    out, depth, i = {}, 0, 0
    while i < len(toks):
        t = toks[i]
        if t == '{' and depth == 0:
            j = i - 1
            name = None
            while j >= 0 and toks[j].startswith('#'):
                j -= 1
            if j >= 0 and toks[j] == ')':
                d = 0
                while j >= 0:
                    d += (toks[j] == ')') - (toks[j] == '(')
                    if d == 0:
                        break
                    j -= 1
                name = toks[j - 1]
            k, d = i, 0
            while k < len(toks):
                d += (toks[k] == '{') - (toks[k] == '}')
                if d == 0:
                    break
                k += 1
            if name is not None:
                out.setdefault(name, toks[i + 1:k])
            i = k + 1
            continue
        i += 1
    return out


def statements(toks):
    """the statements of a body: tokens up to each ; { or }"""
    out, cur, d = [], [], 0
    for t in toks:
        if t.startswith('#'):
            if cur:
                out.append(' '.join(cur))
                cur = []
            out.append(t)
            continue
        cur.append(t)
        d += (t in '([') - (t in ')]') if len(t) == 1 else 0
        if d <= 0 and t in (';', '{', '}'):
            out.append(' '.join(cur))
            cur = []
    if cur:
        out.append(' '.join(cur))
    return out
