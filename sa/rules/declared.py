"""C25: C declarations of the user are read as what they declare"""
from __future__ import annotations
import re
import time
from ..absint import Sym
from ..reread import Given, Thing, Unknown, value
from .registries import Cases, Undecided, outcome
from .values import FAIL, occurrences

RULES = (
    ('read', 'each declarator is read with its name, pointer, sizes and extensions, and each initializer and type as it is written'),
    ('found', 'each variable that a declaration declares is found, in order, with its type and initial value; a typedef adds its name to the types'),
    ('equal', 'two declarations are equal if and only if all that they say is'),
    ('element', 'each element of the initial value of an array is found with its place in the array'),
    ('copied', 'a copy of a declaration is equal to it but for the end of its name'),
    ('member', 'as a member of a structure a variable has its type, name and the size that it is declared with or that its initial value has'),
)
STEPS = ('literal_string', 'make_error_listener')
# productions that are their text
LITERAL = ('StorageClassSpecifier', 'TypeQualifier', 'FunctionSpecifier', 'AlignmentSpecifier', 'AtomicTypeSpecifier', 'StructOrUnionSpecifier', 'EnumSpecifier',
           'TypedefName', 'Initializer', 'Pointer')
CHILDREN = ('declarator', 'directDeclarator', 'Identifier', 'pointer', 'gccDeclaratorExtension', 'initializer', 'declarationSpecifiers',
            'declarationSpecifier', 'initDeclaratorList', 'initDeclarator', 'staticAssertDeclaration', 'atomicTypeSpecifier', 'structOrUnionSpecifier',
            'enumSpecifier', 'typedefName', 'constantExpression', 'conditionalExpression', 'vcSpecificModifer', 'parameterTypeList', 'identifierList')


class D(Thing):
    """a declaration, or a pointer to a function, with these fields"""

    def __init__(self, kind='CDeclarator', **fields):
        d = dict(declare=None, pointer=None, extensions=[], elements=None, dtype=None, init=None) if kind == 'CDeclarator' else \
            dict(declare=None, modifiers=None, args=None)
        super().__init__(**{**d, **fields})
        self.kind = kind

    def same(self):
        return [self.kind] + [(k, ' '.join(v.split()) if k == 'dtype' and isinstance(v, str) else v.same() if isinstance(v, D) else list(v) if isinstance(v, (list, tuple)) else v) for k, v in sorted(self.fields.items())]

    def __eq__(self, other):
        return isinstance(other, D) and self.same() == other.same()

    def __hash__(self):
        return hash(str(self.same()))

    def __repr__(self):
        return f'{self.kind}({", ".join(f"{k}={v!r}" for k, v in self.fields.items() if v not in (None, []))})'


def ctx(text='', **children):
    return Thing(text=text, **children)


def built(kind):
    def new(**fields):
        return D(kind, **fields)
    return new


def is_a(x, cls):
    names = cls if isinstance(cls, (list, tuple)) else [cls]
    kinds = {'str': str, 'tuple': (tuple, list), 'list': list, 'int': int}
    return any(isinstance(x, D) and x.kind == n or n in kinds and isinstance(x, kinds[n]) for n in names)


def known_of(m, /, **params):
    f = {n: (lambda c, n=n: c.fields.get(n)) for n in CHILDREN}
    f.update({'visit': lambda v, c: c.fields['visited'], 'literal_string': lambda c, until=None: c.fields['text'], 'isinstance': is_a,
              'new:CDeclarator': built('CDeclarator'), 'new:CFuncPointer': built('CFuncPointer'), 'type': lambda x: x.kind if isinstance(x, D) else type(x).__name__,
              'compile': lambda *a: re.compile(a[-1]), 'findall': lambda r, *a: r.findall(*a), 'sub': lambda r, *a: r.sub(*a),
              're.compile': re.compile, 're.findall': re.findall, 're.sub': re.sub, 'literal_eval': int})
    known = {k: Given(v) for k, v in f.items()}
    known.update({Sym(x): x for x in ('str', 'tuple', 'list', 'int')})
    known.update({Sym(k): v for k, v in params.items() if k != 'self'})
    known['carried'], known['repeats'] = m.I.started, m.I.repeats
    if 'self' in params:
        known[m.me] = params['self']
    return known


class Declared(Cases):
    def of(self, cls, name, *args):
        # what a pointer to a function does is asked of it
        m = self.method(cls, name, *args, steps=STEPS, opaque=('CFuncPointer',) if cls == 'CDeclarator' else ('CDeclarator',))
        m.norm = lambda t: t
        return m

    def gives(F, rule, what, m, right, /, **params):
        """what the method gives for these values is this"""
        try:
            got = outcome(m, known_of(m, **params))
        except Undecided as x:
            F.rep.note(f'not decided: {what}: {str(x)[:200]}')
            return
        good = got == right if isinstance(right, tuple) and right[:1] == ('error',) else got[0] == 'value' and right(got[1]) if callable(right) \
            else got[0] == 'value' and plain(got[1]) == plain(right)
        F.check(rule, what, good, f'{what}: it gives {got[1:] if got[0] == "value" else "an error"} instead of {right if not callable(right) else "what is declared"}', m)


def tight(text):
    return re.sub(r'\s*([*\[\]()])\s*', r'\1', ' '.join(text.split()))


def said(right):
    return lambda got: isinstance(got, str) and tight(got) == tight(right)


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


def c25(p, rep):
    for r, text in RULES:
        rep.rule(r, text)
    F = Declared(p, rep)
    declarators(F)
    declarations(F)
    objects(F)
    extracted(F)
    elements(F)
    for r, n in (('read', 12), ('found', 4), ('equal', 8), ('copied', 2), ('member', 8)):
        rep.need(r, n, 'instances')


V = 'DeclaresCVisitor'


def declarators(F):
    for name in LITERAL:
        m = F.of(V, f'visit{name}', 'ctx')
        F.gives('read', f'text of a {name}', m, 'its text', self=Thing(verbose=False), ctx=ctx('its text'))
    m = F.of(V, 'visitConstantExpression', 'ctx')
    F.gives('read', 'a constant expression', m, 'a + b', self=Thing(verbose=False), ctx=ctx('a + b', conditionalExpression=ctx('a + b')))
    m = F.of(V, 'visitTypeSpecifier', 'ctx')
    for name in ('atomicTypeSpecifier', 'structOrUnionSpecifier', 'enumSpecifier', 'typedefName'):
        F.gives('read', f'the type of a {name}', m, 'the type', self=Thing(), ctx=ctx('the type', **{name: ctx('the type', visited='the type')}))
    F.gives('read', 'a type by its name', m, 'unsigned', self=Thing(), ctx=ctx('unsigned'))
    F.gives('read', 'the type of an expression', m, lambda got: got.replace(' ', '') == '__typeof__(a)', self=Thing(), ctx=ctx('__typeof__(a)', constantExpression=ctx('a', visited='a')))
    m = F.of(V, 'visitInitDeclarator', 'ctx')
    d = ctx(visited='the declarator')
    F.gives('read', 'a declarator with a value', m, ['the declarator', '{1, 2}'], self=Thing(), ctx=ctx(declarator=d, initializer=ctx(visited='{1, 2}')))
    F.gives('read', 'a declarator without a value', m, ['the declarator', None], self=Thing(), ctx=ctx(declarator=d))
    m = F.of(V, 'visitDeclarator', 'ctx')
    for text, name, sizes in (('x', 'x', None), ('x[3]', 'x', (3,)), ('x[]', 'x', (0,)), ('x[2][4]', 'x', (2, 4)), ('x[n]', 'x', ('n',)), ('xs[2][nx]', 'xs', ('2', 'nx')),
                              ('y[][3]', 'y', (0, 3)), ('y[10][20][30]', 'y', (10, 20, 30)), ('z[3][3]', 'z', (3, 3)),
                              ('z[4][4][4]', 'z', (4, 4, 4)), ('p[n][2][n]', 'p', ('n', '2', 'n')), ('q[][n]', 'q', (0, 'n')), ('q[n + 1]', 'q', ('n + 1',)), ('q[2*n][sizeof(int)]', 'q', ('2*n', 'sizeof(int)')), ('q[1][2][3][2][1]', 'q', (1, 2, 3, 2, 1))):
        for ptr, ext in ((None, []), ('*', []), (None, ['__attribute__((x))', 'asm("y")']), ('**', ['e'])):
            F.gives('read', f'declarator {ptr or ""}{text} {" ".join(ext)}'.rstrip(), m, D(declare=name, pointer=ptr, extensions=ext, elements=sizes), self=Thing(),
                    ctx=ctx(pointer=ctx(visited=ptr) if ptr else None, directDeclarator=ctx(text, visited=text), gccDeclaratorExtension=[ctx(visited=x) for x in ext]))
    f = D('CFuncPointer', declare=D(declare='f', pointer='*'), args='int a[3]')
    F.gives('read', 'declarator of a function', m, D(declare=f, pointer='*'), self=Thing(),
            ctx=ctx(pointer=ctx(visited='*'), directDeclarator=ctx('(*f)(int a[3])', visited=f), gccDeclaratorExtension=[]))
    m = F.of(V, 'visitDirectDeclarator', 'ctx')
    F.gives('read', 'a name', m, 'buffer', self=Thing(), ctx=ctx('buffer', Identifier='buffer'))
    for name, size in (('buffer', '[3]'), ('n', '[nmax]'), ('a', '[2 * a_size][a]'), ('x', '[]')):
        F.gives('read', f'{name}{size}', m, name + size, self=Thing(), ctx=ctx(name + size, directDeclarator=ctx(name, visited=name)))
    F.gives('read', 'x[2] of x[2][4]', m, 'x[2][4]', self=Thing(), ctx=ctx('x[2][4]', directDeclarator=ctx('x[2]', visited='x[2]')))
    inner = D(declare='f', pointer='*')
    for mod in (None, '__cdecl'):
        F.gives('read', f'a pointer to a function {mod or ""}', m, D('CFuncPointer', declare=inner, modifiers=mod), self=Thing(),
                ctx=ctx('(*f)', declarator=ctx('*f', visited=inner), vcSpecificModifer=ctx(mod) if mod else None))
    for args in ('int', 'double x, char * y', ''):
        fp = D('CFuncPointer', declare=inner)
        c = ctx(f'(*f)({args})', directDeclarator=ctx('(*f)', visited=fp))
        known = known_of(m, self=Thing(), ctx=c)
        try:
            for e in m.I.events:
                if e.kind == 'setattr':
                    for k in occurrences(m, e, known):
                        o = value(m.freeze(e.data[0]), m.norm, k)
                        if isinstance(o, D):
                            o.fields[e.data[1]] = value(m.freeze(e.data[2]), m.norm, k)
            got = outcome(m, known)
        except (Undecided, *FAIL) as x:
            F.rep.note(f'not decided: arguments of a function: {type(x).__name__} {str(x)[:120]}')
            continue
        F.check('read', f'arguments {args!r} of a function', got == ('value', fp) and fp.fields['args'] == args and fp.fields['declare'] is inner,
                f'the arguments of the function in {c.fields["text"]} are {fp.fields["args"]!r}', m)


def declarations(F):
    m = F.of(V, 'visitDeclaration', 'ctx')

    def one(what, specs, inits, right, types=(), static_assert=False):
        things = [(D(declare=n), i) for n, i in inits]
        c = ctx(' '.join(specs), declarationSpecifiers=ctx(declarationSpecifier=[ctx(visited=s) for s in specs]),
                staticAssertDeclaration=ctx() if static_assert else None,
                initDeclaratorList=ctx(initDeclarator=[ctx(visited=x) for x in things]) if inits else None)
        if static_assert:
            c.fields['declarationSpecifiers'] = None
        me, late = Thing(verbose=False, typedefs=['old'], declares=[]), {}
        known = known_of(m, self=me, ctx=c)
        try:
            for e in m.I.events:
                if e.kind == 'setattr':
                    for k in occurrences(m, e, known):
                        o = value(m.freeze(e.data[0]), m.norm, k)
                        if isinstance(o, D):
                            # what is made here is made anew each time that it is asked for
                            late.setdefault(o.fields['declare'], []).append((e.data[1], value(m.freeze(e.data[2]), m.norm, k)))
                elif e.kind == 'mcall' and e.data[1] in ('append', 'extend', 'insert'):
                    for k in occurrences(m, e, known):
                        o = value(m.freeze(e.data[0]), m.norm, k)
                        if o is me.fields['typedefs'] or o is me.fields['declares']:
                            getattr(o, e.data[1])(*value(m.freeze(e.data[2]), m.norm, k))
        except (Undecided, *FAIL) as x:
            F.rep.note(f'not decided: {what}: {type(x).__name__} {str(x)[:150]}')
            return
        for o in me.fields['declares']:
            if isinstance(o, D):
                o.fields.update(late.get(o.fields['declare'], ()))
        got = me.fields['declares'], me.fields['typedefs']
        F.check('found', what, got == (right, ['old', *types]), f'{what}: what is declared is {got[0]} and the types are {got[1]}, and not {right} and {["old", *types]}', m)
    one('one variable', ['int'], [('a', None)], [D(declare='a', dtype='int')])
    one('two variables', ['double'], [('a', '3'), ('b', None)], [D(declare='a', dtype='double', init='3'), D(declare='b', dtype='double')])
    one('a type of three words', ['static', 'unsigned', 'int'], [('a', '{1}')], [D(declare='a', dtype='static unsigned int', init='{1}')])
    one('a name that looks like a type', ['double', 'x'], [], [D(declare='x', dtype='double')])
    one('a name after a type of two words', ['unsigned', 'long', 'n'], [], [D(declare='n', dtype='unsigned long')])
    one('a type alone', ['struct S {int a;}'], [], [])
    one('a typedef', ['typedef', 'struct {int a;}', 'Name'], [], [], ['Name'])
    one('a typedef of a word', ['typedef', 'double', 'real'], [], [], ['real'])
    one('a typedef of two words', ['typedef', 'unsigned', 'long', 'count'], [], [], ['count'])
    one('a typedef of three words', ['typedef', 'unsigned', 'long', 'int', 'wide'], [], [], ['wide'])
    one('a type of four words', ['static', 'const', 'unsigned', 'int'], [('a', '1'), ('b', '2'), ('c', None)], [D(declare=n, dtype='static const unsigned int', init=i) for n, i in (('a', '1'), ('b', '2'), ('c', None))])
    one('a static assertion', [], [], [], static_assert=True)
    m2 = F.of(V, '__init__', 'types', 'verbose')
    for given, right in ((None, []), (['a', 'b'], ['a', 'b'])):
        try:
            got = value(m2.freeze(m2.field('typedefs')), m2.norm, known_of(m2, self=Thing(), types=given, verbose=False))
        except FAIL as x:
            F.rep.note(f'not decided: known types: {type(x).__name__} {str(x)[:100]}')
            continue
        F.check('found', f'known types {given}', list(got) == right and got is not given, f'the types known to a reader of declarations that is given {given} are {got}', m2)


VALUES = (
    ((2,), '{1, 2}', [('[0]', '1', False), ('[1]', '2', False)]),
    ((3,), '{ 1 }', [('[0]', '1', False)]),
    ((3,), '{1, 2, }', [('[0]', '1', False), ('[1]', '2', False)]),
    ((2, 2), '{{1, f(2, 3)}, {4}}', [('[0][0]', '1', False), ('[0][1]', 'f(2, 3)', False), ('[1][0]', '4', False)]),
    ((2, 2, 2), '{{{1, 2}, {3, 4}}, {{5}, {6, 7}}}', [('[0][0][0]', '1', False), ('[0][0][1]', '2', False), ('[0][1][0]', '3', False), ('[0][1][1]', '4', False),
                                                      ('[1][0][0]', '5', False), ('[1][1][0]', '6', False), ('[1][1][1]', '7', False)]),
    ((5,), '"text"', [('', '"text"', True)]),
    ((5,), '"a, {b}"', [('', '"a, {b}"', True)]),
    ((2, 5), '{"a,b", "}"}', [('[0]', '"a,b"', True), ('[1]', '"}"', True)]),
    ((3,), "{',', '}', '\\''}", [('[0]', "','", False), ('[1]', "'}'", False), ('[2]', "'\\''", False)]),
    ((2,), '{"x\\"y", NULL}', [('[0]', '"x\\"y"', False), ('[1]', 'NULL', False)]),
    ((2,), '{a * (b + c), g((1, 2), (3, 4))}', [('[0]', 'a * (b + c)', False), ('[1]', 'g((1, 2), (3, 4))', False)]),
    ((2,), '{sizeof(int), x[3]}', [('[0]', 'sizeof(int)', False), ('[1]', 'x[3]', False)]),
    ((4,), 'NULL', [('[0]', 'NULL', False)]),
    ((2, 3), 'NULL', [('[0][0]', 'NULL', False)]),
)


def elements(F):
    """each element of an initial value has its place"""
    def preset(m):
        m.I.carry_lists = True
    f = F.p.method(F.p.find_class('CDeclarator'), 'array_values')
    if f is None:
        F.rep.note('not decided: elements of initial values: there is no CDeclarator.array_values')
        return
    m = F.method('CDeclarator', 'array_values', 'init', steps=STEPS, opaque=('CFuncPointer',), preset=preset)
    m.norm = lambda t: t
    for sizes, text, right in VALUES:
        known = known_of(m, self=D(declare='a', elements=sizes, init=text), init=text)
        known['deadline'] = time.monotonic() + 20
        try:
            got = outcome(m, known)
            got = [tuple(x) for x in got[1]] if got[0] == 'value' else got
            # a text for an array of texts is for one of them
            if any(len(x) != 3 for x in got):
                raise Undecided('another form of elements')
        except (Undecided, *FAIL) as x:
            F.rep.note(f'not decided: elements of {text}: {type(x).__name__} {str(x)[:120]}')
            continue
        F.check('element', f'elements of {text} in {len(sizes)} dimensions', got == right, f'the elements of {text} in an array of {sizes} are {got} instead of {right}', m)


def extracted(F):
    """the functions that read a block of C code give what the reader of declarations has found in this block, with these types known"""
    made = Thing(declares=['the variables'], typedefs=['the types'])
    seen = []

    def reader(*a, **k):
        seen.append(('reader', a, k))
        return made

    def opened(what):
        return lambda *a, **k: seen.append((what, a)) or (what, *[x for x in a if isinstance(x, (str, tuple))])
    for name, right in (('extract_c_declared_variables_and_defined_types', (['the variables'], ['the types'])),
                        ('extract_c_declared_variables', ['the variables']), ('extract_c_defined_types', ['the types'])):
        m = F.function(name, 'block', 'types', steps=('make_error_listener',), opaque=('DeclaresCVisitor', 'ErrorListener'))
        m.norm = lambda t: t
        del seen[:]
        known = known_of(m, block='int a;', types=['T'])
        known.update({k: Given(v) for k, v in {
            'new:DeclaresCVisitor': reader, 'make_error_listener': opened('listener'), 'antlr4.InputStream': opened('stream'), 'antlr4.CommonTokenStream': opened('tokens'),
            'mccode_antlr.grammar.CLexer': opened('lexer'), 'mccode_antlr.grammar.CParser': opened('parser'), 'compilationUnit': opened('tree')}.items()})
        try:
            got = outcome(m, known)
            visits = [tuple(value(m.freeze(e.data[2]), m.norm, known)) for e in m.I.events if e.kind == 'mcall' and e.data[1] in ('visit', 'visitCompilationUnit')
                      and 'DeclaresCVisitor' in repr(m.freeze(e.data[0]))]
        except (Undecided, *FAIL) as x:
            F.rep.note(f'not decided: {name}: {str(x)[:150]}')
            continue
        given = [x for what, a, k in (s for s in seen if s[0] == 'reader') for x in (*a, *k.values())]
        F.check('found', name, got[0] == 'value' and plain(got[1]) == plain(right), f'{name} gives {got[1:]} and not {right}', m)
        F.check('found', f'{name}:types', ['T'] in given, f'{name} does not hand on the types that are known: {given}', m)
        F.check('found', f'{name}:block', any(s[0] == 'stream' and s[1] == ('int a;',) for s in seen) and len(visits) == 1 and visits[0][0][:2] == ('tree', ('parser', ('tokens', ('lexer', ('stream', 'int a;'))))),
                f'{name} visits {visits}, and not the tree of the block', m)


def objects(F):
    full = dict(declare='x', pointer='*', extensions=['e'], elements=(2,), dtype='double', init='{1, 2}')
    other = dict(declare='y', pointer=None, extensions=[], elements=None, dtype='int', init=None)
    another = dict(declare='x2', pointer='**', extensions=['f'], elements=(3,), dtype='char', init='{3}')
    m = F.of('CDeclarator', '__eq__', 'other')
    F.gives('equal', 'the same declaration', m, True, self=D(**full), other=D(**full))
    F.gives('equal', 'the same plain declaration', m, True, self=D(**other), other=D(**other))
    for k in full:
        for values in (other, another):
            for a, b in ((full, {**full, k: values[k]}), ({**full, k: values[k]}, full)):
                F.gives('equal', f'declarations with {k} {a[k]} and {b[k]}', m, False, self=D(**a), other=D(**b))
    m = F.of('CFuncPointer', '__eq__', 'other')
    inner = D(declare='f', pointer='*')
    fp = dict(kind='CFuncPointer', declare=inner, modifiers='__cdecl', args='int')
    F.gives('equal', 'the same function', m, True, self=D(**fp), other=D(**fp))
    for k, v in (('declare', D(declare='g', pointer='*')), ('modifiers', None), ('modifiers', 'm'), ('args', None), ('args', 'char')):
        for a, b in ((fp, {**fp, k: v}), ({**fp, k: v}, fp)):
            F.gives('equal', f'functions with {k} {a[k]} and {b[k]}', m, False, self=D(**a), other=D(**b))
    m = F.of('CDeclarator', 'copy', 'suffix')
    for d in (full, other):
        for suffix in (None, '3'):
            F.gives('copied', f'{d["declare"]} with suffix {suffix}', m, D(**{**d, 'declare': d['declare'] + ('_3' if suffix else '')}), self=D(**d), suffix=suffix)
    def copied(d, suffix=None):
        inner = d.fields['declare']
        if isinstance(inner, D):
            return D(d.kind, **{**d.fields, 'declare': copied(inner, suffix)})
        return D(d.kind, **{**d.fields, 'declare': f'{inner}_{suffix}' if suffix else inner})
    for args, mod in (('int', '__cdecl'), ('double, char *', None), (None, None)):
        function = D('CFuncPointer', declare=D(declare='f', pointer='*', elements=(2,)), modifiers=mod, args=args)
        for suffix in (None, '3'):
            known = known_of(m, self=D(declare=function, dtype='int', pointer='*'), suffix=suffix)
            known['copy'] = Given(copied)
            try:
                got = outcome(m, known)
            except (Undecided, *FAIL) as x:
                F.rep.note(f'not decided: copy of a variable that is a function: {str(x)[:150]}')
                continue
            F.check('copied', f'pointer to a function of {args} {mod} with suffix {suffix}', got == ('value', D(declare=copied(function, suffix), dtype='int', pointer='*')), f'a copy of a pointer to a function of {args} is {got[1:]}', m)
    m = F.of('CFuncPointer', 'copy', 'suffix')
    for suffix in (None, '3'):
        known = known_of(m, self=D(**fp), suffix=suffix)
        known['copy'] = Given(lambda d, *a, **k: (d, *a, *k.values()))
        try:
            got = outcome(m, known)[-1]
            got = got.fields['modifiers'], got.fields['args'], [x for x in got.fields['declare'] if x is not None]
        except (Undecided, *FAIL) as x:
            F.rep.note(f'not decided: copy of a function: {str(x)[:150]}')
            continue
        F.check('copied', f'a function with suffix {suffix}', got == ('__cdecl', 'int', [inner] + ([suffix] if suffix else [])), f'a copy of a pointer to a function has {got}', m)
    m = F.of('CFuncPointer', 'string', 'text')
    for mod, args, right in ((None, None, '(*f)()'), ('__cdecl', 'int a', '(__cdecl *f)(int a)'), (None, 'int a, char * b', '(*f)(int a, char * b)')):
        F.gives('member', f'text of a function {right}', m, said(right), self=D('CFuncPointer', modifiers=mod, args=args), text='*f')
    for name, m in ((n, F.of('CDeclarator', n)) for n in ('is_pointer', 'is_array', 'name')):
        for what, d, right in (('plain', other, (False, False, 'y')), ('full', full, (True, True, 'x')), ('pointer', {**other, 'pointer': '*'}, (True, False, 'y')),
                               ('array', {**other, 'elements': (0,)}, (False, True, 'y'))):
            F.gives('member', f'{name} of {what}', m, right[('is_pointer', 'is_array', 'name').index(name)], self=D(**d))
    m = F.of('CDeclarator', 'as_struct_member')
    for what, d, right in (
            ('a variable', dict(declare='a', dtype='int'), 'int a'), ('a pointer', dict(declare='a', dtype='char', pointer='*'), 'char * a'),
            ('a pointer to a pointer', dict(declare='a', dtype='char', pointer='**'), 'char ** a'), ('a variable with a value', dict(declare='a', dtype='int', init='3'), 'int a'), ('an array', dict(declare='a', dtype='int', elements=(3,)), 'int a[3]'),
            ('an array of pointers', dict(declare='a', dtype='char', pointer='*', elements=(3,)), 'char * a[3]'),
            ('an array of arrays', dict(declare='a', dtype='int', elements=(3, 5)), 'int a[3][5]'),
            ('an array with values', dict(declare='a', dtype='int', elements=(4,), init='{1, 2}'), 'int a[4]'),
            ('an array of the size of its values', dict(declare='a', dtype='int', elements=(0,), init='{1, 2, 3}'), 'int a[3]'),
            ('an array of one value', dict(declare='a', dtype='int', elements=(0,), init='{7}'), 'int a[1]'),
            ('an array of arrays of the size of its values', dict(declare='a', dtype='int', elements=(0, 2), init='{{1, 2}, {3, 4}, {5, 6}}'), 'int a[3][2]'),
            ('an array of symbolic arrays of the size of its values', dict(declare='a', dtype='int', elements=(0, 'n'), init='{{1, 2}, {3, 4}, {5, 6}}'), 'int a[3][n]'),
            ('an array without size', dict(declare='a', dtype='int', elements=(0,)), 'int a[16384]'),
            ('a text', dict(declare='a', dtype='char', elements=(0,), init='"text"'), 'char a[16384]'),
            ('an array of symbolic size', dict(declare='a', dtype='double', elements=('n', '2')), 'double a[n][2]'),
            ('a type of two words', dict(declare='a', dtype='unsigned int'), 'unsigned int a')):
        F.gives('member', what, m, said(right), self=D(**d))
