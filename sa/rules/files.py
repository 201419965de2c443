"""C26: the files that make up the generated program"""
from __future__ import annotations
import re
import time
from itertools import combinations, product
from ..absint import HList, Ref, Sym, Term
from ..reread import Given, Thing, items, value
from .declared import Declared, known_of
from .registries import Undecided, followed, outcome
from .running import happenings
from .values import FAIL, occurrences

RULES = (
    ('read', 'the includes of a block are found: its libraries, in order and with their own includes, and the text without them and with the files it includes'),
    ('hierarchy', 'every library is included once, after those that it needs, and otherwise in the order of the requests'),
    ('blocks', 'the includes of every C block of the instrument, of its component types and of its instances are read, for its own name'),
    ('placed', 'the headers of all libraries precede the declarations, and their sources and those that only these need follow them'),
    ('located', 'a file is what the first registry that has it has'),
    ('frame', 'the program starts and ends with the files of its runtime'),
    ('types', 'the types that the libraries and the components share are known'),
)
STEPS = ('_file_contents', '_handle_raw_c_include', 'sort_include_hierarchy', 'declarations_pre_libraries', 'to_c', 'header_pre_runtime', 'header_post_runtime', 'info',
         'library_path', 'include_path', 'configure_file', 'extract_c_defined_types', 'extract_c_declared_variables', '_determine_uservars', '_parse_libraries_for_typedefs',
         'verify_instance_parameters', 'determine_groups', 'cogen_getvarpars_fct', 'cogen_getparticlevar_fct', 'cogen_getcompindex_fct', 'translate', 'component_types', 'ordered_registries')
T = 'CTargetVisitor'


class Inc(Thing):
    """a library"""
    less = None

    def key(self):
        return tuple(sorted((k, str(v)) for k, v in self.fields.items()))

    def __eq__(self, other):
        return isinstance(other, Inc) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def __lt__(self, other):
        if Inc.less is None:
            raise TypeError('there is no order of libraries')
        return Inc.less(self, other)

    def __repr__(self):
        return f'{self.fields["parent"]}:{self.fields["name"]}'


def inc(parent, name, order=0, content=''):
    return Inc(parent=parent, name=name, order=order, content=content, root='')


def lines(text):
    return [' '.join(x.split()) for x in text.splitlines() if x.strip()] if isinstance(text, str) else text


class Missing(Exception):
    pass


def handled(files, parent, raw):
    """what a block includes, and what is left of it"""
    libs, out, new = [], [], []
    for line in raw.split('\n'):
        m = re.fullmatch(r'\s*%include\s*"([^".]+)"\s*', line)
        if m is None:
            out.append(line)
        elif m.group(1) not in libs:
            libs.append(m.group(1))
    includes = []
    for i, lib in enumerate(libs):
        if f'{lib}.h' not in files:
            raise Missing
        more, text = handled(files, lib, files[f'{lib}.h'])
        includes.append(inc(parent, lib, i, text))
        new += more
    includes += [x for x in new if x not in includes]
    whole, again = [], False
    for line in out:
        m = re.fullmatch(r'\s*%include\s*"([^"]+)"\s*', line)
        if m is not None and m.group(1) not in files:
            raise Missing
        again = again or m is not None
        whole.append(line if m is None else files[m.group(1)])
    text = '\n'.join(whole)
    if again:
        more, text = handled(files, parent, text)
        includes += [x for x in more if x not in includes]
    return [includes, text]


def ordered(includes):
    names = list(dict.fromkeys(x.fields['name'] for x in includes))
    out = []

    def add(name, path):
        if name in out or name in path:
            return
        for x in includes:
            if x.fields['parent'] == name:
                add(x.fields['name'], path + [name])
        out.append(name)
    for n in names:
        add(n, [])
    return [next(x for x in includes if x.fields['name'] == n) for n in out]


class Files(Declared):
    def of(self, cls, name, *args, steps=STEPS, opaque=('CInclude',), output=False, depth=1, function=False, carry=True):
        def preset(m):
            m.I.max_rec, m.I.carry_lists = depth, carry
            if output:
                m.I.nheap += 1
                m.st.heap[m.I.nheap] = HList((), 'stream')
                m.out = Ref(m.I.nheap)
                m.st.over[('attr', m.me, 'output')] = m.out
        if function:
            m = self.function(name, *args, opaque=opaque, steps=steps, preset=preset)
        else:
            m = self.method(cls, name, *args, steps=steps, opaque=opaque, preset=preset)
        m.norm = lambda t: t
        return m

    def text(self, m, known):
        """what a method writes"""
        followed(m)
        return ''.join(str(x) for x in items(m.I.freeze(m.out, m.st).items, m.norm, known))

    def outcome_of(self, rule, what, m, known, right, form=lambda got: got):
        try:
            got = form(outcome(m, known))
        except (Undecided, *FAIL) as x:
            self.undecided(what, x)
            return
        self.check(rule, what, got == right, f'{what}: it gives {got[1:] if got[0] == "value" else "an error"} instead of {right[1:] if right[0] == "value" else "an error"}', m)

    def undecided(self, what, x):
        self.rep.note(f'not decided: {what}: {type(x).__name__} {str(x)[:200]}')


# when to give up what is not decided yet
ends = [0.0]


def giving(m, given, /, **params):
    k = known_of(m, **params)
    k['deadline'] = ends[0]
    k.update({n: Given(f) for n, f in {**BASE, **given}.items()})
    return k


BASE = {'finditer': lambda r, *a: list(r.finditer(*a)), 'group': lambda x, *a: x.group(*a), 'span': lambda x, *a: x.span(*a), 'start': lambda x, *a: x.start(*a),
        'end': lambda x, *a: x.end(*a), 're.sub': lambda r, a, b, *c, **k: re.sub(r, a, b, *c, **k), 're.finditer': lambda *a: list(re.finditer(*a)), 'search': lambda r, *a: r.search(*a),
        'sub': lambda r, *a: r.sub(*a), 're.search': re.search, 're.findall': re.findall, 're.compile': re.compile, 'match': lambda r, *a: r.match(*a), 'subn': lambda r, *a: r.subn(*a),
        'new:CInclude': lambda **f: inc(**f), 'info': lambda *a: None, 'set': lambda *a: list(*a), 'unordered': lambda x: sorted(x)}


def c26(p, rep):
    for r, text in RULES:
        rep.rule(r, text)
    ends[0] = time.monotonic() + 240
    F = Files(p, rep)
    Inc.less = None
    order(F)
    blocks_of_text(F)
    hierarchy(F)
    every_block(F)
    placed(F)
    located(F)
    frame(F)
    given_text(F)
    types(F)
    for r, n in (('read', 1), ('blocks', 10), ('located', 4), ('frame', 4)):
        rep.need(r, n, 'instances')


def order(F):
    """libraries are compared as their class says"""
    c = F.p.find_class('CInclude')
    if c is not None and F.p.method(c, '__lt__') is not None and c.methods.get('__lt__') is not None:
        m = F.method('CInclude', '__lt__', 'other', steps=())
        m.norm = lambda t: t

        def less(a, b):
            got = outcome(m, known_of(m, self=a, other=b))
            if got[0] != 'value':
                raise TypeError
            return bool(got[1])
        Inc.less = less


FILES = {'a.h': 'a head\n%include "b"\na tail', 'b.h': 'b text', 'c.h': '%include "a"\n%include "d"\nc text \\n "q"', 'd.h': 'd1\n  %include "plain.h"  \nd2', 'plain.h': 'from a file \\1 \\g<0>',
         'x.h': 'x1\n%include "y.h"\nx2', 'y.h': '%include "b"\ny text', 'lib-e_2.h': 'e text', 'z.h': 'z1\n%include "plain.h"\n%include "plain.h"\nz2', 'w/v.txt': 'v text'}
TEXTS = ('plain text', '', 'one\n%include "a"\ntwo', '%include "a"\n%include "b"\n%include "a"\n', '%include "b"\n%include "a"', 'x\n\t %include   "c" \ny\n%include "lib-e_2"\n',
         'one\n%include "plain.h"\ntwo', 'a\n%include "plain.h"\nb\n%include "z.h"\nc', 'one\n%include "y.h"\ntwo', '%include "x.h"', '%include "missing"', '%include "missing.h"',
         'one\n%include "d"\n%include "x.h"\nthree', 'printf("%include a");', '// %include "a"', 'int i; %include "a"', '%include "w/v.txt"', '%include"a"', 'p\n\n%include "b"\n\nq',
         '%include "z.h"\n%include "c"', 'k = "%include";')


def blocks_of_text(F):
    m = F.of(T, '_handle_raw_c_include', 'parent', 'raw_c', carry=False)
    cache = {}

    def folded(parent, raw, depth=0):
        if (parent, raw) not in cache:
            try:
                cache[parent, raw] = once(parent, raw, depth)
            except Missing:
                cache[parent, raw] = None
        if cache[parent, raw] is None:
            raise Missing
        return cache[parent, raw]

    def once(parent, raw, depth):
        if depth > 12:
            raise Undecided('more than twelve files deep')
        made = {}

        def contents(v, name, *a):
            if name not in FILES:
                raise Missing
            return FILES[name]
        known = giving(m, {'new:CInclude': lambda **f: made.setdefault((f['parent'], f['name']), inc(**f)), '_file_contents': contents,
                           '_handle_raw_c_include': lambda v, a, b: folded(a, b, depth + 1)}, self=Thing(), parent=parent, raw_c=raw)
        got = outcome(m, known)
        todo = []
        for e in m.I.events:
            if e.kind == 'setattr':
                for k in occurrences(m, e, known):
                    o, v = (value(m.freeze(x), m.norm, k) for x in (e.data[0], e.data[2]))
                    todo.append((o, e.data[1], v))
        for o, n, v in todo:
            o.fields[n] = v
        if got[0] != 'value':
            raise Missing
        return got[1]

    def said(got):
        if got == 'an error':
            return got
        incs, text = got
        by = {}
        for x in incs:
            by.setdefault(x.fields['parent'], []).append((x.fields['name'], lines(x.fields['content'])))
        return sorted((k, list(map(tuple, (map(str, y) for y in v)))) for k, v in by.items()), lines(text)

    def tried(f, *a):
        try:
            return said(f(*a))
        except Missing:
            return 'an error'
    for text in TEXTS:
        right = tried(handled, FILES, 'owner', text)
        try:
            got = tried(folded, 'owner', text)
        except (Undecided, *FAIL) as x:
            F.undecided(f'the includes of {text!r}', x)
            continue
        F.check('read', f'includes of {text!r}', got == right, f'the includes of {text!r} are read as {str(got)[:200]} instead of {str(right)[:200]}', m)


def hierarchy(F):
    m = F.of(None, 'sort_include_hierarchy', 'includes', function=True)
    lists = [[]]
    names = 'pqr'
    # what each of three libraries can need of the others, and what is requested in which order
    edges = [(a, b) for a in names for b in names if a != b]
    for n in range(len(edges) + 1):
        for chosen in combinations(edges, n):
            needs = {a: [b for x, b in chosen if x == a] for a in names}
            if n <= 3:
                for request in (['p'], ['q', 'p'], ['p', 'q', 'r'], ['r', 'p']):
                    lists.append((needs, request))
    done = set()
    for case in lists[1:] + [({'a': ['b', 'c', 'd'], 'b': ['c'], 'c': [], 'd': ['e', 'b'], 'e': ['c']}, ['d', 'a']), ({x: [] for x in 'edcba'}, list('edcba')),
                             ({'a': ['z'], 'z': [], 'm': ['z']}, ['m', 'a']), ({'one': ['two', 'three'], 'two': ['three'], 'three': []}, ['one'])]:
        needs, request = case
        if cyclic(needs):
            continue
        given, todo = [], [('owner', request)]
        while todo:
            parent, libs = todo.pop(0)
            given += [x for x in (inc(parent, n, i, f'text of {n}') for i, n in enumerate(libs)) if x not in given]
            todo += [(n, needs[n]) for n in libs]
        key = tuple(given)
        if key in done:
            continue
        done.add(key)
        if Inc.less is not None:
            for x in given:
                x.fields['root'] = 'owner'
        try:
            got = outcome(m, giving(m, {}, includes=given))
        except (Undecided, *FAIL) as x:
            F.undecided(f'the order of {given}', x)
            continue
        there = [x.fields['name'] for x in got[1]] if got[0] == 'value' and all(isinstance(x, Inc) for x in got[1]) else None
        good = there is not None and sorted(there) == sorted({x.fields['name'] for x in given}) and all(
            there.index(b) < there.index(a) for a in needs for b in needs[a] if a in there) and (
            any(needs[x] for x in there) or there == [x.fields['name'] for x in given])
        F.check('hierarchy', f'order of {given}', good, f'the libraries {given} (as owner:library) are included in the order {there if there is not None else "(an error)"}', m)


def cyclic(needs):
    left = dict(needs)
    while left:
        free = [a for a in left if not any(b in left for b in left[a])]
        if not free:
            return True
        for a in free:
            del left[a]
    return False


SECTIONS = ('user', 'declare', 'initialize', 'save', 'final')
PARTS = ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display')


def every_block(F):
    m = F.of(T, '__post_init__')

    def block(what):
        return Thing(source=what, translated=None)
    types = {n: Thing(name=n, **{s: [block(f'{n} {s} {i}') for i in range(2 if s in ('share', 'trace') else 1)] for s in PARTS}) for n in 'AB'}
    comps = [Thing(name=n, type=types[t], extend=[block(f'{n} extend {i}') for i in range(k)]) for n, t, k in (('a1', 'A', 2), ('b1', 'B', 1), ('a2', 'A', 0))]
    source = Thing(name='I', components=comps, registries=[], component_types=None, **{s: [block(f'I {s} {i}') for i in range(2)] for s in SECTIONS})
    right = {b.fields['source']: owner for owner, whole in [('I', source)] + [(t, types[t]) for t in types] + [(c.fields['name'], c) for c in comps]
             for v in whole.fields.values() if isinstance(v, list) for b in v if 'source' in b.fields}
    me = Thing(source=source, registries=[], typedefs=[], component_declared_parameters={})
    known = giving(m, {'component_types': lambda s: [types['A'], types['B']], '_handle_raw_c_include': lambda v, a, b: [[inc(a, f'library of {b}')], f'{a}:{b}'],
                       'sort_include_hierarchy': lambda x: x, 'extract_c_declared_variables': lambda *a, **k: [], 'to_c': lambda b: '', 'ordered_registries': lambda x: x}, self=me)
    seen, libs = {}, None
    try:
        for e in m.I.events:
            if e.kind == 'setattr' and e.data[1] == 'translated':
                for k in occurrences(m, e, known):
                    o, v = (value(m.freeze(x), m.norm, k) for x in (e.data[0], e.data[2]))
                    seen.setdefault(o.fields['source'], []).append(v)
    except (Undecided, *FAIL) as x:
        F.undecided('the blocks of which the includes are read', x)
        return
    for text, owner in right.items():
        F.check('blocks', f'includes of {text}', seen.get(text) and seen[text][-1] == f'{owner}:{text}',
                f'the includes of the block {text!r} (of {owner}) are ' + (f'read as those of {seen[text]}' if text in seen else 'not read'), m)
    for e in m.I.events:
        if e.kind == 'setattr' and e.data[1] == 'includes':
            try:
                libs = [x.fields['name'] for x in value(m.freeze(e.data[2]), m.norm, known)]
            except (Undecided, *FAIL) as x:
                F.undecided('the libraries of the program', x)
                continue
            for text in right:
                F.check('blocks', f'library of {text}', f'library of {text}' in libs, f'the library that the block {text!r} includes is not a library of the program', m)


def written(files, libs):
    """the sources of these libraries, with those that only they need"""
    there, out = set(libs), []

    def add(lib):
        more, text = handled(files, f'{lib}.c', files[f'{lib}.c'])
        more = ordered([x for x in more if x.fields['name'] not in there])
        there.update(x.fields['name'] for x in more)
        out.extend(y for x in more for y in lines(x.fields['content']))
        for x in more:
            add(x.fields['name'])
        out.extend(lines(text))
    for lib in libs:
        add(lib)
    return out


def placed(F):
    m = F.of(T, 'visit_declare', output=True, depth=4)
    files = {'a.h': 'header of a', 'a.c': 'source of a', 'b.c': 'source of b', 'p.c': '%include "q"\nsource of p', 'q.c': 'source of q', 'q.h': '%include "r"\nheader of q', 'r.h': 'header of r', 'r.c': 'source of r',
             's.c': '%include "q"\n%include "a"\nsource of s', 't.c': '%include "t"\nsource of t', 't.h': 'header of t'}
    for libs in ('ab', 'ba', 'p', 'ps', 'as', 't', ''):
        for runtime in (True, False):
            source = Thing(name='I', declare=[Thing(text='user 1'), Thing(text='user 2')])
            me = Thing(source=source, includes=[inc('I', x, i, f'header of {x}') for i, x in enumerate(libs)], typedefs=[], component_declared_parameters={},
                       config={'include_runtime': runtime}, warnings=0, verbose=False)
            known = giving(m, {'_handle_raw_c_include': lambda v, a, b: handled(files, a, b), '_file_contents': lambda v, n, *a: files[n], 'sort_include_hierarchy': ordered,
                               'declarations_pre_libraries': lambda *a: ['structures', 0], 'to_c': lambda b: b.fields['text'], 'get': lambda d, k, *a: d.get(k, *a)}, self=me)
            what = f'libraries {" ".join(libs) or "(none)"}' + ('' if runtime else ', without their sources')
            try:
                text = F.text(m, known)
            except (Undecided, *FAIL) as x:
                F.undecided(what, x)
                continue
            right = [f'header of {x}' for x in libs] + ['structures']
            if runtime:
                right += written(files, libs)
            right += ['user 1', 'user 2']
            got = [x for x in lines(text) if not x.startswith(('/*', '#undef'))]
            F.check('placed', what, got == right, f'with {what} the declarations are {got} instead of {right}', m)


def located(F):
    regs = [Thing(name=n, files=f) for n, f in (('one', ['x.h']), ('two', ['x.h', 'y.c', 'z.comp']), ('three', ['y.c', 'w']))]
    given = {'known': lambda r, n, *a, strict=False, **k: n in r.fields['files'] or not strict and any(f.startswith(n[:1]) for f in r.fields['files']),
             'path': lambda r, n, *a: f'{r.fields["name"]}/{n}'}
    me = Thing(registries=regs, source=Thing(registries=regs))
    for name in ('locate', 'library_path'):
        m = F.of('TargetVisitor', name, 'name', steps=('locate',))
        if name != 'locate':
            F.outcome_of('located', f'{name} x.h', m, giving(m, {'locate': lambda v, n: f'one/{n}'}, self=me, name='x.h'), ('value', 'one/x.h'))
            continue
        for n, right in (('x.h', 'one/x.h'), ('y.c', 'two/y.c'), ('w', 'three/w'), ('v', None), ('y', None)):
            F.outcome_of('located', f'{name} {n}', m, giving(m, given, self=me, name=n, filename=n), ('error',) if right is None else ('value', right))
    m = F.of('TargetVisitor', 'known', 'name', steps=())
    for n, right in (('x.h', True), ('y.c', True), ('w', True), ('v', False), ('y', False)):
        F.outcome_of('located', f'known {n}', m, giving(m, given, self=me, name=n), ('value', right))
    m = F.of(T, '_file_contents', 'filename', steps=('include_path', 'known', 'locate', 'library_path'))
    text = 'one\n  two\\n "q"\n\nlast'
    for n, right in (('x', ('value', text)), ('dir', ('error',))):
        file = [x + '\n' for x in text.split('\n')[:-1]] + text.split('\n')[-1:]
        given2 = {'include_path': lambda v, n=None: f'/{n}', 'known': lambda *a, **k: n == 'x', 'locate': lambda v, n: f'/{n}', 'library_path': lambda v, n: f'/{n}', 'is_file': lambda q: q == '/x',
                  'open': lambda q, *a, **k: file, 'enter': lambda q: q, 'readlines': lambda f: f, 'read': lambda f, *a: text,
                  'read_text': lambda f, *a: text, 'splitlines': lambda t: t.splitlines()}
        F.outcome_of('located', f'contents of {n}', m, giving(m, given2, self=Thing(), filename=n), right, lambda got: got[:1] + tuple(map(str.rstrip, got[1:])))
    m = F.of(T, 'include_path', 'filename', steps=('library_path',))
    F.outcome_of('located', 'path of an include', m, giving(m, {'library_path': lambda v, n: f'two/{n}'}, self=Thing(), filename='y.c'), ('value', 'two/y.c'))
    m = F.of(T, 'embed_file', 'filename', steps=('library_path',), output=True)
    whole = {'/mccode-r.c': 'first\n  \tsecond  \n\nlast "\\n" /'}
    given = {'library_path': lambda v, n: f'/{n}', 'importlib.resources.as_file': lambda q: q, 'as_file': lambda q: q, 'enter': lambda q: q, 'open': lambda q, *a, **k: q,
             'read': lambda q, n=None: whole[q][:n], 'read_text': lambda q, *a: whole[q], 'readlines': lambda q: whole[q].splitlines(True), 'readline': lambda q: whole[q].splitlines(True)[0]}
    try:
        text = F.text(m, giving(m, given, self=Thing(), filename='mccode-r.c'))
    except (Undecided, *FAIL) as x:
        F.undecided('an embedded file', x)
    else:
        F.check('located', 'embedded file', without_comments(text).strip() == whole['/mccode-r.c'], f'the file that is embedded is written as {text[:200]!r}', m)
    configured(F, given)


def configured(F, given):
    """each @MCCODE_...@ of a header is replaced by its value"""
    m = F.of(T, 'configure_file', 'filename', 'flavor', steps=('library_path', 'registry_defaults'), output=True)
    text = '#define A "@MCCODE_NAME@"\n#define B @MCCODE_VERSION_MACRO@ /@MCCODE_LONG_NAME_X@/\n@MCCODE_DATE@ @MCCODE_NOT_HERE@ @MCCODE_COUNT@ a@b.c @MCCODE_X_NUMBER_Y@\nend'
    values = {'name': 'McStas', 'long_name_x': 'x \\1', 'count': 3}
    right = '#define A "McStas"\n#define B 0 /x \\1/\n1970-01-01 {UNKNOWN} 3 a@b.c 0\nend'

    class Config(dict):
        def __missing__(self, key):
            return Thing(value=None)

    def replaced(known):
        def new(f, x):
            if isinstance(f, str):
                return f
            t = m.I.call_value(f, [Sym('#match')], {}, m.st, getattr(f, 'node', None), 0)
            return value(m.freeze(t), m.norm, {**known, Sym('#match'): x})
        return lambda pat, rep, s, *a, **k: re.sub(pat, lambda x: new(rep, x), s, *a, **k)
    known = giving(m, {**given, 'read': lambda q, *a: text, 'read_text': lambda q, *a: text, 'exists': lambda k: k.fields['value'] is not None, 'get': lambda k: k.fields['value'],
                       'function': lambda f: f, 'unique': lambda r, n: True, 'lower': str.lower}, self=Thing(source=Thing(registries=[Thing(name='libc')]), registries=[Thing(name='libc')]), filename='mccode-r.h.in', flavor='mcstas')
    config = {'mcstas': Config({k: Thing(value=v) for k, v in values.items()}), 'mcxtrace': Config()}
    known[Sym('mccode_antlr.config.config')] = config
    known['confuse.LazyConfig'] = Given(lambda *a: config)
    known[Sym('__name__')] = 'm'
    known['__name__'] = 'm'
    known['re.sub'] = Given(replaced(known))
    known['sub'] = Given(lambda r, *a: replaced(known)(r, *a))
    try:
        got = without_comments(F.text(m, known)).strip()
    except (Undecided, *FAIL) as x:
        F.undecided('a configured file', x)
    else:
        F.check('located', 'configured file', got == right, f'the header {text!r} is configured as {got!r}', m)


def without_comments(text):
    return re.sub(r'/\*.*?\*/', '', text, flags=re.S)


def frame(F):
    given = {'library_path': lambda v, n: n, 'include_path': lambda v, n=None: f'/lib/{n or ""}', 'importlib.resources.as_file': lambda q: q, 'as_file': lambda q: q, 'enter': lambda q: q,
             'open': lambda q, *a, **k: q, 'read': lambda q, *a: f'<{q}>', 'read_text': lambda q, *a: f'<{q}>', 'header_pre_runtime': lambda flag, *a: f'<before {flag}>',
             'header_post_runtime': lambda *a: '<after>', 'get': lambda d, k, *a: d.get(k, *a), 'configure_file': lambda *a: None, 'cogen_getvarpars_fct': lambda *a: '<parameters>',
             'cogen_getparticlevar_fct': lambda *a: '<particle>', 'cogen_getcompindex_fct': lambda *a: '<indices>', 'ditems': lambda d: list(d.items()), 'values': lambda d: list(d.values())}
    m = F.of(T, 'visit_header', output=True)
    for project, flavour in ((1, 'mcstas'), (2, 'mcxtrace')):
        for runtime in (True, False):
            me = Thing(source=Thing(name='I'), runtime={'project': project}, config={'include_runtime': runtime}, instrument_uservars=[], component_uservars={}, verbose=False)
            what = f'start of a {flavour} program' + ('' if runtime else ' without its runtime')
            try:
                known = giving(m, given, self=me)
                text = without_comments(F.text(m, known))
                asked = [tuple(items(e.data[2].items, m.norm, k)) for e in m.I.events if e.kind == 'mcall' and e.data[1] == 'configure_file' for k in occurrences(m, e, known)]
            except (Undecided, *FAIL) as x:
                F.undecided(what, x)
                continue
            right = [f'<before {project == 1}>', '#define MC_EMBEDDED_RUNTIME', f'<{flavour}-r.h>', '<mccode-r.c>', f'<{flavour}-r.c>', '<after>'] if runtime else \
                [f'<before {project == 1}>', '#include "/lib/mccode-r.h"', f'#include "/lib/{flavour}-r.h"', '<after>']
            F.check('frame', what, lines(text) == right, f'the {what} is {lines(text)} instead of {right}', m)
            F.check('frame', f'configured header of a {flavour} program, {runtime}', asked == ([('mccode-r.h.in', flavour)] if runtime else []),
                    f'the configured header is {asked} in the {what}', m)
    m = F.of(T, 'visit_macros', output=True)
    try:
        text = without_comments(F.text(m, giving(m, given, self=Thing(source=Thing(name='I'), instrument_uservars=[], component_uservars={}))))
    except (Undecided, *FAIL) as x:
        F.undecided('the end of a program', x)
    else:
        got = re.findall(r'<[^>]*>', text)
        F.check('frame', 'end of a program', sorted(got[:3]) == ['<indices>', '<parameters>', '<particle>'] and got[3:] == ['<metadata-r.c>', '<mccode_main.c>'], f'the program ends with {got}', m)
    m = F.of('TargetVisitor', 'translate', output=False, steps=VISITS + ('info',))
    calls = [(e.data[1], [c for c, _ in e.pc], len(e.loops)) for e in m.I.events if e.kind == 'mcall' and e.data[1] in VISITS]
    names = [n for n, _, _ in calls]
    if not names:
        F.rep.note('not decided: the order of the parts of a program')
    else:
        F.check('frame', 'parts of a program', tuple(names) == VISITS, f'the parts of the program are written as {names}', m)


def given_text(F):
    """what is asked for is the whole text of the program"""
    m = F.of('TargetVisitor', 'contents', steps=('translate',))
    made = Thing(text='the new program')
    g = {'translate': lambda v, *a, **k: made, 'getvalue': lambda o: o.fields['text'], 'close': lambda o: None}
    for there in (None, Thing(text='the program')):
        F.outcome_of('frame', f'text of a program{"" if there else " that is not written yet"}', m, giving(m, g, self=Thing(output=there)), ('value', (there or made).fields['text']))
    m = F.of('TargetVisitor', 'save', 'filename', 'close', 'reprocess', steps=('translate',))
    for name in ('file.c', None):
        known = giving(m, g, self=Thing(output=Thing(text='the program')), filename=name, close=True, reprocess=True)
        known.update({'open': Given(lambda q, *a, **k: q), 'enter': Given(lambda q: q)})
        try:
            wrote = [(value(m.freeze(e.data[0]), m.norm, k), value(m.freeze(e.data[2].items[0]), m.norm, k)) for e in m.I.events if e.kind == 'mcall' and e.data[1] in ('write', 'write_text')
                     for k in occurrences(m, e, known)]
        except (Undecided, *FAIL) as x:
            F.undecided('a saved program', x)
        else:
            F.check('frame', f'saved program {name}', wrote == ([('file.c', 'the program')] if name else []), f'for the file {name} it writes {wrote}', m)
    for name in ('save', 'contents'):
        m = F.of('TargetVisitor', name, *(('filename', 'close', 'reprocess') if name == 'save' else ()), steps=('translate',))
        at = {e.data[1]: i for i, e in reversed(list(enumerate(m.I.events))) if e.kind == 'mcall'}
        if 'close' in at and 'getvalue' in at:
            F.check('frame', f'{name} before it closes', at['getvalue'] < at['close'], f'{name} closes the text before it is read', m)
    m = F.of('TargetVisitor', 'translate', 'reprocess', steps=VISITS + ('info',))
    for there in (None, Thing(text='the program')):
        for again in (True, False):
            known = giving(m, g, self=Thing(output=there), reprocess=again)
            known[Sym('reprocess')] = again
            try:
                # what it does after it gave back what there is is not done
                gone = not happenings(m, VISITS[:1], known)
            except (Undecided, *FAIL) as x:
                F.undecided('a program that is written twice', x)
                continue
            F.check('frame', f'a program that is {"there" if there else "not there"}, {again}', gone == (there is not None and not again),
                    f'a program that {"is" if there else "is not"} there is {"not " if gone else ""}written when it is {"to be written again" if again else "asked for"}', m)


VISITS = ('visit_header', 'visit_declare', 'set_jump_absolute_targets', 'detect_skipable_transforms', 'visit_initialize', 'enter_trace', 'enter_uservars', 'visit_raytrace', 'visit_raytrace_funnel',
          'leave_uservars', 'leave_trace', 'visit_save', 'visit_finally', 'visit_display', 'visit_macros', 'visit_flags')


def types(F):
    m = F.of(T, '_parse_libraries_for_typedefs')

    def defined(text, *a, user_types=None, **k):
        user_types = list(a[0] if a else user_types or [])
        return [n for n, needs in (x.split('<') for x in text.split()) if all(y in user_types for y in needs.split(',') if y)]
    given = {'extract_c_defined_types': defined, 'parse': defined, 'component_types': lambda s: s.fields['types'], 'to_c': lambda b: b.fields['text'], 'union': lambda a, b: a + [x for x in b if x not in a], 'unordered': lambda x: x}
    for heads, shares, right in ((['ta<', 'tb<ta'], [[], ['tc<tb', 'td<tc'], ['te<td']], ['ta', 'tb', 'tc', 'td', 'te']), ([], [['a<']], ['a']), (['a<'], [], ['a']), ([], [], [])):
        source = Thing(types=[Thing(share=[Thing(text=x) for x in s]) for s in shares])
        me = Thing(source=source, includes=[inc('I', f'l{i}', i, h) for i, h in enumerate(heads)])
        what = f'types of {len(heads)} libraries and {len(shares)} component types'
        for e in m.I.events:
            if e.kind == 'setattr' and e.data[1] == 'typedefs':
                try:
                    got = sorted(set(value(m.freeze(e.data[2]), m.norm, giving(m, given, self=me))))
                except (Undecided, *FAIL) as x:
                    F.undecided(what, x)
                    continue
                F.check('types', what, got == right, f'the {what} are {got} instead of {right}', m)
