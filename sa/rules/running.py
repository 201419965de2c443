"""C22: an instrument is compiled and run as was asked for, at each point of a scan with the values of this point"""
from __future__ import annotations
from enum import Flag, auto
from itertools import product
from pathlib import PurePosixPath as P
from types import SimpleNamespace as S
from ..absint import K, App, Phi, Term, Const, walk
from ..reread import value, bound, Given, Thing, Unknown
from ..spec import World
from ..project import AnalysisBroken
from .whole import where
from .registries import Cases, Undecided, Failed, outcome, search, ready, listed, show

HARD = (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError)


class Kind(Flag):
    single = auto()
    acc = auto()
    mpi = auto()
    nexus = auto()


WORDS = {'cc': '-ccflag -O2', 'acc': '-accflag -DOPENACC', 'mpi': '-mpiflag -DUSE_MPI', 'nexus': '-DUSE_NEXUS -lNeXus', 'ld': '-lm -ldflag'}
CONFIG = {'acc': 'the-acc', 'cc': 'the-cc', 'mpi': {'cc': 'the-mpicc', 'run': 'the-mpirun'}, 'flags': WORDS, 'ext': '.ext',
          'machinefile': '/the/machinefile'}
TYPES = {f'Type.{k.name}': k for k in (Kind.single, Kind.acc, Kind.mpi, Kind.nexus)} | {'Type': Given(lambda v=0, **k: Kind(v)), 'enum:Type': Given(lambda v=0, **k: Kind(v))}


def configured(files=(), **more):
    there = {str(x) for x in files}
    return {**TYPES, 'confuse.LazyConfig': Given(lambda *a: CONFIG), '__name__': 'm', 'str': 'str', 'pathlib.Path': P,
            'as_str_expanded': Given(lambda v: v if isinstance(v, str) else 1 / 0), 'as_str': Given(lambda v: v),
            'get': Given(lambda d, k=None, default=None: d.get(k, default) if isinstance(d, dict) else d),
            'exists': Given(lambda v: str(v) in there), 'is_file': Given(lambda v: str(v) in there),
            'platform.system': Given(lambda: 'Linux'), 'resolve': Given(lambda v: v), 'items': Given(lambda d: list(d.items())),
            'copy': Given(lambda d: dict(d)), **more}


def kind(mpi, acc, nexus):
    k = Kind(0)
    for on, x in ((mpi, Kind.mpi), (acc, Kind.acc)):
        if on:
            k |= x
    return (k or Kind.single) | (Kind.nexus if nexus else Kind(0))


def happenings(m, names, known):
    """the calls of these functions or methods with these values: [(name, receiver, arguments, named arguments)]"""
    out = []
    over = next((e for e in m.I.events if e.kind in ('return', 'raise') and e.func is m.f and not e.loops and hit(m, e, known)), None)
    for e in m.I.events:
        if e is over:
            break
        if e.kind == 'call':
            fn = e.data[0]
            while isinstance(fn, Phi):
                c = evaluated(m, fn.cond, known)
                if isinstance(c, str) and c.startswith('not decided'):
                    raise Undecided(c)
                fn = fn.a if c else fn.b
            name = m.norm(m.freeze(fn)) if not isinstance(fn, str) else fn
            name = name if isinstance(name, str) else getattr(name, 'name', '')
            name, recv, args, kw = name.strip('<>').replace(':', '.'), None, e.data[1], e.data[2]
        elif e.kind == 'mcall':
            name, recv, args, kw = e.data[1], e.data[0], e.data[2], e.data[3]
        else:
            continue
        n = next((x for x in names if name == x or name.endswith('.' + x)), None)
        if n is None:
            continue
        for k in settings(m, e, known):
            try:
                out.append((n, None if recv is None else value(ready(m, recv), m.norm, k), value(ready(m, args), m.norm, k),
                            dict(value(ready(m, kw), m.norm, k))))
            except HARD as x:
                raise Undecided(f'{n}({m.norm(m.freeze(args))[:100]}) ({type(x).__name__})')
    return out


def settings(m, e, known):
    """what is known each time that this event happens"""
    at = [known]
    for lid, base in e.loops:
        new = []
        for k in at:
            try:
                new += list(bound(m.freeze(base), lid, m.norm, k))
            except HARD:
                raise Undecided(m.norm(m.freeze(base))[:100])
        at = new
    conds = [(ready(m, c), pol) for c, pol in e.pc]
    conds = [(c, pol) for c, pol in conds if not (isinstance(c, App) and c.fn == 'in_loop')]
    return [k for k in at if search(m, conds, [], k) is not None]


def hit(m, e, known):
    from .registries import first
    return first(m, e, known) is not None


def evaluated(m, t, known):
    try:
        return value(ready(m, t), m.norm, known)
    except HARD as x:
        return f'not decided, because of {m.norm(m.freeze(t))[:120]} ({type(x).__name__})'


def c22(p, rep):
    F = Cases(p, rep)
    for r, text in RULES:
        rep.rule(r, text)
    kinds(F)
    flags(F)
    compiling(F)
    executing(F)
    arguments(F)
    ranges(F)
    scanning(F)
    scan_runs(F)
    handing(F)
    asked(F)
    for r, n in (('kind', 100), ('flags', 20), ('compile', 40), ('run', 80), ('argument', 60), ('points', 80), ('scan', 15), ('handed', 120)):
        rep.need(r, n, 'cases')


RULES = (
    ('kind', 'a target is of the kind that is asked for, and has the compiler and the flags of this kind'),
    ('flags', 'each flag of the instrument and of the kind of target is a word of the command, those to link with after the source'),
    ('compile', 'the source of the instrument is compiled to the file that is asked for, an existing one is kept unless it is to be '
                'replaced, and a failure is an error'),
    ('argument', 'each runtime argument that is given reaches the binary with its value, and no other'),
    ('points', 'a scan has the points that its ranges and lists make up, and no two are the same run'),
    ('scan', 'each point is run once with its own values in its own folder, and its result is given in order'),
    ('handed', 'what a command or function is asked for is what it hands on'),
    ('run', 'the command that is run is the binary with its options, under mpirun for MPI, and a failure is an error'),
)


def kinds(F):
    every = list(product((False, True), repeat=3))
    m = F.method('CBinaryTarget', '__init__', 'mpi', 'acc', 'count', 'nexus', steps=(), opaque=())
    for mpi, acc, nexus in every:
        known = configured(mpi=mpi, acc=acc, nexus=nexus, count=3)
        c = f'mpi {mpi}, acc {acc}, nexus {nexus}'
        got = evaluated(m, m.field('type'), known), evaluated(m, m.field('count'), known)
        F.check('kind', f'new: {c}', got == (kind(mpi, acc, nexus), 3), f'a target with {c} has the type and count {got}', m)
    m = F.method('CBinaryTarget', 'update', 'd', steps=(), opaque=())
    for old in every:
        for more in ({}, {'mpi': True}, {'mpi': False}, {'acc': True}, {'acc': False}, {'nexus': True}, {'nexus': False}, {'count': 7},
                     {'count': 0}, {'mpi': True, 'acc': True}, {'mpi': False, 'acc': False, 'count': 2, 'nexus': False}):
            new = {**dict(zip(('mpi', 'acc', 'nexus'), old)), 'count': 3, **more}
            right = kind(new['mpi'], new['acc'], new['nexus']), new['count']
            known = configured(d=more, **{'self.type': kind(*old), 'self.count': 3})
            got = evaluated(m, m.field('type'), known), evaluated(m, m.field('count'), known)
            F.check('kind', f'{old} updated with {more}', got == right, f'{kind(*old)} updated with {more} has the type and count {got}', m)
    for q, right in (('compiler', lambda mpi, acc, nexus: 'the-acc' if acc else 'the-mpicc' if mpi else 'the-cc'),
                     ('flags', lambda mpi, acc, nexus: WORDS['acc' if acc else 'cc'].split()),
                     ('extra_flags', lambda mpi, acc, nexus: (WORDS['mpi'].split() if mpi else []) + (WORDS['nexus'].split() if nexus else [])),
                     ('linker_flags', lambda mpi, acc, nexus: WORDS['ld'].split())):
        m = F.method('CBinaryTarget', q, steps=(), opaque=())
        for k in every:
            F.case('kind', f'{q} of {k}', m, configured(**{'self.type': kind(*k)}), ('value', right(*k)), f'the {q} of {kind(*k)}')


def flags(F):
    m = F.function('linux_split_flags', 'instrument', 'target', steps=('Instr.decoded_flags',), opaque=())
    for k in product((False, True), repeat=3):
        mpi, acc, nexus = k
        for own in ([], ['-la -lb', '-I/x'], ['-DFUNNEL', '-DFUNNEL2 -Wl,-rpath -L/lib', '-lz'], ['-Xl -a -Xl -b', '-lm', '', '-lz -la -lz', ' -a ']):
            known = configured(instrument=Thing(), target=Thing(), **{'target.type': kind(*k), 'decoded_flags': Given(lambda *a: own)})
            comp = WORDS['acc' if acc else 'cc'].split() + (WORDS['mpi'].split() if mpi else []) + (WORDS['nexus'].split() if nexus else [])
            link = WORDS['ld'].split() + [w for f in own for w in f.split()]
            F.case('flags', f'{k} {own}', m, known,
                   lambda g: g[0] == 'value' and [x for x in g[1][0] if x != '-D__GNUC__'] == comp and g[1][1] == link,
                   f'the words for {kind(*k)} and the flags {own} of the instrument')
    m = F.function('linux_compile', 'compiler', 'compiler_flags', 'target', 'linker_flags', 'source', steps=(), opaque=())
    known = configured(compiler='the-cc', compiler_flags=['-c', '-d'], target=P('/a b/out'), linker_flags=['-lx', '-ly'], source='int x;')
    command(F, 'flags', 'the command', m, known, lambda w: w[0] == 'the-cc' and w[1:].count('-') == 1 and '-o' in w
            and w[w.index('-o') + 1] == '/a b/out' and sorted(w) == sorted(['the-cc', '-c', '-d', '-o', '/a b/out', '-', '-lx', '-ly'])
            and [x for x in w if x in ('-c', '-d')] == ['-c', '-d'] and w.index('-') < w.index('-lx') < w.index('-ly'), dict(input='int x;'))


def command(F, rule, c, m, known, right, named=None):
    try:
        runs = happenings(m, ('subprocess.run', 'run', 'Popen', 'check_output', 'call', 'check_call'), known)
    except Undecided as x:
        return F.rep.bad(rule, c, f'not decided, because of {x}', where(m.f))
    if right is None:
        return F.check(rule, c, not runs, f'{c}: {runs} is run', m)
    good = len(runs) == 1 and isinstance(runs[0][2][0], list) and right(runs[0][2][0]) \
        and all(runs[0][3].get(k) == v for k, v in (named or {}).items()) and not runs[0][3].get('shell')
    F.check(rule, c, good, f'{c}: what is run is {[(r[2], r[3]) for r in runs]}', m)


COMPILE = ('instrument_source', 'linux_split_flags', 'windows_split_flags', 'linux_compile', 'windows_compile', 'compiler')


def compiling(F):
    names = ('instrument', 'target', 'output', 'replace', 'dump_source')
    m = F.function('_compile_instrument', *names, steps=COMPILE, opaque=())
    inst = Thing(name='Inst', flags=[])

    def known(output, there, code=0, replace=False, dirs=('.', '/dir'), readable=True):
        return configured(there, instrument=inst, **{'instrument.name': 'Inst', 'target': 'the target', 'target.compiler': 'the-cc'}, output=output, replace=replace,
                          dump_source=False, is_dir=Given(lambda q: str(q) in dirs), isinstance=Given(lambda x, *a: isinstance(x, P)),
                          instrument_source=Given(lambda *a, **k: 'the source'), kwargs={},
                          linux_split_flags=Given(lambda i, t: (['-c'], ['-l'])), compiler=Given(lambda t: 'the-cc'),
                          linux_compile=Given(lambda *a: (['the', 'command'], Thing(returncode=code, stdout='', stderr=''))),
                          **{'os.access': Given(lambda *a: readable), 'os.R_OK': 4, 'os.X_OK': 1})
    w = World({}, {})
    for given, file in (('/dir/x.out', '/dir/x.out'), (P('/dir/x.out'), '/dir/x.out'), ('/dir', '/dir/Inst.ext'), (P('/dir'), '/dir/Inst.ext'),
                        (None, 'Inst.ext')):
        for what, k, right in (('that there is, is kept', known(given, [file]), ('value', P(file))),
                               ('is replaced', known(given, [file], replace=True), ('value', P(file))),
                               ('that fails', known(given, [file], 1, replace=True), ('error',)),
                               ('that fails by a signal', known(given, [file], -9, replace=True), ('error',)),
                               ('that does not come to be', known(given, []), ('error',)),
                               ('that is not readable', known(given, [file], replace=True, readable=False), ('error',))):
            c = f'output {given!r} {what}'
            F.case('compile', c, m, k, right, c)
            try:
                calls = happenings(m, ('linux_compile',), k)
            except Undecided as x:
                calls = f'not decided, because of {x}'
            right = [] if what == 'that there is, is kept' else [('linux_compile', None, ['the-cc', ['-c'], P(file), ['-l'], 'the source'], {})]
            F.check('compile', f'{c}, calls', calls == right, f'{c}: compiled are {calls} instead of {right}', m)


def critical(m, numbers):
    """these numbers and those around each number that the function compares or makes something of"""

    def terms(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                yield from terms(y)
        elif isinstance(x, Term):
            yield from walk(x)
    found = {x.v for e in m.I.events for x in terms([e.pc, e.data, m.raw]) if isinstance(x, Const) and type(x.v) is int and abs(x.v) < 10 ** 6}
    return sorted({*numbers, *(v + d for v in found for d in (-1, 0, 1) if v + d >= 0)})


def executing(F):
    m = F.function('run_compiled_instrument', 'binary', 'target', 'options', 'capture', 'dry_run', steps=(), opaque=())
    there = ['/bin/inst', CONFIG['machinefile']]

    def known(k, count=0, options=(), capture=True, dry=False, files=there, code=0):
        return configured(files, binary=P('/bin/inst'), options=options, capture=capture, dry_run=dry, **{
            'target.type': k, 'target.count': count, 'isinstance': Given(lambda x, *a: isinstance(x, str)), 'print': Given(lambda *a: None),
            'subprocess.run': Given(lambda c, **kw: Thing(returncode=code, stdout='out', stderr='err'))})
    mine = ['--dir', '/a b/c', 'x=1', 'y=2']
    for mpi, acc, nexus in product((False, True), repeat=3):
        if mpi and acc:
            continue
        k = kind(mpi, acc, nexus)
        for count, options, files in product(critical(m, (0, 1, 2, 4, 64)), (mine, 'x=1 y=2 --ncount=7'), (there, there[:1])):
            words = options if isinstance(options, list) else options.split()
            mf = ['-machinefile', CONFIG['machinefile']] if files is there else []
            right = (['the-mpirun'] + (['-np', str(count)] if count else []) + mf if mpi else []) + ['/bin/inst', *words]
            c = f'{k} of {count} with {options} and {"a" if mf else "no"} machine file'
            command(F, 'run', c, m, known(k, count, options, files=files), lambda w: w == right)
        for capture in (False, True):
            for code in (1, -11):
                c = f'{k} that fails with {code}, output {"kept" if capture else "shown"}'
                F.case('run', c, m, known(k, 0, mine, capture, code=code), ('error',), c)
            c = f'{k} that succeeds, output {"kept" if capture else "shown"}'
            F.case('run', c, m, known(k, 0, mine, capture), ('value', 'outerr' if capture else ''), c)
            c = f'{k} that is not run, output {"kept" if capture else "shown"}'
            command(F, 'run', c, m, known(k, 0, mine, capture, dry=True), None)
            F.case('run', c + ' gives', m, known(k, 0, mine, capture, dry=True, code=1), lambda g: g[0] == 'value', c)
            c = f'{k} of a file that is not there, output {"kept" if capture else "shown"}'
            command(F, 'run', c, m, known(k, 0, mine, capture, files=[]), None)
            F.case('run', c + ' gives', m, known(k, 0, mine, capture, files=[]), ('error',), c)


SENT = {'seed': 0, 'ncount': 1000.0, 'dir': '/out', 'bufsiz': 5, 'format': 'NeXus'}
OTHER_NAMES = {'seed': ('seed', 's'), 'ncount': ('ncount', 'n'), 'dir': ('dir', 'out_dir', 'd'), 'trace': ('trace', 't'),
               'gravitation': ('gravitation', 'g'), 'bufsiz': ('bufsiz',), 'format': ('format',)}


def arguments(F):
    m = F.function('mccode_runtime_dict_to_args_list', 'args', steps=(), opaque=())
    words = lambda g: sorted(g[1]) if g[0] == 'value' and isinstance(g[1], (list, tuple)) else g
    for k, v in SENT.items():
        for x, right in ((None, []), *((x, [f'--{k}={x}']) for x in (v, *(critical(m, (0, 1, 7, 10 ** 7)) if k not in ('dir', 'format') else ())))):
            F.case('argument', f'{k} {x!r}', m, configured(args={k: x}), lambda g: words(g) == right, f'the arguments for {k} {x!r}')
    for k in ('trace', 'gravitation'):
        for x, right in ((True, [f'--{k}']), (False, []), (None, [])):
            F.case('argument', f'{k} {x!r}', m, configured(args={k: x}), lambda g: words(g) == right, f'the arguments for {k} {x!r}')
    every = {**SENT, 'trace': True, 'gravitation': True}
    F.case('argument', 'every one', m, configured(args=every), lambda g: words(g) == sorted(
        [f'--{k}={v}' for k, v in SENT.items()] + ['--trace', '--gravitation']), 'the arguments for every one')
    F.case('argument', 'none', m, configured(args={}), lambda g: words(g) == [], 'the arguments for none')
    m = F.function('regular_mccode_runtime_dict', 'args', steps=(), opaque=())
    for k, names in OTHER_NAMES.items():
        for n in names:
            for v in (3, 0, None, False):
                F.case('argument', f'{n} = {v!r} is {k}', m, configured(args={n: v, 'else': 1}), ('value', {k: v}), f'the argument {n} = {v!r}')
    F.case('argument', 'two names', m, configured(args={'n': 1, 'ncount': 2, 's': 5}), ('value', {'seed': 5, 'ncount': 2}), 'two names of one')
    m = F.function('mccode_runtime_parameters', 'args', 'params', steps=('mccode_runtime_dict_to_args_list',), opaque=())
    for params in ({'a': 1, 'b': -2.5, 'Title': 'x_y'}, {}, {'z': 0}):
        for flags in (['--seed=1', '--trace'], []):
            known = configured(args='the args', params=params, mccode_runtime_dict_to_args_list=Given(lambda a: flags))
            F.case('argument', f'{params} {flags}', m, known, lambda g: g[0] == 'value' and isinstance(g[1], str) and
                   g[1].split() == flags + [f'{k}={v}' for k, v in params.items()], f'the text for {flags} and {params}')


class Values(Thing):
    """a list, range or single value of a parameter"""

    def __init__(self, cls, values=(), **fields):
        super().__init__(**fields)
        self.cls, self.values = cls, list(values)

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]


def mrange(start, stop, step):
    n = max(0, int((stop - start) / step + 1e-9) + 1)
    return Values('MRange', [start + i * step for i in range(n)], start=start, stop=stop, step=step, min=start, max=stop)


def singular(value, maximum=None):
    return Values('Singular', [value] * (maximum or 0), value=value, maximum=maximum, min=value, max=value)


def number(x):
    for f in (int, float):
        try:
            return f(x)
        except (TypeError, ValueError):
            pass
    return x


MADE = {'new:MRange': Given(lambda **k: ('MRange', k['start'], k['stop'], k['step'])),
        'new:Singular': Given(lambda **k: ('Singular', k['value'], k.get('maximum')))}


def ranges(F):
    m = {n: F.method('MRange', n, *(['index'] if n == '__getitem__' else []), steps=(), opaque=()) for n in ('__len__', '__iter__', '__getitem__')}
    from math import floor, ceil
    for a, b, s in ((0, 10, 2), (0, 10, 3), (10, 0, -5), (10, 1, -4), (1.5, 3, 0.5), (-4, 4, 4), (1, 2, 5), (0, 1, 0.25)):
        r = mrange(a, b, s)
        known = configured(**{'self': r, 'self.start': a, 'self.stop': b, 'self.step': s, 'len': Given(len),
                              'math.floor': Given(floor), 'math.ceil': Given(ceil), 'round': Given(round), 'floordiv': Given(lambda x, y: x // y)})
        F.case('points', f'{a}:{s}:{b} length', m['__len__'], known, ('value', len(r)), f'the length of {a}:{s}:{b}')
        F.case('points', f'{a}:{s}:{b} values', m['__iter__'], known, ('value', r.values), f'the values of {a}:{s}:{b}')
        for i in (*range(len(r)), -1, len(r)):
            F.case('points', f'{a}:{s}:{b} at {i}', m['__getitem__'], {**known, 'index': i},
                   ('value', r.values[i]) if 0 <= i < len(r) else ('error',), f'value {i} of {a}:{s}:{b}')
    m = F.method('MRange', '__init__', 'start', 'stop', 'step', steps=(), opaque=())
    for a, b, s, good in ((0, 1, 1, True), (1, 0, -1, True), (1, 1, 1, False), (0, 1, 0, False), (0, 1, -1, False), (1, 0, 1, False)):
        known = configured(start=a, stop=b, step=s, **{'self.start': a, 'self.stop': b, 'self.step': s})
        F.case('points', f'new {a}:{s}:{b}', m, known, lambda g: (g[0] == 'value') is good, f'a new range {a}:{s}:{b}')
        got = [evaluated(m, m.field(x), known) for x in ('start', 'stop', 'step')]
        F.check('points', f'new {a}:{s}:{b} has', got == [a, b, s], f'a new range {a}:{s}:{b} has {got}', m)
    m = F.method('Singular', '__init__', 'value', 'maximum', steps=(), opaque=())
    got = [evaluated(m, m.field(x), {'value': 'v', 'maximum': 5}) for x in ('value', 'maximum')]
    F.check('points', 'new single value', got == ['v', 5], f'a new single value has {got}', m)
    m = F.method('Singular', '__iter__', steps=(), opaque=())
    for n in (1, 2, 5):
        known = configured(**{'self.value': 'v', 'self.maximum': n, 'itertools.repeat': Given(lambda v, n=None: [v] * n if n is not None else 1 / 0)})
        F.case('points', f'single value {n} times', m, known, lambda g: g[0] == 'value' and list(g[1]) == ['v'] * n, f'the values of a single value {n} times')
    m = F.method('Singular', '__len__', steps=(), opaque=())
    F.case('points', 'single value, length', m, {'self.maximum': 4}, ('value', 4), 'the length of a single value 4 times')
    m = F.function('_MRange_or_Singular', 's', steps=(), opaque=())
    for text, right in (('1:5', ('MRange', 1, 5, 1)), ('1:2:9', ('MRange', 1, 9, 2)), ('0:0.5:2', ('MRange', 0, 2, 0.5)), ('9:-3:0', ('MRange', 9, 0, -3)),
                        ('5', ('Singular', 5, None)), ('2.5', ('Singular', 2.5, None)), ('abc', ('Singular', 'abc', None)), ('1:2:3:4', None)):
        known = configured(s=text, int=Given(number), float=Given(number), **MADE)
        F.case('points', f'text {text!r}', m, known, ('value', right) if right else ('error',), f'the range of {text!r}')


def scanning(F):
    rows = lambda g: (g[1][0], list(g[1][1]), [tuple(x) for x in g[1][2]]) if g[0] == 'value' else g
    lst = lambda *v: Values('list', v)
    from math import prod
    more = {'itertools.product': Given(lambda *a: list(product(*a))), 'math.prod': Given(prod), 'len': Given(lambda x: len(x)), 'str': 'str',
            'list': Given(lambda x: list(x)),
            'isinstance': Given(lambda x, c: (x.cls if isinstance(x, Values) else type(x).__name__) in (c if isinstance(c, (list, tuple)) else (c,))),
            'hasattr': Given(lambda x, n: hasattr(x, n) or isinstance(x, Thing) and n in x.fields),
            'new:Singular': Given(lambda value, maximum=None: singular(value, maximum))}
    for grid in (False, True):
        m = F.function('parameters_to_scan', 'parameters', K(grid), steps=(), opaque=())
        for params, linear, square in (
                ({'a': mrange(0, 4, 2), 'b': mrange(5, 7, 1)}, [(0, 5), (2, 6), (4, 7)], [(x, y) for x in (0, 2, 4) for y in (5, 6, 7)]),
                ({'a': lst(1, 2, 3), 'B': singular(9, 3)}, [(1, 9), (2, 9), (3, 9)], [(1, 9), (2, 9), (3, 9)]),
                ({'s': singular('x', 2), 'a': mrange(3, 1, -2), 't': singular(0, 2)}, [('x', 3, 0), ('x', 1, 0)], [('x', 3, 0), ('x', 1, 0)]),
                ({'a': lst(4), 'b': lst(1, 2)}, [(4, 1), (4, 2)], [(4, 1), (4, 2)]),
                ({'a': 5, 'name': 'text', 'b': 0.5}, [(5, 'text', 0.5)], [(5, 'text', 0.5)]),
                ({'a': 5, 'b': lst(1, 2)}, [(5, 1), (5, 2)], [(5, 1), (5, 2)]),
                ({'name': 'text', 'b': mrange(0, 1, 1)}, [('text', 0), ('text', 1)], [('text', 0), ('text', 1)]),
                ({'a': singular(3, 1)}, [(3,)], [(3,)]),
                ({'a': mrange(0, 4, 2), 'b': mrange(5, 6, 1)}, None, [(x, y) for x in (0, 2, 4) for y in (5, 6)]),
                ({'a': lst(1, 2), 'b': lst(3, 4), 'c': lst(5, 6, 7)}, None, list(product((1, 2), (3, 4), (5, 6, 7))))):
            right = square if grid else linear
            c = f'{"grid" if grid else "linear"} scan of {({k: v.values if isinstance(v, Values) else v for k, v in params.items()})}'
            F.case('points', c, m, {**configured(parameters=params), **more}, (lambda g: rows(g) == (len(right), list(params), right)) if right else ('error',), c)
        F.case('points', f'{"grid" if grid else "linear"} scan of nothing', m, {**configured(parameters={}), **more},
               lambda g: g[0] == 'value' and g[1][0] == 0 and list(g[1][1]) == list(g[1][2]) == [], 'a scan of nothing')
    m = F.function('parse_scan_parameters', 'unparsed', steps=('parse_command_line_parameters',), opaque=())
    for n, params in ((3, {'a': mrange(0, 2, 1), 'b': singular('x'), 'c': mrange(0, 1, 1)}), (1, {'b': singular(1), 'c': singular(2)}), (1, {})):
        known = {**configured(parse_command_line_parameters=Given(lambda u: params), unparsed='u'), **more}
        try:
            got = dict(params)
            for e in m.I.events:
                if e.kind == 'setitem':
                    for k in settings(m, e, known):
                        got[value(ready(m, e.data[1]), m.norm, k)] = value(ready(m, e.data[2]), m.norm, k)
            r = value(ready(m, m.raw), m.norm, known)
            if r is not params:
                got = r
            got = {k: (v.values if v.cls == 'MRange' else (v.fields['value'], v.fields['maximum'])) for k, v in got.items()}
        except (*HARD, Undecided) as x:
            got = f'not decided, because of {x}'
        right = {k: v.values if v.cls == 'MRange' else (v.fields['value'], n) for k, v in params.items()}
        F.check('points', f'command line {right}', got == right, f'the parameters of a command line are {got} instead of {right}', m)


SCAN = ('parameters_to_scan', 'regular_mccode_runtime_dict', 'mccode_runtime_parameters', 'mccode_run_compiled')


def scan_runs(F):
    m = F.function('mccode_run_scan', 'name', 'binary', 'target', 'parameters', 'directory', 'grid', 'capture', 'dry_run', steps=SCAN, opaque=(),
                   kwargs={'seed': K(1), 'ncount': K(2)})

    def known(scan, names, directory, **more):
        return configured(name='n', binary='B', target='T', parameters='P', directory=directory, grid='G', capture='C', dry_run='D',
                          parameters_to_scan=Given(lambda p, grid=None: [len(scan), names, scan] if (p, grid) == ('P', 'G') else 1 / 0),
                          regular_mccode_runtime_dict=Given(lambda a: ('regular', a)), mccode_runtime_parameters=Given(lambda a, p: (a, p)),
                          mccode_run_compiled=Given(lambda b, t, d, p, **k: (f'ran {p[1]}', d)), mkdir=Given(lambda *a, **k: None), iter=Given(iter),
                          now=Given(lambda *a: 'now'), strftime=Given(lambda *a: 'time'), zfill=Given(str.zfill), **{'datetime.datetime': 'datetime'}, **more)
    args = ('regular', {'seed': 1, 'ncount': 2})
    for scan, names in (([(1, 'x'), (2, 'y'), (3, 'z')], ['a', 'B']), ([(v,) for v in range(12)], ['a']), ([(5, 6)], ['a', 'b']), ([], [])):
        for directory in ('/out dir/o', P('/out dir/o'), None):
            k = known(scan, names, directory)
            c = f'{len(scan)} points of {names} in {directory!r}'
            want = [(args, dict(zip(names, v))) for v in scan or [()]]
            top = P('/out dir/o') if directory else P('ntime')
            try:
                runs = happenings(m, ('mccode_run_compiled',), k)
                dirs = [P(r[2][2]) for r in runs]
                good = [r[2][:2] + r[2][3:] for r in runs] == [['B', 'T', w] for w in want] and all(
                    r[3] == {'capture': 'C', 'dry_run': 'D'} for r in runs) and len(set(dirs)) == len(runs)
                good = good and (all(d.parent == top for d in dirs) if len(scan) > 1 else dirs == [top])
            except (Undecided, TypeError, IndexError) as x:
                good, runs = False, f'not decided, because of {x}'
            F.check('scan', c, good, f'{c}: the runs are {str(runs)[:200]}', m)
            try:
                made = [(r[1], r[3]) for r in happenings(m, ('mkdir',), k)]
            except (Undecided, TypeError) as x:
                made = f'not decided, because of {x}'
            F.check('scan', c + ', folder', made == [(top if len(scan) > 1 else top.parent, dict(parents=True, exist_ok=True))],
                    f'{c}: the folders made are {made}', m)
            right = [[f'ran {w[1]}', top / str(i)] for i, w in enumerate(want)] if len(scan) > 1 else [f'ran {want[0][1]}', top]
            F.case('scan', c + ' give', m, k, lambda g: g[0] == 'value' and (same_results(g[1], right) if len(scan) > 1 else list(g[1]) == right), c)
    m = F.function('mccode_run_compiled', 'binary', 'target', 'directory', 'parameters', 'capture', 'dry_run',
                   steps=('run_compiled_instrument', 'read_mccode_dat'), opaque=())
    for directory in ('/out dir/o', P('/out dir/o')):
        k = configured(binary='B', target='T', directory=directory, parameters='--seed=1 x=2 y=z', capture='C', dry_run='D',
                       run_compiled_instrument=Given(lambda *a, **kw: 'ran'), read_mccode_dat=Given(lambda f: f'data of {f}'),
                       glob=Given(lambda q, pattern: [q / '0' / 'a.dat', q / 'b.dat'] if pattern.endswith('*.dat') else 1 / 0),
                       rglob=Given(lambda q, pattern: [q / '0' / 'a.dat', q / 'b.dat'] if pattern == '*.dat' else 1 / 0))
        c = f'a run in {directory!r}'
        try:
            runs = happenings(m, ('run_compiled_instrument',), k)
            names = ('binary', 'target', 'options', 'capture', 'dry_run')
            runs = [{**dict(zip(names, r[2])), **r[3]} for r in runs]
        except Undecided as x:
            runs = f'not decided, because of {x}'
        F.check('scan', c, runs == [dict(binary='B', target='T', options=['--dir', '/out dir/o', '--seed=1', 'x=2', 'y=z'], capture='C', dry_run='D')],
                f'{c} is {runs}', m)
        F.case('scan', c + ' gives', m, k, lambda g: g[0] == 'value' and list(g[1]) == ['ran', {'a': 'data of /out dir/o/0/a.dat', 'b': 'data of /out dir/o/b.dat'}], c)


def same_results(got, right):
    return isinstance(got, list) and [x[0] for x in got] == [x[0] for x in right]


RUN = ('mccode_run_scan', 'mccode_compile', 'parse_mccode_run_script', 'load_hdf5', 'Reader.get_instrument', 'compile_instrument',
       'compile_acc_instrument', 'compile_mpi_instrument', 'compile_c_instrument', '_compile_instrument')


def handing(F):
    compile_asked(F)
    made_with(F)
    called_from_python(F)
    called_from_shell(F)
    translated_from_shell(F)
    options(F)
    flavors(F)
    defaults(F)


def compile_asked(F):
    names = ('instrument', 'target', 'output', 'replace', 'dump_source')
    m = F.function('compile_instrument', *names, steps=RUN, opaque=(), kwargs={'generator': K('G'), 'config': K('C')})
    for k in product((False, True), repeat=3):
        known = configured(**{n: n for n in names}, **{'target.type': kind(*k)})
        fn = 'compile_acc_instrument' if k[1] else 'compile_mpi_instrument' if k[0] else 'compile_c_instrument'
        known.update({f: Given(lambda *a, **kw: 'made') for f in RUN})
        try:
            calls = [(n, {**dict(zip(names, a)), **kw}) for n, _, a, kw in happenings(m, [f for f in RUN if f.startswith('compile_')], known)]
        except Undecided as x:
            calls = f'not decided, because of {x}'
        want = {**{n: n for n in names}, 'generator': 'G', 'config': 'C'}
        F.check('handed', f'compile for {k}', calls == [(fn, want)], f'to compile for {kind(*k)} the calls are {calls} instead of {fn} with {want}', m)
        F.case('handed', f'compile for {k} gives', m, known, ('value', 'made'), f'to compile for {kind(*k)}')


def flavors(F):
    """each command is that of its flavor: name, library and generator"""
    table = (('mcstas', 'mccode', 'mcstas'), ('mcxtrace', 'mccode', 'mcxtrace'), ('mcstas_cmd', 'mccode_run_cmd', 'mcstas'),
             ('mcxtrace_cmd', 'mccode_run_cmd', 'mcxtrace'))
    def is_(flavor, what, text):
        if what == 'generator':
            return text is not None and (f"['name', '{flavor}']" in text or text.endswith(f'{flavor.upper()}_GENERATOR'))
        return text is not None and text.endswith(f'{flavor.upper()}_REGISTRY') if what == 'registry' else text in (what, '{}' if what == '[]' else what)
    for name, to, flavor in (*table, ('mcstas_run', 'mccode_run', 'mcstas'), ('mcxtrace_run', 'mccode_run', 'mcxtrace')):
        command = to != 'mccode_run'
        m = F.function(name, *(() if command else ('instrument', 'directory')), steps=('mccode', 'mccode_run_cmd', 'mccode_run'), opaque=())
        right = [flavor, 'registry', 'generator'] if command else ['instrument', 'generator', '[]', 'directory']
        done = []
        for e in m.I.events:
            fn = e.data[0] if e.kind == 'call' and isinstance(e.data[0], str) else m.norm(m.freeze(e.data[0])) if e.kind == 'call' else ''
            if fn.strip('<>').replace(':', '.').split('.')[-1] == to:
                named = [(kv.items[0].v, kv.items[1]) for kv in e.data[2].items]
                given = dict([*zip(parameters_of(F, to), e.data[1].items), *named])
                done.append([m.norm(m.freeze(given[n])).strip("'") if n in given else None for n in parameters_of(F, to)[:len(right)]])
        good = len(done) == 1 and all(is_(flavor, b, a) for a, b in zip(done[0], right))
        F.check('handed', f'{name} is {flavor}', good, f'{name} calls {to} with {done} instead of {right}', m)
    m = F.function('instrument_source', 'instrument', 'generator', 'config', 'verbose', steps=('TargetVisitor.contents', 'contents'), opaque=('CTargetVisitor',))
    names = [a.arg for a in F.p.method(F.p.find_class('CTargetVisitor'), '__init__').node.args.args][1:]
    for verbose in (True, False, None):
        known = configured(instrument='I', generator='G', config={'verbose': True, 'x': 1}, verbose=verbose)
        try:
            made = [(value(ready(m, e.data[1]), m.norm, k), dict(value(ready(m, e.data[2]), m.norm, k))) for e in m.I.events
                    if e.kind == 'call' and m.norm(m.freeze(e.data[0])).endswith('CTargetVisitor') for k in settings(m, e, known)]
            made = [{**dict(zip(names, a)), **kw} for a, kw in made]
        except (*HARD, Undecided) as x:
            made = f'not decided, because of {x}'
        right = [dict(instr='I', generate='G', config={'verbose': True, 'x': 1}, verbose=verbose if verbose is not None else True)]
        F.check('handed', f'source, verbose {verbose}', made == right, f'the source is that of {made} instead of {right}', m)
        got = evaluated(m, m.raw, {**known, 'contents': Given(lambda v: 'text of ' + v), **NO_VISITOR})
        F.check('handed', f'source, verbose {verbose}, is given', got == 'text of visitor', f'the source is {got}', m)
    for fn in ('compile_acc_instrument', 'compile_mpi_instrument', 'compile_c_instrument'):
        m = F.function(fn, 'a', 'b', 'c', 'd', 'e', kwargs={'generator': K('G')}, steps=RUN + ('_compile_instrument',), opaque=())
        got = m.norm(m.freeze(m.raw))
        F.check('handed', fn, got == "_compile_instrument(a, b, c, d, e, generator='G')", f'{fn} gives {got}', m)


UNASKED = {'mpi': False, 'acc': False, 'nexus': False, 'count': 1, 'replace': False, 'dump_source': False, 'dry_run': False, 'dryrun': False, 'grid': False, 'mesh': False,
           'trace': False, 'source': False, 'verbose': False, 'parallel': False, 'gpu': False, 'process_count': 0, 'seed': None, 'ncount': None, 'gravitation': None,
           'bufsize': None, 'fmt': None, 'output': None, 'binary_name': None, 'target': None, 'config': None, 'maximum': None}


def defaults(F):
    """nothing is done that is not asked for"""
    import ast
    for name, module in F.p.modules.items():
        for node in ast.walk(module.tree) if name.endswith(('compiler.c', 'run.runner', 'run.range')) else ():
            a = node.args if isinstance(node, ast.FunctionDef) else None
            for arg, d in [*zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1]), *zip(a.kwonlyargs, a.kw_defaults)] if a else ():
                if arg.arg not in UNASKED or not isinstance(d, ast.Constant):
                    continue
                c, right = f'{node.name}: {arg.arg} not given', UNASKED[arg.arg]
                if d.value is right or d.value == right and type(d.value) is int or right in (None, False) and d.value in (None, False):
                    F.rep.ok('handed', c)
                else:
                    F.rep.bad('handed', c, f'{node.name} takes {arg.arg} as {d.value!r} if it is not given', f'{module.path}:{node.lineno}')


NEW_TARGET = {'new:CBinaryTarget': Given(lambda **k: (k['type'], k['count']))}


def catches(f):
    import ast
    return any(isinstance(x, ast.Try) and x.handlers for x in ast.walk(f.node))


def calls_of(F, m, names, known, params=None):
    """[(name, arguments by name)] or why it is not decided"""
    try:
        out = []
        for n, recv, a, kw in happenings(m, names, known):
            out.append((n, {**dict(zip((params or {}).get(n, range(len(a))), a)), **kw}))
        return out
    except Undecided as x:
        return f'not decided, because of {x}'


def parameters_of(F, name):
    fs = [g for m in F.p.modules.values() for g in m.functions.values() if g.name == name]
    return [a.arg for a in fs[0].node.args.args] if fs else ()


def made_with(F):
    m = F.function('mccode_compile', 'instr', 'directory', 'generator', 'target', 'config', steps=('compile_instrument',), opaque=(),
                   kwargs={'replace': K('R')})
    defaults = dict(default_main=True, enable_trace=False, portable=False, include_runtime=True, embed_instrument_file=False, verbose=False)
    params = {'compile_instrument': parameters_of(F, 'compile_instrument')}
    for target, config in product((None, {}, {'mpi': True, 'count': 4}, {'acc': True}, {'mpi': False, 'acc': False, 'nexus': True, 'count': 0}),
                                  (None, {}, {'enable_trace': True}, {'verbose': True, 'default_main': False, 'output': 'x.c'})):
        t = target or {}
        made = kind(t.get('mpi'), t.get('acc'), t.get('nexus')), t.get('count', 1)
        known = configured(instr='I', directory='D', generator='G', target=target, config=config, **NEW_TARGET, dict=Given(dict),
                           compile_instrument=Given(lambda *a, **k: 'made'), exception=Given(lambda *a: False))
        c = f'made for {target} with {config}'
        got = calls_of(F, m, ('compile_instrument',), known, params)
        want = [('compile_instrument', dict(instrument='I', target=made, output='D', generator='G', config={**defaults, **(config or {})}, replace='R'))]
        F.check('handed', c, got == want, f'what is {c} is {got} instead of {want}', m)
        F.case('handed', c + ' gives', m, known, lambda g: g[0] == 'value' and list(g[1]) == ['made', made], f'what is {c}')
        F.case('handed', c + ' fails', m, {**known, 'exception': Given(lambda *a: True)}, ('error',), f'what is {c} and fails') if catches(m.f) else None


RUNTIME = ('seed', 'ncount', 'trace', 'gravitation', 'bufsiz', 'format')
SCANNED = ('name', 'binary', 'target', 'parameters', 'directory', 'grid')
FLAGS = product((False, True), repeat=3)


def called_from_python(F):
    names = parameters_of(F, 'mccode_run')
    m = F.function('mccode_run', *names, steps=RUN, opaque=())
    params = {n: parameters_of(F, n) for n in ('mccode_run_scan', 'mccode_compile')}
    base = dict(instrument=Thing(name='Inst'), generator='G', parameters={'a': 1}, directory='/o d', binary_name=None, trace=False, source=False,
                verbose=False, parallel=False, gpu=False, process_count=3, mesh=False, seed=None, ncount=None, gravitation=None, bufsize=None,
                dryrun=False, fmt=None)
    if set(base) - set(names):
        raise AnalysisBroken(f'mccode_run has no {sorted(set(base) - set(names))}')
    for there in (False, True):
        for change in ({}, *({k: True} for k in ('trace', 'source', 'verbose', 'parallel', 'gpu', 'mesh', 'gravitation', 'dryrun')), {'seed': 0}, {'ncount': 1000},
                       {'bufsize': 7}, {'fmt': 'NeXus'}, {'binary_name': 'b.out'}, {'directory': P('/o d')}, {'process_count': 0},
                       {'parameters': {'x': 'y'}}):
            v = {**base, **change}
            path = P('/o d') / (v['binary_name'] or 'Inst')
            known = configured([path] if there else [], **v, **{'instrument.name': 'Inst'}, **NEW_TARGET, **SYSTEM,
                               mccode_compile=Given(lambda *a, **k: ['the binary', 'the target']))
            c = f'mccode_run of a binary that is {"" if there else "not "}there with {change}'
            got = calls_of(F, m, ('mccode_compile', 'mccode_run_scan'), known, params)
            target = dict(mpi=v['parallel'], acc=v['gpu'], count=v['process_count'], nexus=False)
            want = [] if there else [('mccode_compile', dict(instr=v['instrument'], directory=path, generator='G', target=target, config=dict(
                enable_trace=v['trace'], embed_instrument_file=v['source'], verbose=v['verbose'])))]
            made = (path, (kind(v['parallel'], v['gpu'], False), v['process_count'])) if there else ('the binary', 'the target')
            scan = dict(name='Inst', binary=made[0], target=made[1], parameters=v['parameters'], grid=v['mesh'], capture=not v['verbose'],
                        dry_run=v['dryrun'], seed=v['seed'], ncount=v['ncount'], trace=v['trace'], gravitation=v['gravitation'],
                        bufsiz=v['bufsize'], format=v['fmt'])
            agree(F, c, m, got, want, scan, lambda d: d is not None and P('/o d') in P(d).parents)


SYSTEM = {'datetime.datetime': 'datetime', 'now': Given(lambda *a: 'now'), 'strftime': Given(lambda *a: 'time'), 'os.access': Given(lambda *a: a[1] != 'X'),
          'os.R_OK': 'R', 'os.X_OK': 'X', 'isinstance': Given(lambda x, c: c is P and isinstance(x, P)), 'next': Given(lambda x, *a: list(x)[0]), 'iter': Given(iter)}


def agree(F, c, m, got, want, scan, folder):
    """the calls of mccode_compile and that of mccode_run_scan"""
    if isinstance(got, str) or not got or got[-1][0] != 'mccode_run_scan':
        return F.check('handed', c, False, f'{c}: the calls are {got}', m)
    ran = {'capture': True, 'dry_run': False, **got[-1][1]}
    place = ran.pop('directory', None)
    missing = {k: None for k in RUNTIME if k not in ran}
    ran.update(missing)
    bad = {k: ran.get(k) for k in {*scan, *ran} if k not in scan or k not in ran or ran[k] != scan[k]}
    F.check('handed', c, not bad and folder(place), f'{c}: it is run with {bad or place} instead of { {k: scan.get(k) for k in bad} }', m)
    given = [(n, {k: v for k, v in a.items() if k != 'config' or not isinstance(v, dict)} | {
        'config': {k: v for k, v in a.get('config', {}).items() if k != 'output'}}) for n, a in got[:-1]]
    F.check('handed', c + ', compiled', given == want, f'{c}: it is compiled by {given} instead of {want}', m)


SHELL = dict(filename=P('/in/Inst.instr'), output_file=None, directory=None, search_dir=None, trace=False, version=False, source=False,
             verbose=False, ncount=None, mesh=False, seed=None, gravitation=False, bufsiz=None, format=None, dryrun=False, parallel=False, gpu=False,
             process_count=0)
READING = {'new:Reader': Given(lambda **k: ('reader', k['registries'])), 'new:LocalRegistry': Given(lambda name, root, **k: ('local', str(root))),
           'Reader': Given(lambda registries: ('reader', registries)), 'LocalRegistry': Given(lambda name, root, *a: ('local', str(root)))}


def shell(F, args, there, runnable=()):
    inst = Thing(name='Inst')
    return inst, configured(there, flavor='mcstas', registry='std', generator='G', **NEW_TARGET, **{
        **SYSTEM, 'os.access': Given(lambda q, how: str(q) in there and (how != 'X' or str(q) in runnable))}, **READING,
        parse_mccode_run_script=Given(lambda f: [Thing(**args), args['parameters']]), mccode_script_parse=Given(lambda f: Thing(**args)),
        load_hdf5=Given(lambda f: inst), get_instrument=Given(lambda r, f, *a, **k: inst), mccode_compile=Given(lambda *a, **k: ['the binary', 'the target']))


def called_from_shell(F):
    m = F.function('mccode_run_cmd', 'flavor', 'registry', 'generator', steps=RUN, opaque=('LocalRegistry', 'Reader'))
    params = {n: parameters_of(F, n) for n in ('mccode_run_scan', 'mccode_compile')}
    pars = {'parameters': {'a': 1}}
    for change in ({}, *({k: True} for k in ('trace', 'source', 'verbose', 'parallel', 'gpu', 'mesh', 'gravitation', 'dryrun')), {'seed': [0]},
                   {'ncount': [1000]}, {'bufsiz': [7]}, {'format': ['NeXus']}, {'directory': '/o d'}, {'process_count': 5}, {'output_file': '/b/x'},
                   {'search_dir': [P('/s1'), P('/s2')]}, {'filename': P('/in/Inst.h5')}, {'filename': P('/in/Inst.out')}, {'filename': [P('/in/Inst.instr')]}):
        v = {**SHELL, **pars, **change}
        file = v['filename'] if isinstance(v['filename'], P) else v['filename'][0]
        done = file.suffix == '.out'
        inst, known = shell(F, v, [str(file)], [str(file)] if done else [])
        c = f'a run command with {change}'
        got = calls_of(F, m, ('mccode_compile', 'mccode_run_scan'), known, params)
        target = dict(mpi=v['parallel'], acc=v['gpu'], count=v['process_count'], nexus=False)
        want = [] if done else [('mccode_compile', dict(instr=inst, directory=v['output_file'], generator='G', target=target, config=dict(
            enable_trace=v['trace'], embed_instrument_file=v['source'], verbose=v['verbose'])))]
        made = (file, (kind(v['parallel'], v['gpu'], False), v['process_count'])) if done else ('the binary', 'the target')
        one = lambda k: v[k][0] if v[k] is not None else None
        scan = dict(name='Inst', binary=made[0], target=made[1], parameters={'a': 1}, grid=v['mesh'], capture=not v['verbose'], dry_run=v['dryrun'],
                    seed=one('seed'), ncount=one('ncount'), trace=v['trace'], gravitation=v['gravitation'], bufsiz=one('bufsiz'), format=one('format'))
        agree(F, c, m, got, want, scan, lambda d: d == v['directory'])
        read_from(F, c, m, v, file, known)
    inst, known = shell(F, {**SHELL, **pars}, [])
    F.case('handed', 'a run command for a file that is not there', m, known, ('error',), 'a run command for a file that is not there')


def read_from(F, c, m, v, file, known):
    got = calls_of(F, m, ('get_instrument', 'load_hdf5'), known)
    try:
        of = [r[1] for r in happenings(m, ('get_instrument',), known)]
    except Undecided as x:
        of = str(x)
    folders = [('local', str(d)) for d in v['search_dir'] or ()]
    if file.suffix == '.out':
        good = got == []
    elif file.suffix == '.h5':
        good = got == [('load_hdf5', {0: file})]
    else:
        good = len(got) == 1 and got[0][0] == 'get_instrument' and (got[0][1].get(0) or got[0][1].get('name')) == file and isinstance(of, list) \
            and of[0][1][0] == 'std' and of[0][1][1:] == [*folders, ('local', str(P()))]
    F.check('handed', c + ', read', good, f'{c}: it is read by {got} of {of}', m)


def translated_from_shell(F):
    m = F.function('mccode', 'flavor', 'registry', 'generator', steps=RUN + ('mccode_script_parse', 'save'), opaque=('LocalRegistry', 'Reader', 'CTargetVisitor'))
    base = dict(filename=P('/in/Inst.instr'), output_file=None, search_dir=None, trace=False, portable=False, version=False, source=False, no_main=False,
                no_runtime=False, verbose=False, parameters=None)
    made = F.p.method(F.p.find_class('CTargetVisitor'), '__init__')
    for change in ({}, *({k: True} for k in ('trace', 'portable', 'source', 'no_main', 'no_runtime', 'verbose')), {'output_file': '/b/x.c'},
                   {'search_dir': [P('/s1'), P('/s2')]}, {'filename': P('/in/Inst.h5')}):
        v = {**base, **change}
        inst, known = shell(F, v, [str(v['filename'])])
        known['mccode_antlr.common.Mode.minimal'] = 'minimal'
        known['Mode.minimal'] = 'minimal'
        c = f'a translation command with {change}'
        try:
            news = [(e, k) for e in m.I.events if e.kind == 'call' and m.norm(m.freeze(e.data[0])).endswith('CTargetVisitor') for k in settings(m, e, known)]
            got = [(value(ready(m, e.data[1]), m.norm, k), dict(value(ready(m, e.data[2]), m.norm, k))) for e, k in news]
            saves = [{**dict(zip(('filename',), a)), **kw} for _, _, a, kw in happenings(m, ('save',), {**known, **NO_VISITOR})]
        except (*HARD, Undecided) as x:
            got, saves = f'not decided, because of {x}', None
        config = dict(default_main=not v['no_main'], enable_trace=v['trace'], portable=v['portable'], include_runtime=not v['no_runtime'],
                      embed_instrument_file=v['source'], verbose=v['verbose'], output=v['output_file'] or P('/in/Inst.c'))
        good = len(got) == 1 and got[0][0][:1] == [inst] and got[0][1].get('generate', (*got[0][0], None)[1]) == 'G' and got[0][1].get('config') == config
        F.check('handed', c, good and saves == [{'filename': config['output']}], f'{c}: what is made is {got}, saved as {saves}', m)
        read_from(F, c, m, v, v['filename'], known)


NO_VISITOR = {'new:CTargetVisitor': Given(lambda *a, **k: 'visitor'), 'CTargetVisitor': Given(lambda *a, **k: 'visitor')}


# what each option of the commands is: (names, what one word of it is, or flag; in a list or not)
COMMON = {'filename': ({'filename'}, 'resolvable', '?'), 'output_file': ({'-o', '--output-file'}, 'str', None), 'search_dir': ({'-I', '--search-dir'}, 'resolvable', 'append'),
          'trace': ({'-t', '--trace'}, 'flag', None), 'version': ({'-v', '--version'}, 'flag', None), 'source': ({'--source'}, 'flag', None),
          'verbose': ({'--verbose'}, 'flag', None)}
OPTIONS = {
    'mccode_script_parse': {**COMMON, 'portable': ({'-p', '--portable'}, 'flag', None), 'no_main': ({'--no-main'}, 'flag', None),
                            'no_runtime': ({'--no-runtime'}, 'flag', None)},
    'mccode_run_script_parser': {
        **COMMON, 'parameters': ({'parameters'}, 'str', '*'), 'directory': ({'-d', '--directory'}, 'str', None), 'ncount': ({'-n', '--ncount'}, 'int', '1'),
        'mesh': ({'-m', '--mesh'}, 'flag', None), 'seed': ({'-s', '--seed'}, 'int', '1'), 'gravitation': ({'-g', '--gravitation'}, 'flag', None),
        'bufsiz': ({'--bufsiz'}, 'int', '1'), 'format': ({'--format'}, 'str', '1'), 'dryrun': ({'--dryrun'}, 'flag', None),
        'parallel': ({'--parallel'}, 'flag', None), 'gpu': ({'--gpu'}, 'flag', None), 'process_count': ({'--process-count'}, 'int', None)}}
NOTHING = {'flag': ('None', 'False'), 'int': ('None', '0'), 'str': ('None',), 'resolvable': ('None',)}


def options(F):
    """each option of a command is there under its names, takes what it should, and is looked at; an option not given is None (False, 0)"""
    import ast
    for name, table in OPTIONS.items():
        fs = [g for m in F.p.modules.values() for g in m.functions.values() if g.name == name]
        if not fs:
            raise AnalysisBroken(f'function {name} not found')
        m = F.function(name, 'prog', steps=(), opaque=())
        used = {x.attr for x in ast.walk(fs[0].module.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)}
        found = {}
        for e in m.I.events:
            if e.kind == 'mcall' and e.data[1] == 'add_argument':
                words, kw = e.data[2], e.data[3]
            elif e.kind == 'call' and m.norm(m.freeze(e.data[0])).endswith('.add_argument'):
                words, kw = e.data[1], e.data[2]
            else:
                continue
            words = [w.v for w in words.items if hasattr(w, 'v')]
            kw = {kv.items[0].v: m.norm(m.freeze(kv.items[1])).strip("'") for kv in kw.items}
            long = [w for w in words if w.startswith('--')] or words
            dest = kw.get('dest') or long[0].lstrip('-').replace('-', '_')
            F.check('handed', f'{name}: option {words}', dest in used, f'{name}: the option {words} is accepted and never looked at', m)
            action = kw.get('action', 'store')
            what = 'flag' if action == 'store_true' else kw.get('type', 'str')
            if '.' in what or what.startswith(('<', 'fn', 'lambda')) or 'resolvable' in what:
                what = 'resolvable'
            many = 'append' if action == 'append' else kw.get('nargs')
            found[dest] = set(words), what, many, kw.get('default', 'False' if what == 'flag' else 'None')
        for dest, (words, what, many) in table.items():
            got = found.get(dest)
            good = got is not None and got[0] >= words and got[1:3] == (what, many) and got[3] in (NOTHING[what] if many is None or what == 'flag' else ('None',))
            F.check('handed', f'{name}: {dest}', good, f'{name}: the option {sorted(words)} is {got} instead of {(what, many)}', m)


def asked(F):
    """a command that is asked for its version prints it and ends, one without a file is an error, and another goes on with what it was given"""
    for name in ('parse_mccode_run_script', 'mccode_script_parse'):
        m = F.function(name, 'prog', steps=('parse_scan_parameters', 'sort_args', 'mccode_run_script_parser'), opaque=())
        names = ('exit', 'error', 'version')
        for version, file, want in ((False, P('/in/a.instr'), []), (True, P('/in/a.instr'), ['version', 'exit']), (True, None, ['version', 'exit']),
                                    (False, None, ['error'])):
            args = Thing(**{**SHELL, 'version': version, 'filename': file, 'parameters': ['a=1']})
            known = {'parse_args': Given(lambda *a, **k: args), 'mccode_run_script_parser': Given(lambda *a: Thing()), 'prog': 'prog',
                     'argparse.ArgumentParser': Given(lambda *a, **k: 'parser'), 'parse_scan_parameters': Given(lambda a: ('ranges', tuple(a)))}
            got = []
            for e in m.I.events:
                fn = e.data[1] if e.kind == 'mcall' else m.norm(m.freeze(e.data[0])) if e.kind == 'call' and not isinstance(e.data[0], Phi) else ''
                n = next((x for x in names if str(fn).strip('<>').replace(':', '.').split('.')[-1] == x), None)
                try:
                    if n is not None and [n] != got[-1:] and hit(m, e, known):
                        got.append(n)
                except (*HARD, Undecided) as x:
                    got.append(f'not decided, because of {x}')
            c = f'{name} with version={version} and the file {file}'
            F.check('handed', c, got[:len(want)] == want and (want or not got), f'{c}: what happens is {got}', m)
            if not want:
                try:
                    given = outcome(m, known)[1:]
                except Undecided as x:
                    given = str(x)
                right = args if name == 'mccode_script_parse' else (args, ('ranges', ('a=1',)))
                given = given[0] if given and given[0] is args else tuple(given[0]) if given and isinstance(given[0], (list, tuple)) else given
                F.check('handed', c + ', result', given == right, f'{c}: it gives {given}', m)
