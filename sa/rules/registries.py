"""C21: a file asked for by name is the one of exactly this name in the first registry that has it"""
from __future__ import annotations
import ast
from itertools import permutations
from pathlib import PurePosixPath as P
from ..absint import K, App, Carried, Seq, Sym, Term, MCall, Lam, Clo, Elem, walk, walk_own
from ..reread import value, valued, bound, Given, Thing, Unknown
from ..spec import World, free
from ..project import AnalysisBroken
from .whole import Facts, where

OPEN = ()
KNOWN_LATER = ('registries_match', 'registry_from_specification', 'ordered_registries')


class Failed(Exception):
    """the code raises an exception here"""


class Undecided(Exception):
    pass


def followed(m):
    """every function inside the method is followed to its end"""
    if m.I.cut:
        raise Undecided(f'the recursion of {", ".join(sorted(m.I.cut))}')


def outcome(m, known, world=None):
    """what the function gives for arguments and objects with these values: ('value', v) or ('error',)"""
    followed(m)
    m.world = world
    known = {**known, '()': lambda f, *x: applied(m, f, *x)}
    left = set()
    for e in m.I.events:
        if e.kind == 'return' and e.func is not m.f and id(e.func) not in left and happens(m, e, known):
            left.add(id(e.func))
        if e.kind == 'return' and e.func is m.f or e.kind == 'raise' and id(e.func) not in left:
            hit = first(m, e, known)
            if hit is not None:
                if e.kind == 'raise':
                    return 'error',
                try:
                    return 'value', value(ready(m, e.data[0]), m.norm, hit)
                except (Failed, ZeroDivisionError):
                    return 'error',
                except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError) as x:
                    raise Undecided(f"{str(m.norm(m.freeze(e.data[0])))[:120]} ({type(x).__name__})")
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(m.f.node)):
        try:
            return 'value', value(ready(m, m.raw), m.norm, known)
        except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError) as x:
            raise Undecided(f'{m.norm(m.freeze(m.raw))[:120]} ({type(x).__name__})')
    return 'value', None


def ready(m, t):
    m.world = getattr(m, 'world', None)
    cache = m.__dict__.setdefault('ready', {})
    key = t, id(m.world)
    if key not in cache:
        cache[key] = m.fold(t, m.world) if m.world is not None else m.freeze(t)
    return cache[key]


def happens(m, e, known):
    try:
        return first(m, e, known) is not None
    except Undecided:
        return False


def first(m, e, known):
    """the values with which this event happens for the first time, or None"""
    conds = [(c, pol) for c, pol in ((ready(m, c), pol) for c, pol in e.pc) if not (isinstance(c, App) and c.fn == 'in_loop')]
    if any(isinstance(x, Carried) and x.lid in dict(e.loops) and m.norm(x) not in known for c, _ in conds for x in walk(c)):
        # what a loop has come to when it happens
        from .values import occurrences
        try:
            return next(occurrences(m, e, known), None)
        except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError) as x:
            raise Undecided(str(x)[:160])
    own = set()
    within = {lid for lid, _ in e.loops}
    for c, pol in list(conds):
        es = {x for x in free(c) if isinstance(x, Elem) and m.norm(x) not in known}
        past = [x for x in es if x.lid not in within]
        if len(past) == 1 and past == list(es):
            # a loop that is over was not left: so it is for each of its elements
            conds.remove((c, pol))
            if search(m, [(c, not pol)], past, known) is not None:
                return None
        else:
            own |= es
    if e.kind == 'return':
        own |= {x for x in free(m.freeze(e.data[0])) if isinstance(x, Elem) and x.lid in within and m.norm(x) not in known}
    for lid, base in e.loops:
        if all(x.lid != lid for x in own) and valued(m.freeze(base), m.norm, known) in (([],), ((),)):
            return None
    return search(m, conds, sorted(own, key=lambda x: x.lid), known)


def search(m, conds, own, known):
    own = [x for x in own if m.norm(x) not in known]
    if own:
        base = m.I.base_of.get(own[0].lid)
        base = m.freeze(base) if base is not None else own[0].base
        try:
            seq = list(bound(base, own[0].lid, m.norm, known))
            if seq and m.norm(own[0]) not in seq[0]:
                seq = list(bound(own[0].base, own[0].lid, m.norm, known))
        except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError):
            raise Undecided(m.norm(own[0].base)[:120])
        for k in seq:
            hit = search(m, conds, own[1:], k)
            if hit is not None:
                return hit
        return None
    for c, pol in conds:
        try:
            if bool(value(c, m.norm, known)) != pol:
                return None
        except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError):
            raise Undecided(str(m.norm(c))[:160])
    return known


def applied(m, f, x, *more):
    """a function of one argument, or of more"""
    if not more and isinstance(f, App) and f.fn.endswith('attrgetter'):
        return x.fields[f.args[0].v]
    n = m.norm(f) if not isinstance(f, (Lam, Clo)) else None
    if n is not None:
        raise Unknown
    named = {'#x': x, **{f'#x{i}': y for i, y in enumerate(more)}}
    t = m.I.call_value(f, [Sym(n) for n in named], {}, m.st, getattr(f, 'node', None), 0)
    return value(m.freeze(t), m.norm, named)


class Cases(Facts):
    def case(self, rule, construct, m, known, right, what, world=None):
        """right: the outcome, or a test of it"""
        try:
            got = outcome(m, known, world)
        except Undecided as x:
            self.rep.bad(rule, construct, f'{what}: not decided, because of {x}', where(m.f))
            return
        good = right(got) if callable(right) else got == right
        self.check(rule, construct, good, f'{what}: it gives {show(got)}' + ('' if callable(right) else f' instead of {show(right)}'), m)


def show(got):
    return 'an error' if got == ('error',) else repr(got[1])[:120]


# the ways in which a path can have to do with a name
NAME = 'Arm.comp'
SAME = ('Arm.comp',)
TAIL = ('optics/Arm.comp', 'a/b/Arm.comp')
OTHERS = ('optics/Super_Arm.comp', 'Super_Arm.comp', 'optics/Armature.comp', 'Arm/Slit.comp', 'optics/Slit.comp',
          'optics/Arm.compound', 'sub/Arm.instr', 'optics/arm.comp', 'optics/Armxcomp')
REQUESTS = (('Arm', '.comp'), ('Arm.comp', '.comp'), ('Arm.comp', None))


LONGER = ('Arm.comp.bak', 'Arm.compound', 'optics/Arm.comp.bak')


def remote(files, name, ext):
    files = list(files)
    return {'self.pooch.registry_files': files, 'name': name, 'ext': ext, 'fetch': Given(lambda pooch, x: P('/cache', x)),
            'is_available': Given(lambda pooch, x: x in files), 'self.pooch': Thing(registry_files=files)}


def matching(root, files, pattern):
    """what Path.glob gives for these files and folders"""
    parts = P(pattern).parts
    every = {P(f) for f in files} | {q for f in files for q in P(f).parents if q != P('.')}
    if parts[:1] == ('**',) and len(parts) == 2 and parts[1] == '*':
        return sorted(root / q for q in every)
    if parts == ('**',):
        return sorted({root} | {root / q for q in every if q not in {P(f) for f in files}})
    if parts[:1] == ('**',):
        return sorted(root / q for q in every if q.parts[-len(parts) + 1:] == parts[1:])
    if any('*' in x or '?' in x or '[' in x for x in parts):
        raise Unknown
    return sorted(root / q for q in every if q.parts == parts)


def local(files, name, ext):
    root = P('/r')
    here = {root / f for f in files}
    return {'self.root': root, 'name': name, 'ext': ext, 'glob': Given(lambda r, pattern: matching(r, files, pattern)),
            'rglob': Given(lambda r, pattern: matching(r, files, '**/' + pattern)), 'is_file': Given(lambda q: q in here),
            'exists': Given(lambda q: bool(matching(root, files, str(q.relative_to(root)))))}


def memory(files, name, ext):
    table = {f: f'text of {f}' for f in files}
    return {'self.components': table, 'self.root': '/proc/memory/', 'name': name, 'ext': ext,
            'keys': Given(lambda d: list(d)), 'get': Given(lambda d, k, default=None: d.get(k, default))}


KINDS = {'RemoteRegistry': (remote, lambda f: f, lambda f: P('/cache', f)),
         'LocalRegistry': (local, lambda f: P('/r', f), lambda f: P('/r', f)),
         'InMemoryRegistry': (memory, lambda f: f, lambda f: P('/proc/memory', f))}


def kept(cls, files):
    """the files that this kind of registry can have: one in memory has no folders"""
    return [f for f in files if cls != 'InMemoryRegistry' or '/' not in f]


def c21(p, rep):
    F = Cases(p, rep)
    rep.rule('known', 'a registry knows a file if and only if it has one of exactly this name, in whatever folder')
    rep.rule('found', 'the file that a registry gives for a name it knows is the one of exactly this name, and the one whose '
                      'whole path it is if there is one')
    rep.rule('same-file', 'path, contents and availability are those of the file that fullname gives')
    rep.rule('complete', 'each kind of registry answers every question that the others do')
    rep.rule('first', 'the reader gives the file of the first of its registries that knows it, and an error if none does')
    rep.rule('whole-name', 'component files, instrument files and included C files are asked for by their whole name')
    rep.rule('order', 'the registries of a reader are in the order of their priority, and that of a SEARCH comes first')
    rep.rule('specification', 'a SEARCH gives the registry that is specified, an error if that is none, and the same one once')
    knowing(F)
    finding(F)
    consistent(F)
    complete(F)
    reading(F)
    strict(F)
    ordering(F)
    specified(F)
    for r, n in (('known', 60), ('found', 40), ('same-file', 10), ('complete', 20), ('first', 20), ('whole-name', 5), ('order', 6),
                 ('specification', 12)):
        rep.need(r, n, 'cases')


def method(F, cls, name, *args, **kw):
    return F.method(cls, name, *args, steps=OPEN, opaque=(), **kw)


def knowing(F):
    for cls, (made, _, _) in KINDS.items():
        m = method(F, cls, 'known', 'name', 'ext', K(True))
        for name, ext in REQUESTS:
            if cls == 'InMemoryRegistry' and name.endswith('.comp') and ext:
                continue
            for group, right in ((SAME + TAIL, True), (OTHERS, False)):
                for f in kept(cls, group):
                    for files in [f], [*kept(cls, OTHERS), f], *([['c/Arm.comp', f]] if right and '/' in f else []):
                        F.case('known', f'{cls} {name} {ext}: {files}', m, made(files, name, ext),
                               lambda g: g[0] == 'value' and bool(g[1]) is right,
                               f'{cls}.known({name!r}, {ext!r}, strict=True) with the files {files}')
            F.case('known', f'{cls} {name} with another extension', m, made(['Arm.instr'], 'Arm', '.instr'),
                   lambda g: g[0] == 'value' and bool(g[1]), f'{cls}.known("Arm", ".instr", strict=True) with the file Arm.instr')
            F.case('known', f'{cls} {name} {ext}: empty', m, made([], name, ext), lambda g: g[0] == 'value' and not g[1],
                   f'{cls}.known({name!r}, {ext!r}, strict=True) without files')
        for files, right in ((['Arm.v2.comp', 'Arm.comp'], True), (['Arm.comp'], False), (['Arm.v2'], False), (['Arm.v3.comp'], False)):
            F.case('known', f'{cls} Arm.v2: {files}', m, made(files, 'Arm.v2', '.comp'), lambda g: g[0] == 'value' and bool(g[1]) is right,
                   f'{cls}.known("Arm.v2", ".comp", strict=True) with the files {files}')
        m = method(F, cls, 'known', 'name', 'ext', K(False))
        for f in kept(cls, SAME + TAIL):
            F.case('known', f'{cls} not strict: {f}', m, made([f], 'Arm', '.comp'), lambda g: g[0] == 'value' and bool(g[1]),
                   f'{cls}.known("Arm", ".comp") with the file {f}')


def finding(F):
    for cls, (made, whole, _) in KINDS.items():
        m = method(F, cls, 'fullname', 'name', 'ext')
        for name, ext in REQUESTS:
            if cls == 'InMemoryRegistry' and name.endswith('.comp') and ext:
                continue
            for f in kept(cls, SAME + TAIL):
                rest = kept(cls, OTHERS + LONGER) + (list(TAIL) if f in SAME else [])
                rest = kept(cls, rest)
                for others in ([], *([x] for x in rest), rest):
                    for files in ([f, *others], [*others, f]):
                        F.case('found', f'{cls} {name} {ext}: {files}', m, made(files, name, ext), ('value', whole(f)),
                               f'{cls}.fullname({name!r}, {ext!r}) with the files {files}')
        for files in (['Arm.comp', 'Arm.v2.comp'], ['Arm.v2.comp', 'Arm.v3.comp', 'Arm.comp']):
            F.case('found', f'{cls} Arm.v2: {files}', m, made(files, 'Arm.v2', '.comp'), ('value', whole('Arm.v2.comp')),
                   f'{cls}.fullname("Arm.v2", ".comp") with the files {files}')
    m = method(F, 'InMemoryRegistry', 'contents', 'name', 'ext')
    F.case('found', 'InMemoryRegistry.contents', m, memory(['Arm.comp', 'Slit.comp'], 'Arm', '.comp'), ('value', 'text of Arm.comp'),
           'InMemoryRegistry.contents of a file it has')


def consistent(F):
    files = ['optics/Slit.comp', 'optics/Arm.comp', 'Arm/Arm.instr', 'optics/Super_Arm.comp']
    for cls, (made, whole, path) in KINDS.items():
        own = kept(cls, files) if cls != 'InMemoryRegistry' else ['Slit.comp', 'Arm.comp']
        f = own[1]
        known = {**made(own, 'Arm', '.comp'), 'self': Thing(), 'fullname': Given(
            lambda me, name, ext=None, exact=None: whole(f) if (name, ext) == ('Arm', '.comp') else whole(own[0]))}
        ask = dict(steps=('fullname',), opaque=())
        F.case('same-file', f'{cls}.path', F.method(cls, 'path', 'name', 'ext', **ask), known, ('value', path(f)), f'{cls}.path')
        F.case('same-file', f'{cls}.is_available', F.method(cls, 'is_available', 'name', 'ext', **ask), known,
               lambda g: g[0] == 'value' and bool(g[1]), f'{cls}.is_available for a file it has')
        m = method(F, cls, 'filenames')
        F.case('same-file', f'{cls}.filenames', m, made(own, 'Arm', '.comp'),
               lambda g: g[0] == 'value' and sorted(str(x) for x in g[1]) == sorted(str(whole(x)) for x in own), f'{cls}.filenames')
        if cls != 'InMemoryRegistry':
            m = F.method(cls, 'contents', 'name', 'ext', **ask)
            known = {**known, 'read_text': Given(lambda q, *a, **k: f'text of {q}')}
            F.case('same-file', f'{cls}.contents', m, known, ('value', f'text of {path(f)}'), f'{cls}.contents')
        m = method(F, cls, 'unique', 'name')
        one = kept(cls, ['optics/Arm.comp', 'Slit.comp']) if cls != 'InMemoryRegistry' else ['Arm.comp', 'Slit.comp']
        for fs, right in ((one, True), (['Slit.comp'], False), *(((['a/Arm.comp', 'b/Arm.comp'], False),) if cls != 'InMemoryRegistry' else ())):
            F.case('same-file', f'{cls}.unique {fs}', m, made(fs, 'Arm.comp', None), lambda g: g[0] == 'value' and bool(g[1]) is right,
                   f'{cls}.unique with the files {fs}')
    for cls, fn in (('InMemoryRegistry', 'add_comp'), ('InMemoryRegistry', 'add_instr')):
        m = method(F, cls, fn, 'name', 'definition')
        ext = '.comp' if fn == 'add_comp' else '.instr'
        for name in ('Arm', 'Arm' + ext):
            sets = [e for e in m.I.events if e.kind == 'setitem' and m.norm(m.freeze(e.data[0])) == 'self.components']
            try:
                got = [(value(m.freeze(e.data[1]), m.norm, {'name': name}), m.norm(m.freeze(e.data[2]))) for e in sets
                       if search(m, [(m.freeze(c), pol) for c, pol in e.pc], [], {'name': name}) is not None]
            except (Unknown, Undecided) as x:
                got = str(x)
            F.check('same-file', f'{cls}.{fn} {name}', got == [('Arm' + ext, 'definition')], f'{cls}.{fn}({name!r}) stores {got}', m)


def stub(f):
    import ast
    return all(isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in f.node.body)


def complete(F):
    base = F.p.find_class('Registry')
    asked = {n: f for n, f in base.methods.items() if stub(f)}
    if not asked:
        raise AnalysisBroken('the class Registry has no questions that its kinds answer')
    uses = dict(known=('name', 'ext', 'strict'), path=('name', 'ext'), fullname=('name', 'ext'), contents=('name', 'ext'),
                unique=('name',), is_available=('name', 'ext'), filenames=())
    for cls in F.p.concrete_subclasses(base):
        F.rep.uses(cls.module.name)
        for n in [*asked, *(x for x in uses if x not in asked)]:
            f = F.p.method(cls, n)
            c = f'{cls.name}.{n}'
            if f is None or f.cls is base and n in asked:
                F.rep.bad('complete', c, f'a {cls.name} has no {n}, it gives None', where(base.methods.get(n) or f))
                continue
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:]
            needs = names[:len(names) - len(a.defaults)]
            takes = uses.get(n, ())
            good = (a.vararg and a.kwarg) or list(takes) == names[:len(takes)] and set(needs) <= set(takes[:1])
            if good:
                F.rep.ok('complete', c)
            else:
                F.rep.bad('complete', c, f'{c} is not called as {n}({", ".join(takes)}), its arguments are {names}', where(f))


def libraries(*known):
    """registries A, B, C…: which know the name ('yes'), only something like it ('like'), or not ('no')"""
    regs = [Thing(name=n, knows=k, priority=0) for n, k in zip('ABCDE', known)]
    return regs, {
        'known': Given(lambda r, name, ext=None, strict=False: r.fields['knows'] == 'yes' or r.fields['knows'] == 'like' and not strict),
        'unique': Given(lambda r, name: r.fields['knows'] == 'yes'),
        **{q: Given(lambda r, name, ext=None, q=q: (q, r.fields['name'], name, ext)) for q in ('path', 'contents', 'fullname')}}


def reading(F):
    for cls, owner, extra in (('Reader', 'self', True), ('TargetVisitor', 'self.source', False)):
        for n, q in (('locate', 'path'), ('contents', 'contents'), ('fullname', 'fullname')) if extra else (('locate', 'path'),):
            m = method(F, cls, n, 'name', 'which', *(('ext', 'strict') if extra else ()))
            for knows, which, strict, right in (
                    (('no', 'yes', 'yes'), None, True, 'B'), (('yes', 'no', 'yes'), None, True, 'A'), (('no', 'no', 'yes'), None, True, 'C'),
                    (('like', 'yes', 'no'), None, True, 'B'), (('like', 'like', 'no'), None, True, None), (('no', 'no', 'no'), None, True, None),
                    (('like', 'yes', 'no'), None, False, 'A'), (('yes', 'no', 'yes'), ['C', 'B'], True, 'C'), (('yes', 'no', 'no'), ['B'], True, None),
                    ((), None, True, None)):
                if not strict and not extra:
                    continue
                regs, known = libraries(*knows)
                known.update({owner + '.registries': regs, 'name': 'N', 'ext': '.e', 'which': which, 'strict': strict})
                F.case('first', f'{cls}.{n} {knows} {which} {strict}', m, known,
                       ('value', (q, right, 'N', '.e' if extra else None)) if right else ('error',),
                       f'{cls}.{n} for registries A, B, C that know the name: {", ".join(knows)}' + (f', of which {which}' if which else ''))
    for cls, owner, args in (('Reader', 'self', ('name', 'which', 'strict')), ('TargetVisitor', 'self.source', ('name', 'which'))):
        m = method(F, cls, 'known', *args)
        for knows, which, right in ((('no', 'yes', 'no'), None, True), (('no', 'like', 'no'), None, False), (('no', 'no', 'no'), None, False),
                                    (('no', 'yes', 'no'), ['A'], False), (('no', 'yes', 'yes'), ['C'], True), ((), None, False)):
            regs, known = libraries(*knows)
            known.update({owner + '.registries': regs, 'name': 'N', 'which': which, 'strict': True})
            F.case('first', f'{cls}.known {knows} {which}', m, known, lambda g: g[0] == 'value' and bool(g[1]) is right,
                   f'{cls}.known for registries A, B, C that know the name: {", ".join(knows)}' + (f', of which {which}' if which else ''))
    m = method(F, 'Reader', 'contain', 'name', 'which', 'strict')
    regs, known = libraries('yes', 'like', 'yes')
    F.case('first', 'Reader.contain', m, {**known, 'self.registries': regs, 'name': 'N', 'which': None, 'strict': True},
           ('value', ['A', 'C']), 'Reader.contain')
    m = method(F, 'Reader', 'unique', 'name', 'which')
    for knows, right in ((('no', 'yes', 'no'), True), (('yes', 'yes', 'no'), False), (('no', 'no'), False)):
        regs, known = libraries(*knows)
        F.case('first', f'Reader.unique {knows}', m, {**known, 'self.registries': regs, 'name': 'N', 'which': None}, ('value', right),
               f'Reader.unique for {knows}')


ASK = ('Reader.contents', 'Reader.locate', 'Reader.fullname', 'Reader.known')


def strict(F):
    for n, args, ext in (('add_component', ('name', 'instance'), '.comp'), ('get_instrument', ('name', 'destination', 'mode'), None)):
        m = F.method('Reader', n, *args, steps=ASK + ('make_reader_error_listener',))
        calls = [e for e in m.I.events if e.kind in ('call', 'mcall') and called(e) in ('contents', 'locate', 'fullname')
                 and (e.kind == 'call' or m.norm(m.freeze(e.data[0])) == 'self')]
        if not calls:
            raise AnalysisBroken(f'Reader.{n} does not ask for a file')
        for i, e in enumerate(calls):
            q = called(e)
            f = F.p.method(F.p.find_class('Reader'), q)
            a = given(m, e, [x.arg for x in f.node.args.args][1:])
            c = f'Reader.{n}: {q}'
            F.check('whole-name', c, a.get('strict') == 'True', f'Reader.{n} asks for {q} of anything that has the name in it', m)
            if ext:
                F.check('whole-name', c + ' extension', a.get('ext') == repr(ext) and a.get('name') == 'name',
                        f'Reader.{n} asks for {q} of {a.get("name")} with the extension {a.get("ext")}', m)


def called(e):
    return e.data[1] if e.kind == 'mcall' else None


def given(m, e, names):
    out = {n: m.norm(m.freeze(x)) for n, x in zip(names, e.data[2].items)}
    for kv in e.data[3].items:
        out[kv.items[0].v] = m.norm(m.freeze(kv.items[1]))
    return out


def listed(m, text, start, known):
    """a list with this normal form after everything that the function does to it"""
    out = list(start)
    for e in m.I.events:
        known = {**known, text: out}
        if e.kind in ('return', 'raise') and e.func is m.f and first(m, e, known) is not None:
            break
        if e.kind not in ('mcall', 'setitem', 'setattr', 'augassign'):
            continue
        if e.kind == 'setattr':
            if f'{m.norm(m.freeze(e.data[0]))}.{e.data[1]}' != text:
                continue
        elif m.norm(m.freeze(e.data[0])) != text:
            continue
        hit = first(m, e, known)
        if hit is None:
            continue
        try:
            if e.kind == 'setattr':
                out = list(value(m.freeze(e.data[2]), m.norm, hit))
            elif e.kind == 'setitem':
                k = e.data[1]
                part = slice(*[value(x, m.norm, hit) for x in k.args]) if isinstance(k, App) and k.fn == 'slice' else value(k, m.norm, hit)
                out[part] = value(m.freeze(e.data[2]), m.norm, hit)
            elif e.kind == 'mcall' and e.data[1] in ('append', 'insert', 'extend', 'remove', 'clear', 'pop', 'sort', 'reverse'):
                getattr(out, e.data[1])(*[value(m.freeze(x), m.norm, hit) for x in e.data[2].items])
        except (Unknown, TypeError, ValueError, IndexError, KeyError, AttributeError):
            raise Undecided(e.kind)
    return out


def ordering(F):
    regs = [Thing(name=n, priority=k) for n, k in (('low', -10), ('zero', 0), ('ten', 10), ('hundred', 100))]
    best = [r.fields['name'] for r in regs[::-1]]
    names = lambda rs: [r.fields['name'] for r in rs]
    m = F.function('ordered_registries', 'registries', steps=OPEN, opaque=())
    r = F.method('Reader', '__post_init__', steps=OPEN, opaque=())
    for i, some in enumerate(permutations(regs)):
        F.case('order', f'ordered_registries {names(some)}', m, {'registries': list(some)},
               lambda g: g[0] == 'value' and names(g[1]) == best, f'ordered_registries of {names(some)}')
        state(F, 'order', f'Reader of {names(some)}', r, list(some), {}, best, 'the registries of a new reader')
    twins = [Thing(name='first', priority=5), Thing(name='second', priority=5)]
    F.case('order', 'ordered_registries of the same priority', m, {'registries': twins},
           lambda g: g[0] == 'value' and names(g[1]) == ['first', 'second'], 'ordered_registries of two of the same priority')
    std = Thing(name='standard', priority=-10)
    state(F, 'order', 'Reader without registries', r, [], {'mccode_antlr.reader.registry.MCSTAS_REGISTRY': std}, ['standard'],
          'the registries of a reader that is given none')
    new = Thing(name='new', priority=0)
    m = F.method('Reader', 'prepend_registry', 'reg', steps=OPEN, opaque=())
    state(F, 'order', 'prepend_registry', m, regs, {'reg': new}, ['new', *names(regs)], 'the registries after prepend_registry')
    m = F.method('Reader', 'append_registry', 'reg', steps=OPEN, opaque=())
    state(F, 'order', 'append_registry', m, regs, {'reg': new}, [*names(regs), 'new'], 'the registries after append_registry')
    m = F.method('Reader', 'handle_search_keyword', 'spec', steps=KNOWN_LATER, opaque=())
    for match, made in ((False, new), (regs[0], new), (regs[-1], new), (False, None)):
        known = {'spec': 'S', 'registries_match': Given(lambda reg, spec: reg is match and spec == 'S'),
                 'registry_from_specification': Given(lambda spec: made if spec == 'S' else None), 'self.registries': regs}
        c = f'SEARCH {"of the registry " + match.fields["name"] + " there is" if match else "of a new one" if made else "of none"}'
        F.case('order', c, m, known, ('error',) if made is None and not match else ('value', None), c)
        if match or made:
            state(F, 'order', c + ', registries', m, regs, known, names(regs) if match else ['new', *names(regs)], f'the registries after a {c}')


def state(F, rule, construct, m, start, known, right, what):
    known = {**known, '()': lambda f, x: applied(m, f, x), 'self.registries': start}
    try:
        got = [r.fields['name'] for r in listed(m, 'self.registries', start, known)]
    except Undecided as x:
        got = f'not decided, because of {x}'
    F.check(rule, construct, got == right, f'{what}: {got} instead of {right}', m)


REG = ('LocalRegistry', 'ModuleRemoteRegistry', 'GitHubRegistry')
DISK = {'is_dir': {'/lib/dir', '/lib/other'}, 'is_file': {'/lib/reg.txt'}}


def disk(**more):
    out = {k: Given(lambda q, on=on: str(q) in on) for k, on in DISK.items()}
    out['exists'] = Given(lambda q: any(str(q) in on for on in DISK.values()))
    for n in ('resolve', 'absolute', 'expanduser'):
        out[n] = Given(lambda q: q)
    return {**out, **more}


def called_with(F, cls):
    names = [a.arg for a in F.p.method(F.p.find_class(cls), '__init__').node.args.args][1:]
    return Given(lambda *a, **k: (cls, {n: str(v) for n, v in {**dict(zip(names, a)), **k}.items() if v is not None}))


def specified(F):
    m = F.function('registry_from_specification', 'spec', steps=('simple_url_validator',), opaque=REG)
    known = disk(**{'simple_url_validator': Given(lambda s, *a, **k: isinstance(s, str) and s.startswith('http://'))},
                 **{'new:' + c: called_with(F, c) for c in REG}, **{c: called_with(F, c) for c in REG},
                 isinstance=Given(lambda *a: False))
    w = World({'spec': 'str'}, {'': False})
    for spec, right in (('/lib/dir', ('LocalRegistry', dict(name='/lib/dir', root='/lib/dir'))),
                        ('mine /lib/dir', ('LocalRegistry', dict(name='mine', root='/lib/dir'))),
                        ('"mine" "/lib/dir"', ('LocalRegistry', dict(name='mine', root='/lib/dir'))),
                        ('mine http://u /lib/reg.txt', ('ModuleRemoteRegistry', dict(name='mine', url='http://u', filename='/lib/reg.txt'))),
                        ('mine http://u v1.0 reg.txt', ('GitHubRegistry', dict(name='mine', url='http://u', version='v1.0', filename='reg.txt'))),
                        ('"mine" "http://u" "v1.0" "reg.txt"',
                         ('GitHubRegistry', dict(name='mine', url='http://u', version='v1.0', filename='reg.txt'))),
                        ('mine /nowhere', None), ('mine http://u', None), ('http://u', None), ('/nowhere', None), ('', None),
                        ('mine http://u /nowhere.txt', None), ('mine /nowhere v1.0 reg.txt', None)):
        F.case('specification', f'of {spec!r}', m, {**known, 'spec': spec}, ('value', right), f'the registry of {spec!r}', w)
    m = F.function('registry_from_specification', 'spec', steps=('simple_url_validator',), opaque=REG)
    F.case('specification', 'of a registry', m, {**known, 'spec': 'the registry'}, ('value', 'the registry'), 'the registry of a registry',
           World({'spec': 'Registry'}, {'': False}))
    m = F.function('registries_match', 'registry', 'spec', steps=OPEN, opaque=())
    here = dict(name='mine', root=P('/lib/dir'), pooch=None)
    there = dict(name='far', root=None, pooch=Thing(base_url='http://u', path='/c'))
    for spec, reg, right in (('/lib/dir', here, True), ('mine /lib/dir', here, True), ('/lib/other', here, False), ('x /lib/other', here, False),
                             ('/nowhere', here, False), ('mine /lib/dir', there, False), ('far http://u /lib/reg.txt', there, True),
                             ('far http://v /lib/reg.txt', there, False), ('far http://u /lib/reg.txt', here, False),
                             ('mine http://u v1 r.txt', here, False), ('far http://v v1 r.txt', there, False)):
        F.case('specification', f'{spec!r} is {reg["name"]}', m, disk(spec=spec, registry=Thing(**reg)),
               lambda g: g[0] == 'value' and bool(g[1]) is right, f'is the registry {reg["name"]} that of {spec!r}', w)
    for cls, fields in (('RemoteRegistry', ('name', 'pooch.path', 'pooch.base_url')), ('LocalRegistry', ('name', 'root'))):
        m = F.method(cls, '__eq__', 'other', steps=OPEN, opaque=())
        w2 = World({'other': 'Registry'}, {'': False})
        for k, differ in (('like it', ()), *((f'with another {f}', (f,)) for f in fields)):
            known = {f'{o}.{f}': 'x' if o == 'self' or f not in differ else 'y' for o in ('self', 'other') for f in fields}
            known.update({'other.pooch': Thing(path=known.get('other.pooch.path'), base_url=known.get('other.pooch.base_url')),
                          'self.pooch': Thing(path='x', base_url='x')})
            F.case('specification', f'{cls} equal to one {k}', m, known, lambda g: g[0] == 'value' and bool(g[1]) is not bool(differ),
                   f'{cls} equal to one {k}', w2)
    m = F.method('GitHubRegistry', '__init__', 'name', 'url', 'version', 'filename', 'registry', steps=('simple_url_validator',), opaque=())
    known = disk(name='N', url='U', version='v1', filename='F', **{'self.name': 'N', 'self.version': 'v1', 'pooch.os_cache': Given(lambda x: P('/c', x))})
    opens = [e for e in m.I.events if e.kind == 'mcall' and e.data[1] in ('open', 'read_text', 'write_text')]
    at = []
    for e in opens:
        try:
            at.append(str(value(m.freeze(e.data[0]), m.norm, known)))
        except (Unknown, TypeError, KeyError):
            at.append('?')
    F.check('specification', 'the stored list of files', len(at) == 2 and len(set(at)) == 1 and all(x in P(at[0]).parts for x in ('v1', 'F'))
            and 'N' in at[0], f'the list of the files of a version is stored and read at {at}', m)
    makes = [dict((kv.items[0].v, kv.items[1]) for kv in e.data[3].items) for e in m.I.events if e.kind == 'mcall' and e.data[1] == 'create']
    try:
        base = value(m.freeze(makes[0]['base_url']), m.norm, known) if makes else None
    except (Unknown, KeyError):
        base = None
    F.check('specification', 'where a version is', base == 'U/raw/v1/', f'the files of a version are fetched from {base}', m)
    m = F.method('CTargetVisitor', '__post_init__', steps=('ordered_registries', '_handle_raw_c_include', '_file_contents'))
    libc = Thing(name='libc')
    for regs in ([], ['mine'], ['mine', libc]):
        things = [x if isinstance(x, Thing) else Thing(name=x) for x in regs]
        known = {'self.source.registries': things, 'mccode_antlr.reader.registry.LIBC_REGISTRY': libc,
                 'ordered_registries': Given(lambda x: x)}
        try:
            got = value(m.freeze(m.field('source.registries')), m.norm, known)
            got = [x.fields['name'] for x in got]
        except (Unknown, TypeError, KeyError):
            got = '?'
        right = [x.fields['name'] for x in things] + ([] if libc in things else ['libc'])
        F.check('specification', f'translating with {[x.fields["name"] for x in things]}', got == right,
                f'the registries of the translation are {got} instead of {right}', m)
