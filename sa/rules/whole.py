"""C18: what an instrument is put together from (an included file, a parsed file, calls of the assembler) is all there"""
from __future__ import annotations
import re
from ..absint import K, App, Seq, Sym, Term, Const
from ..spec import World, Method, pieces
from ..project import AnalysisBroken

OTHER = ('Registry', 'Value', 'Vector', 'Angles', 'Orient', 'InstrVisitor', 'CompVisitor')
STEPS = ('Reader.get_component', 'Reader.add_component', 'Reader.contents', 'Reader.locate', 'Reader.fullname',
         'Instance.__post_init__', 'Instance.set_parameters', 'Instance.set_parameter', 'InstrumentParameter.parse',
         'blocks_to_raw_c', 'Instr.check_expr', 'Instr.add_component', 'Instr.add_parameter', 'Instr.get_component',
         'MetaData.from_instrument_tokens', 'Instr.add_metadata', 'extract_c_declared_variables',
         'make_reader_error_listener', 'Instr.add_included', 'ordered_registries')
SECTIONS = ('declare', 'user', 'initialize', 'save', 'final')


def where(f):
    return f'{f.module.path}:{f.node.lineno} in {f.qualname}'


class Facts:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep

    def method(self, cls, name, *args, kwargs=None, opaque=OTHER, steps=STEPS, **kw):
        c = self.p.find_class(cls)
        f = self.p.method(c, name)
        if f is None:
            raise AnalysisBroken(f'{cls}.{name} not found')
        self.rep.uses(f.module.name)
        return Method(self.p, f, args, kwargs, cls=c, opaque=opaque,
                      opaque_fn=[s for s in steps if s not in (f'{cls}.{name}', name)], **kw)

    def function(self, name, *args, kwargs=None, opaque=OTHER, steps=STEPS, **kw):
        fs = [g for m in self.p.modules.values() for g in m.functions.values() if g.name == name]
        if len(fs) != 1:
            raise AnalysisBroken(f'function {name} not found')
        self.rep.uses(fs[0].module.name)
        return Method(self.p, fs[0], args, kwargs, opaque=opaque, opaque_fn=[s for s in steps if s != name], **kw)

    def check(self, rule, construct, good, message, m):
        if good:
            self.rep.ok(rule, construct)
        else:
            self.rep.bad(rule, construct, message, where(m.f))

    def same(self, rule, construct, got, right, m, what=''):
        right = (right,) if isinstance(right, str) else right
        self.check(rule, construct, got in right, f'{what or construct} is {str(got)[:200]} instead of {right[0][:200]}', m)


def all_of(got, *parts, order=False, others=False):
    """is `got` (pieces) each of these sequences in full, in any order or this one; an element may be left out only when it
    is in one of them already"""
    seen = []
    for seq, elem, conds, once in got:
        if elem != '*':
            if seq == '' and elem in parts:
                seen.append(elem)
                continue
            return False
        if seq not in parts:
            if others:
                continue
            return False
        own = [f'{x}({seq}#*, {y})' for x in ('not(in', 'notin') for y in (*parts, "'", '[')]
        rest = [c for c in conds if not (any(c.startswith(x.rstrip(')')) for x in own) or c in (seq, f'not(not({seq}))', f'len({seq})', f'ne(len({seq}), 0)',
                                                  f'gt(len({seq}), 0)', f'lt(0, len({seq}))', f'not(eq(len({seq}), 0))',
                                                  f'not(le(len({seq}), 0))'))]
        if rest:
            return False
        seen.append(seq)
    if set(seen) != set(parts):
        return False
    if order:
        first = list(dict.fromkeys(seen))
        return first == list(parts) and len(seen) == len(parts)
    return True


def c18(p, rep):
    F = Facts(p, rep)
    rep.rule('include', '%include adds every parameter, metadata, flag and C block of the other instrument, and its components in '
                        'order unless REMOVABLE, after what is there')
    rep.rule('loaded', 'a loaded or parsed instrument is the one read from the text given, with all C flags and registries of its '
                       'reader')
    rep.rule('library', 'a component type is read once from the component file of its name, and every use gets that one')
    rep.rule('assembled', 'each call of the assembler adds what it is given, unchanged, to the field it is for')
    include(F)
    loaded(F)
    library(F)
    assembled(F)
    made(F)
    for r, n, what in (('include', 11, 'facts'), ('loaded', 20, 'facts'), ('library', 7, 'facts'), ('assembled', 40, 'facts')):
        rep.need(r, n, what)


def include(F):
    m = F.method('InstrVisitor', 'visitInstrument_trace_include', 'ctx')
    name = 'the included instrument'
    calls = m.done(World(), {'get_instrument'})
    F.check('include', 'reads the file', len(calls) == 1 and calls[0][0] and calls[0][1] ==
            'self.parent.get_instrument(inner(StringLiteral), self.state)',
            f'the file is read by {[c[1] for c in calls]} instead of parent.get_instrument(name, destination=this instrument)', m)
    if not calls:
        return
    X = calls[0][1]
    for f in SECTIONS:
        got = m.pieces(m.field('state.' + f), World())
        F.check('include', f'section {f}', all_of(got, f'self.state.{f}', f'{X}.{f}', order=True),
                f'the {f} blocks are {short(got)} instead of those there were and those of {name}', m)
    got = m.pieces(m.field('state.flags'), World())
    F.check('include', 'flags', all_of(got, 'self.state.flags', f'{X}.flags'), f'the C flags are {short(got)} instead of those '
            f'there were and those of {name}', m)
    for what, call, right in (('parameters', 'add_parameter', ', True)'), ('metadata', 'add_metadata', ')')):
        cs = m.done(World(), {call})
        F.check('include', what, [c[:2] for c in cs] == [(True, f'each({X}.{what}: self.state.{call}({X}.{what}#*{right})')],
                f'{what} of {name} are added by {[c[:2] for c in cs]}'[:300] + ' instead of each of them (the ones there first stay)', m)
    for removable in (True, False):
        w = World(flags={f'{X}.components#*.removable': removable})
        cs = m.done(w, {'add_component'})
        own = [c for c in cs if c[1] in (f'each({X}.components: self.state.add_component({X}.components#*))',)]
        F.check('include', f'components, removable {removable}', cs == [] if removable else
                len(cs) == 1 and own == cs and cs[0][0], f'a component of {name} that is {"" if removable else "not "}REMOVABLE is '
                f'added by {[c[:2] for c in cs]}'[:300], m)
    cs = m.done(World(), {'add_included'})
    F.check('include', 'name', [c[1] for c in cs] == [f'self.state.add_included({X}.name)'], f'the name recorded is '
            f'{[c[1] for c in cs]}', m)


def short(x):
    return str([(s[-60:], e[-40:], sorted(c[-60:] for c in cs)) for s, e, cs, _ in x])[:260]


def loaded(F):
    m = F.method('Reader', 'get_instrument', 'name', 'destination', 'mode')
    for exists in (True, False):
        w = Found(exists)
        x = m.result(w)
        reads = [c for c in m.done(w, {'InstrVisitor'})]
        text = [c[1] for c in m.done(w, {'InputStream'})]
        path = 'path' if exists else 'locate(self, path.name)'
        right = 'InputStream(path.read_text())' if exists else f'InputStream(contents(self, {path}.name))'
        alt = [right] if exists else [right, f'InputStream(contents(self, path.name))']
        F.check('loaded', f'text, file there {exists}', [w.plain(t) for t in text] in [[a] for a in alt],
                f'the text read is {[w.plain(t) for t in text]} instead of that of {right}', m)
        flds = m.fold(m.raw, w)
        vis = first(flds, 'new:InstrVisitor')
        kw = named(m, vis)
        for k, right in (('parent', ('self',)), ('destination', ('destination',)), ('mode', ('mode',))):
            got = m.norm(kw[k]) if k in kw else None
            F.same('loaded', f'visitor {k}, file there {exists}', got, right, m)
        got = w.plain(m.norm(kw['filename'])) if 'filename' in kw else None
        F.same('loaded', f'file name, file there {exists}', got, (f'{path}.resolve()', f'{path}.absolute()', f'{path}.as_posix()',
                                                                 path), m)
        got = m.pieces(m.field('flags', m.raw), w)
        F.check('loaded', f'flags, file there {exists}', all_of(got, 'self.c_flags', x + '.flags'),
                f'the C flags are {short(got)} instead of those of the components and those of the instrument', m)
        got = m.pieces(m.field('registries', m.raw), w)
        F.check('loaded', f'registries, file there {exists}', all_of(got, 'self.registries') or
                all_of(got, 'self.registries', x + '.registries'), f'the registries are {short(got)} instead of those of the reader', m)
        got = w.plain(m.show(m.field('source', m.raw), w))
        F.check('loaded', f'source, file there {exists}', got.startswith(path), f'the source is {got}', m)
    m = F.function('parse_mccode_instr', 'contents', 'registries', 'source', opaque=OTHER + ('Reader',))
    w = World({'source': 'str'}, {'source': True})
    x = m.result(w)
    vis = first(m.fold(m.raw, w), 'new:InstrVisitor')
    kw = named(m, vis)
    R = 'Reader(registries=registries)'
    F.same('loaded', 'parsed: reader', m.norm(kw['parent']) if 'parent' in kw else None, R, m)
    F.same('loaded', 'parsed: file name', m.norm(kw['filename']) if 'filename' in kw else None, 'source', m)
    F.check('loaded', 'parsed: text', [c[1] for c in m.done(w, {'InputStream'})] == ['InputStream(contents)'],
            'the text parsed is not the text given', m)
    xs = {m.norm(m.freeze(m.raw)), x}
    got = [(('X' + s[len(y):] if (y := next((z for z in xs if s.startswith(z)), None)) else s), e,
            frozenset(c.replace(s, 'X' + s[len(y):]) if y else c for c in cs), o)
           for s, e, cs, o in pieces(m.freeze(m.field('flags', m.raw)), m.norm)]
    F.check('loaded', 'parsed: flags', all_of(got, 'X.flags', f'{R}.c_flags'), f'the C flags are {short(got)} instead of those of '
            f'the instrument and those of its components', m)
    got = pieces(m.freeze(m.field('registries', m.raw)), m.norm)
    got = [g for g in got if not g[0].endswith(').registries') or g[0] == f'{R}.registries']
    F.check('loaded', 'parsed: registries', all_of(got, f'{R}.registries', 'registries') or all_of(got, f'{R}.registries'),
            f'the registries are {short(got)} instead of those given and those the reader found', m)
    have = ('ensure_registry', 'parse_mccode_instr', 'load_mccode_instr')
    for flavour in ('mcstas', 'mcxtrace'):
        reg = f'mccode_antlr.reader.registry.{flavour.upper()}_REGISTRY'
        m = F.function(f'load_{flavour}_instr', 'filename', 'registries', steps=STEPS + have[:2])
        with_reg = f'ensure_registry({reg}, registries)'
        F.same('loaded', f'load_{flavour}_instr', m.result(World()), f'parse_mccode_instr(pathlib.Path(filename).read_text(), '
               f'{with_reg}, filename)', m)
        m = F.function(f'parse_{flavour}_instr', 'contents', 'registries', steps=STEPS + have[:2])
        F.same('loaded', f'parse_{flavour}_instr', m.result(World()), f'parse_mccode_instr(contents, {with_reg})', m)
    m = F.function('load_mccode_instr', 'filename', 'registries', steps=STEPS + have[:2])
    F.same('loaded', 'load_mccode_instr', m.result(World()), 'parse_mccode_instr(pathlib.Path(filename).read_text(), registries, '
           'filename)', m)
    m = F.function('ensure_registry', 'needed', 'have')
    none = Method(F.p, m.f, [Sym('needed'), K(None)])
    F.check('loaded', 'a library when none is given', none.pieces(none.raw, World()) == [('', 'needed', frozenset(), False)],
            'without registries the standard library is not used', m)
    empty = Method(F.p, m.f, [Sym('needed'), Seq('list', ())])
    F.check('loaded', 'a library when the list is empty', empty.pieces(empty.raw, World()) == [('', 'needed', frozenset(), False)],
            'with an empty list of registries the standard library is not used', m)
    for there in (True, False):
        w = World({'have': 'list'}, {'have': True, 'eq(len(have), 0)': False, 'in(needed, have)': there, 'notin(needed, have)': not there,
                                     'len(have)': True})
        got = m.pieces(m.raw, w)
        ok = got == [('have', '*', frozenset(), False)] if there else all_of(got, 'have', 'needed') and len(got) == 2
        got = [(s, e, c - {'have'}, o) for s, e, c, o in got if s != '[]']
        ok = ok or not there and all_of(got, 'have', 'needed')
        F.check('loaded', f'a library when given, present {there}', ok, f'the registries become {short(got)}', m)


class Found(World):
    """the file is there, or not; `path` is it"""

    def __init__(self, exists):
        super().__init__({'name': 'str'})
        self.exists = exists

    def decide(self, c, norm):
        from ..absint import MCall
        if isinstance(c, MCall) and c.name in ('exists', 'is_file'):
            return self.exists
        if isinstance(c, App) and c.fn in ('eq', 'ne') and any(norm(a).endswith('.suffix') for a in c.args) and \
                K('.instr') in c.args:
            return c.fn == 'eq'
        return super().decide(c, norm)

    @staticmethod
    def plain(t):
        # (how the registries match the name is a matter of C21)
        t = re.sub(r', (?:strict=|which=|ext=)?(?:True|False|None)(?=[,)])', '', t or '')
        return t.replace('pathlib.Path(name)', 'path').replace('antlr4.', '')


def named(m, t):
    """the arguments of a constructor by name"""
    if t is None:
        return {}
    names = m.norm.ctor(t.fn[4:]) or []
    return {**dict(zip(names, t.args)), **dict(t.kw)}


def first(t, fn):
    from ..absint import walk
    for x in walk(t):
        if isinstance(x, App) and x.fn == fn:
            return x
    return None


def library(F):
    m = F.method('Reader', 'get_component', 'name', 'instance')
    for known in (True, False):
        w = World(flags={'in(name, self.components)': known, 'notin(name, self.components)': not known})
        cs = m.done(w, {'add_component'})
        F.same('library', f'what is returned, known {known}', m.result(w), ('self.components[name]', 'self.components.get(name)'), m)
        F.check('library', f'reading, known {known}', [c[1] for c in cs] == ([] if known else
                ['self.add_component(name, current_instance_name=instance)']) or not known and [c[1] for c in cs] ==
                ['self.add_component(name, instance)'], f'a component type that is {"" if known else "not "}known is read by '
                f'{[c[1] for c in cs]}', m)
    m = F.method('Reader', 'add_component', 'name', 'instance')
    w = World(flags={'in(name, self.components)': False, 'notin(name, self.components)': True, 'C.category given': True},
              default=None)
    sets = [e for e in m.I.events if e.kind == 'setitem' and m.show(e.data[0], w) == 'self.components']
    F.check('library', 'stored', len(sets) == 1 and m.show(sets[0].data[1], w) == 'name' and not sets[0].loops,
            'the component type read is not stored under its name', m)
    file = "(self, name, ext='.comp', strict=True)"
    texts = [c[1] for c in m.done(w, {'InputStream'})]
    F.same('library', 'text', texts[0] if len(texts) == 1 else str(texts), f'InputStream(contents{file})', m)
    if sets:
        t = m.fold(sets[0].data[2], w)
        vis = first(t, 'new:CompVisitor')
        kw = named(m, vis)
        F.check('library', 'what is stored', vis is not None and 'McComp_parse(antlr4.InputStream(contents' in m.norm(t),
                f'what is stored is {m.norm(t)[:200]} instead of the component read', m)
        for k, right in (('parent', ('self',)), ('filename', (f'locate{file}',)), ('instance_name', ('instance',))):
            F.same('library', f'reader {k}', m.norm(kw[k]) if k in kw else None, right, m)
    guess = [e for e in m.I.events if e.kind == 'setattr' and e.data[1] == 'category']
    for e in guess:
        F.check('library', 'category', any('category' in m.norm(m.freeze(c)) and 'None' in m.norm(m.freeze(c)) for c, _ in e.pc),
                'the category of a component file that gives one is replaced', m)


X3 = Seq('tuple', (Sym('x'), Sym('y'), Sym('z')))


def three(cls, names='xyz'):
    return f'{cls}(' + ', '.join(f'{a}=check_expr(self.instrument, {b})' for a, b in zip('xyz', names)) + ')'


def assembled(F):
    zero = {c: {f'{c}(' + ', '.join(f'{a}=Expr.{t}(0)' for a in 'xyz') + ')' for t in ('float', 'int')} for c in ('Vector', 'Angles')}
    opaque = OTHER + ('Expr', 'InstrumentParameter')
    U3 = Seq('tuple', (Sym('u'), Sym('v'), Sym('w')))
    ats = {'none': (K(None), None), 'three': (X3, None), 'absolute': (Seq('tuple', (X3, K('ABSOLUTE'))), None),
           'absolute in lower case': (Seq('tuple', (X3, K('absolute'))), None),
           'None': (Seq('tuple', (X3, K(None))), None), 'name': (Seq('tuple', (X3, Sym('r'))), 'get_component(self.instrument, r)'),
           'instance': (Seq('tuple', (X3, Sym('q'))), 'q')}
    rots = {'none': (K(None), 'at'), 'three': (U3, 'at'), 'absolute': (Seq('tuple', (U3, K('ABSOLUTE'))), None),
            'name': (Seq('tuple', (U3, Sym('s'))), 'get_component(self.instrument, s)'),
            'instance': (Seq('tuple', (U3, Sym('t'))), 't')}
    fl = {'self.reader.c_flags': True, 'parameters': True}
    for n in 'rs':
        for a in (f"eq({n}.lower(), 'absolute')", f"eq('absolute', {n}.lower())", f"eq({n}.upper(), 'ABSOLUTE')",
                  f"eq('ABSOLUTE', {n}.upper())"):
            fl[a] = False
            fl['ne' + a[2:]] = True
    T = 'self.reader.get_component(type_name)'
    for pair in (f'type_name, {T}.name', f'{T}.name, type_name'):
        fl[f'eq({pair})'], fl[f'ne({pair})'] = True, False
    W = World({'r': 'str', 's': 'str', 'q': 'Instance', 't': 'Instance', 'grp': 'str', 'parameters': 'dict'}, fl)
    for an, (a, aref) in ats.items():
        for rn, (r, rref) in rots.items():
            m = F.method('Assembler', 'component', 'name', 'type_name', a, r, 'parameters', kwargs={'group': 'grp'}, opaque=opaque)
            at, rot = (m.fold(m.field(f, m.raw), W) for f in ('at_relative', 'rotate_relative'))
            got = [m.norm(x) for x in at.items] if isinstance(at, Seq) else []
            right = [zero['Vector'] if an == 'none' else {three('Vector')}, {str(aref)}]
            F.check('assembled', f'at {an}, rotate {rn}: position', len(got) == 2 and all(g in x for g, x in zip(got, right)),
                    f'a component assembled with at={an}, rotate={rn} has position {m.norm(at)[:200]}', m)
            got = [m.norm(x) for x in rot.items] if isinstance(rot, Seq) else []
            right = [zero['Angles'] if rn == 'none' else {three('Angles', 'uvw')}, {str(aref if rref == 'at' else rref)}]
            F.check('assembled', f'at {an}, rotate {rn}: rotation', len(got) == 2 and all(g in x for g, x in zip(got, right)),
                    f'a component assembled with at={an}, rotate={rn} has rotation {m.norm(rot)[:200]}', m)
    for f, right in (('name', 'name'), ('type', T), ('group', 'grp')):
        F.same('assembled', f'component {f}', m.show(m.field(f, m.raw), W), right, m)
    cs = m.done(W, {'add_component'})
    inst = m.norm(m.fold(m.raw, W))
    F.check('assembled', 'component added', len(cs) == 1 and cs[0][0] and not cs[0][2].loops and
            cs[0][1] == f'self.instrument.add_component({inst})', f'the component is added by {[c[1] for c in cs]}'[:250], m)
    cs = m.done(W, {'set_parameters', 'set_parameter'})
    ok = [x.replace('I', inst) for x in ('I.set_parameters(**=parameters)', 'I.set_parameters(*parameters)',
                                         'each(parameters.items(): I.set_parameter(parameters.items()#*[0], parameters.items()#*[1]))',
                                         'each(parameters.items(): I.set_parameter(*parameters.items()#*))',
                                         'each(ditems(parameters): I.set_parameter(keys(parameters)#*, values(parameters)#*))',
                                         'each(parameters: I.set_parameter(parameters#*, parameters[parameters#*]))')]
    F.check('assembled', 'component parameters', len(cs) == 1 and cs[0][0] and cs[0][1] in ok,
            f'the parameters of the component are set by {[c[1] for c in cs]}'[-250:], m)
    got = m.pieces(m.field('instrument.flags'), W)
    F.check('assembled', 'component flags', all_of(got, 'self.instrument.flags', 'self.reader.c_flags'),
            f'the C flags become {short(got)}', m)
    for kind, right in (('InstrumentParameter', 'par'), ('str', 'parse(par)')):
        m = F.method('Assembler', 'parameter', 'par', 'ign', opaque=opaque)
        cs = m.done(World({'par': kind}), {'add_parameter'})
        F.check('assembled', f'parameter as {kind}', [c[:2] for c in cs] == [(True, f'self.instrument.add_parameter({right}, ign)')],
                f'a parameter given as {kind} is added by {[c[1] for c in cs]}', m)
    unit = ("''", 'None')
    for what, v, types, right in (
            ('parameter', Sym('v'), {'v': 'InstrumentParameter'}, ['v']),
            ('expression', Sym('v'), {'v': 'Expr'}, [f'InstrumentParameter(name=\'k\', unit={u}, value=v)' for u in unit]),
            ('number', Sym('v'), {'v': 'float'}, [f'InstrumentParameter(name=\'k\', unit={u}, value=Expr.best(v))' for u in unit]),
            ('pair', Seq('tuple', (Sym('a'), Sym('b'))), {'a': 'float', 'b': 'str'},
             ["InstrumentParameter(name='k', unit=b, value=Expr.best(a))"]),
            ('pair with an expression', Seq('tuple', (Sym('a'), Sym('b'))), {'a': 'Expr', 'b': 'str'},
             ["InstrumentParameter(name='k', unit=b, value=a)"]),
            ('dictionary', Sym('v'), {'v': 'dict', "v['value']": 'float'},
             ["InstrumentParameter(name='k', unit=v['unit'], value=Expr.best(v['value']))"])):
        m = F.method('Assembler', 'parameters', Sym('p'), Sym('q'), kwargs={'k': v}, opaque=opaque)
        w = World({**types, 'p': 'str', 'q': 'InstrumentParameter'}, {"in('unit', v)": True, "in('value', v)": True})
        cs = [c[:2] for c in m.done(w, {'add_parameter'})]
        F.check('assembled', f'parameters: {what}', cs in [[(True, f'self.instrument.add_parameter({x})') for x in
                ('parse(p)', 'q', y)] for y in right], f'a parameter given as {what} is added by {cs}'[:300], m)
    for name, f in (('declare', 'declare'), ('user_vars', 'user'), ('initialize', 'initialize'), ('save', 'save'), ('final', 'final')):
        m = F.method('Assembler', name, 'string', 'source', 'line', opaque=opaque)
        w = World({'source': 'str', 'string': 'str'})
        got = m.show(m.field(f'instrument.{f}'), w)
        blk = 'RawC(filename=source, line=line, source=string, translated=None)'
        F.same('assembled', f'{name}()', got, (f'[*self.instrument.{f}, *blocks_to_raw_c({blk})]', f'[*self.instrument.{f}, {blk}]'), m)
        for g in SECTIONS:
            if g != f:
                F.same('assembled', f'{name}() and {g}', m.show(m.field(f'instrument.{g}'), w), f'self.instrument.{g}', m)
    m = F.method('Assembler', 'metadata', 'name', 'mimetype', 'value', 'source', opaque=opaque)
    F.check('assembled', 'metadata', [c[:2] for c in m.done(World(), {'add_metadata'})] == [
            (True, 'self.instrument.add_metadata(from_instrument_tokens(source, mimetype, name, value))')],
            'metadata is not added as given', m)


def made(F):
    args = dict(name='name', component='component', at_relative='at', rotate_relative='rot', orientation='ori',
                parameters='pars', group='grp', removable='rem')
    m = F.method('Instr', 'make_instance', kwargs=args, opaque=OTHER + ('Reader',), steps=[x for x in STEPS if 'Instr.add_' not in x])
    for kind in ('str', 'Comp'):
        w = World({'component': kind, 'pars': 'tuple'}, {'any([each(self.components: eq(self.components#*.name, name))])': False,
                  'any([each(self.components: eq(name, self.components#*.name))])': False})
        t = m.fold(m.field('components'), w)
        got = pieces(t, m.norm)
        F.check('assembled', f'make_instance, {kind}: components', len(got) == 2 and got[0] == ('self.components', '*', frozenset(), False)
                and got[1][0] == '', f'the components become {short(got)}', m)
        inst = first(t, 'new:Instance')
        kw = named(m, inst)
        r = first(m.fold(m.raw, w) if inst is None else inst, 'new:Reader')
        R = m.norm(r) if r is not None else 'Reader'
        if kind == 'str':
            F.same('assembled', 'make_instance: registries', R, ('Reader(registries=[*self.registries])',
                                                                  'Reader(registries=self.registries)'), m)
        comp = (f'{R}.get_component(component)', f'get_component({R}, component)') if kind == 'str' else ('component',)
        for f, right in (('name', 'name'), ('type', comp), ('at_relative', 'at'), ('rotate_relative', 'rot'), ('orientation', 'ori'),
                         ('parameters', ('pars', '[*pars]')), ('group', 'grp'), ('removable', 'rem')):
            F.same('assembled', f'make_instance, {kind}: {f}', m.norm(kw[f]) if f in kw else None, right, m)
        if kind == 'str':
            got = m.pieces(m.field('flags'), w)
            F.check('assembled', 'make_instance: flags', all_of(got, 'self.flags', f'{R}.c_flags'), f'the C flags become {short(got)}', m)
