"""C14: every clause of a source file ends in its own field.  C15: expressions are read as written"""
from __future__ import annotations
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Item, Const, Str, Phi, Seq, Rep, Opt, Ref, Sym, ClsV,
                      HObj, walk)
from ..norm import Scene, Fold, Norm
from ..project import AnalysisBroken, Class
from .parse import visitors, where

OPAQUE = {'Expr', 'Value', 'Orient', 'Vector', 'Angles', 'MetaData', 'UnaryOp', 'BinaryOp', 'TrinaryOp'}
OPAQUE_FN = {'blocks_to_raw_c', 'Instance.__post_init__', 'Instr.add_component', 'Instance.set_parameter',
             'Instr.add_parameter', 'Instr.add_metadata', 'Comp.add_metadata', 'Comp.add_define', 'Comp.add_setting',
             'Comp.add_output', 'Instance.add_metadata', 'Instr.determine_groups', 'Comp.no_acc', 'Instr.get_parameter',
             'Comp.get_parameter', 'Instr.get_component', 'Instr.last_component'}


class Run:
    """one visitor method, interpreted once over an arbitrary parse tree node"""

    def __init__(self, p, cls, f, args=None):
        self.p, self.cls, self.f = p, cls, f
        I = self.I = Interp(p)
        I.opaque |= OPAQUE
        I.opaque_fn |= OPAQUE_FN
        I.identity = {'copy'}  # it has the same contents; C16 is about what is shared
        st = self.st = State()
        self.me = I.sym('self', cls)
        ctx = I.sym('ctx')
        if f.cls is None:
            self.value = I.call_func(f, [self.me, ctx], {}, st)
        else:
            self.value = I.call_func(f, [ctx], {}, st, self_=self.me)
        self.norm = Norm(p)

    def field(self, path):
        t = self.me
        for x in path.split('.'):
            t = self.I.attr(t, x, self.st)
        return t

    def show(self, t, scene):
        return self.norm(Fold(scene, self.norm)(self.I.freeze(t, self.st) if isinstance(t, Term) else t))

    def calls(self, scene):
        """(text of the call, in a loop over) for every call with an effect that happens in this scenario, in order"""
        fold = Fold(scene, self.norm)
        out = []
        for e in self.I.events:
            if e.kind not in ('mcall', 'call'):
                continue
            ds = [scene.decide(fold(c), self.norm) if pol else _not(scene.decide(fold(c), self.norm)) for c, pol in e.pc]
            if False in ds:
                continue
            sure = None not in ds
            out.append((e, sure))
        return out

    def raises(self, scene):
        fold = Fold(scene, self.norm)
        for e in self.I.events:
            if e.kind == 'raise':
                ds = [scene.decide(fold(c), self.norm) if pol else _not(scene.decide(fold(c), self.norm)) for c, pol in e.pc]
                if all(d is True for d in ds):
                    return True
        return False


def _not(x):
    return None if x is None else not x


# --------------------------------------------------------------------------------------------- what each clause becomes
# (language, production, clauses present or other facts, what is asked, answers that are right)
EXPR0 = ('Expr.int(0)', 'Expr.float(0)', "Expr.int('0')")


def S(present=None, isa=None, flags=None, default=None):
    return Scene(present, isa, flags, default)


def returned():
    """(language, production, scenario, right values)"""
    out = []

    def r(lang, name, scene, *right):
        out.append((lang, name, scene, right))
    I, C = 'McInstr', 'McComp'
    for n, t in (('Double', 'float'), ('Integer', 'int')):
        for unit in (True, False):
            u = 'v(instrument_parameter_unit)' if unit else 'None'
            for has in (True, False):
                r(I, f'visitInstrumentParameter{n}', S(dict(Assign=has, expr=has, instrument_parameter_unit=unit)),
                  f'InstrumentParameter(name=text(Identifier), unit={u}, value=Expr.{t}({"v(expr)" if has else None}))')
        for has, zero in ((True, False), (True, True), (False, False)):
            v = ('0' if zero else 'v(expr)') if has else 'None'
            r(C, f'visitComponentParameter{n}', S(dict(Assign=has, expr=has and not zero)),
              f'ComponentParameter(name=text(Identifier), value=Expr.{t}({v}))')
    for unit in (True, False):
        u = 'v(instrument_parameter_unit)' if unit else 'None'
        for has, lit in ((True, True), (True, False), (False, False)):
            v = ("text(StringLiteral)" if lit else "'NULL'") if has else 'None'
            r(I, 'visitInstrumentParameterString', S(dict(Assign=has, StringLiteral=lit, instrument_parameter_unit=unit)),
              f'InstrumentParameter(name=text(Identifier), unit={u}, value=Expr.str({v}))')
            if unit:
                r(C, 'visitComponentParameterString', S(dict(Assign=has, StringLiteral=lit)),
                  f'ComponentParameter(name=text(Identifier), value=Expr.str({v}))')
    for n, t in (('Vector', 'float'), ('DoubleArray', 'float'), ('IntegerArray', 'int')):
        for has, what in ((False, None), (True, 'list'), (True, 'name'), (True, None)):
            sc = S({'Assign': has, 'initializerlist': what == 'list', 'Identifier#1': what == 'name', 'Null': has and not what})
            if what == 'list':
                v = 'v(initializerlist)'
            else:
                d = {'name': 'text(Identifier#1)', None: "'NULL'" if has else 'None'}[what]
                v = f'Expr(expr=Value(value={d}, data_type=DataType.{t}, shape_type=ShapeType.vector))'
            r(C, f'visitComponentParameter{n}', sc, f'ComponentParameter(name=text(Identifier#0), value={v})')
    r(C, 'visitComponent_parameters', S(), '[each(component_parameter: v(component_parameter#*))]')
    r(I, 'visitInstrument_parameter_unit', S(), 'text(StringLiteral)')
    number = 'add(len(self.state.components), 1)', 'add(1, len(self.state.components))'
    r(I, 'visitInstanceNameCopyIdentifier', S(), *[f"join(Identifier, '_', {x})" for x in number])
    r(I, 'visitInstanceNameCopy', S(), *[f"join('Comp_', {x})" for x in number])
    r(I, 'visitInstanceNameIdentifier', S(), 'text(Identifier)')
    r(I, 'visitComponentTypeCopy', S(), 'v(component_ref)')
    r(I, 'visitComponentTypeIdentifier', S(), 'self.parent.get_component(text(Identifier), '
      'current_instance_name=self.current_instance_name)')
    r(I, 'visitInstance_parameters', S(), '[each(instance_parameter: v(instance_parameter#*))]')
    r(I, 'visitInstanceParameterExpr', S(), '[text(Identifier), v(expr)]')
    par = 'self.current_comp.get_parameter(text(Identifier)).value'
    null = f"Value(value='NULL', data_type={par}.data_type, shape_type={{}}))]"
    for vec in (True, False):
        r(I, 'visitInstanceParameterNull', S(flags={f'{par}.is_vector': vec, f'{par}.is_scalar': not vec}),
          *([f'[text(Identifier), Expr(expr=' + null.format(x) for x in (f'{par}.shape_type', 'ShapeType.vector')] if vec else
            ["[text(Identifier), Expr.str('NULL')]"]))
    r(I, 'visitInstanceParameterVector', S(), '[text(Identifier), v(initializerlist)]')
    r(I, 'visitSplit', S(dict(expr=True)), 'v(expr)')
    r(I, 'visitSplit', S(dict(expr=False)), 'Expr.int(10)')
    r(I, 'visitWhen', S(), 'v(expr)')
    r(I, 'visitPlace', S(), '[Vector(*v(coords)), v(reference)]')
    r(I, 'visitOrientation', S(), '[Angles(*v(coords)), v(reference)]')
    r(I, 'visitCoords', S(), '[each(expr: v(expr#*))]', '[v(expr#0), v(expr#1), v(expr#2)]')
    r(I, 'visitReference', S(dict(Absolute=True)), 'None')
    r(I, 'visitReference', S(dict(Absolute=False)), 'v(component_ref)')
    r(I, 'visitGroupref', S(), 'text(Identifier)')
    r(I, 'visitExtend', S(), 'v(unparsed_block)')
    r(I, 'visitJumps', S(), '[each(jump: v(jump#*))]')
    for it in (True, False):
        r(I, 'visitJump', S(dict(Iterate=it, When=not it)), 'Jump(target=v(jumpname)[0], relative_target=v(jumpname)[1], '
          f'iterate={it}, condition=v(expr), absolute_target=default(\'-1\'))')
    for word, sign in (('Previous', -1), ('Next', 1)):
        W, num = word.upper(), 'int(text(IntegerLiteral))'
        r(I, f'visitJump{word}', S(dict(IntegerLiteral=False)), f"['{W}', {sign}]")
        many = [f'neg({num})', f'mul(-1, {num})', f'mul({num}, -1)'] if sign < 0 else [num]
        r(I, f'visitJump{word}', S(dict(IntegerLiteral=True)), *[f"[join('{W}_', IntegerLiteral), {m}]" for m in many])
    r(I, 'visitJumpMyself', S(), "['MYSELF', 0]")
    r(I, 'visitJumpIdentifier', S(), '[text(Identifier), 0]')
    for lang in (I, C):
        r(lang, 'visitUnparsed_block', S(dict(start=True)), '[self.filename, start.line, text(UnparsedBlock)[2:-2]]')
    for mime in (True, False):
        for name in (True, False):
            a = 'mime.text' if mime else 'inner(mime.text)'
            b = 'name.text' if name else 'inner(name.text)'
            r(I, 'visitMetadata', ident(I, mime, name), f'[{a}, {b}, v(unparsed_block)[2]]')
    for count in (True, False):
        n = 'int(text(IntegerLiteral))' if count else '1'
        fits = f'{n}<=len(self.state.components)'
        for inside in (True, False):
            who, k = ('self.state', n) if inside else ('self.destination', f'sub({n}, len(self.state.components))')
            r(I, 'visitComponent_ref', S(dict(Previous=True, IntegerLiteral=count),
                                         flags={fits: inside, 'self.destination given': True}),
              f'last_component({who}, {k}, True)', f'last_component({who}, {k})', f'last_component({who}, {k}, removable_ok=True)',
              f'{who}.last_component({k}, True)', f'{who}.last_component({k})')
    return out


def ident(lang, mime, name):
    """a scenario in which the MIME type and the name are identifiers, or not"""
    fl = {}
    for tok, v in (('mime', mime), ('name', name)):
        for a in ('Identifier', 'StringLiteral'):
            for mod in (f'mccode_antlr.grammar.{lang}Parser', f'{lang}Parser'):
                val = v == (a == 'Identifier')
                fl[f'eq({tok}.type, {mod}.{a})'] = val
                fl[f'eq({mod}.{a}, {tok}.type)'] = val
                fl[f'ne({tok}.type, {mod}.{a})'] = not val
                fl[f'ne({mod}.{a}, {tok}.type)'] = not val
    return S(flags=fl)


SECTIONS_I = dict(Declare='declare', Initialize='initialize', Save='save', Finally='final')
SECTIONS_C = dict(SECTIONS_I, Share='share', Trace='trace', Display='display')


def stored():
    """(language, production, scenario, field of the object read, right values)"""
    out = []

    def r(lang, name, scene, field, *right):
        out.append((lang, name, scene, field, right))
    I, C = 'McInstr', 'McComp'
    block = 'blocks_to_raw_c(v(unparsed_block))'
    for lang, secs in ((I, SECTIONS_I), (C, SECTIONS_C)):
        for n, f in secs.items():
            r(lang, f'visit{n}Block', S(), f'state.{f}', f'[*self.state.{f}, *{block}]')
        r(lang, 'visitUservars', S(), 'state.user', f'[*self.state.user, *{block}]')
    for n, f in SECTIONS_C.items():
        src = f'self.parent.get_component(text(Identifier)).{f}'
        for had in (True, False):
            for ext in (True, False):
                sc = S(dict(Extend=ext), flags={f'self.state.{f}': had, f'len(self.state.{f})': had,
                                                f'0<=len(self.state.{f})': True, f'len(self.state.{f})<=0': not had,
                                                f'1<=len(self.state.{f})': had})
                each = f'each({src}: {src}#*)'
                add = ', v(unparsed_block)' if ext else ''
                olds = ['*[]', '', f'*self.state.{f}'] if not had else ['*[]', '']
                plain = [f'blocks_to_raw_c(*{src})', f'blocks_to_raw_c(*[*{src}])', f'blocks_to_raw_c(*[{each}])',
                         f'blocks_to_raw_c({each})', f'blocks_to_raw_c(*[*[{each}]])', f'blocks_to_raw_c(*[*[*{src}]])']
                new = plain if not ext else \
                    [f'blocks_to_raw_c(*[{each}{add}])', f'blocks_to_raw_c({each}{add})',
                     f'blocks_to_raw_c(*[*{src}{add}])', f'blocks_to_raw_c(*{src}{add})',
                     f'blocks_to_raw_c(*[*[{each}{add}]])', f'blocks_to_raw_c(*[*[*{src}{add}]])']
                r(C, f'visit{n}BlockCopy', sc, f'state.{f}',
                  *[f'[{o}{", " if o else ""}*{x}]' for o in olds for x in new],
                  *[f'[{o}{", " if o else ""}*{x}, *{block}]' for o in olds for x in plain if ext])
    r(I, 'visitInstrument_definition', S(), 'state.name', 'text(Identifier)')
    r(I, 'visitDependency', S(), 'state.flags', '[*self.state.flags, inner(StringLiteral)]')
    r(C, 'visitComponentDefineNew', S(dict(NoAcc=False)), 'state.name', 'text(Identifier)')
    for a in (True, False):
        r(C, 'visitCategory', S(dict(Identifier=a, StringLiteral=not a)), 'state.category',
          'text(Identifier)' if a else 'inner(StringLiteral)')
    src = 'self.parent.get_component(text(Identifier#1))'
    r(C, 'visitComponentDefineCopy', S(dict(NoAcc=False)), 'state', f'deepcopy({src})')
    r(C, 'visitComponentDefineCopy', S(dict(NoAcc=False)), 'state.name', 'text(Identifier#0)')
    return out


EFFECTS = {'add_parameter', 'add_define', 'add_setting', 'add_output', 'add_metadata', 'set_parameter', 'add_component',
           'add_c_flags', 'handle_search_keyword', 'visitChildren', 'determine_groups', 'no_acc', 'run', 'check_call',
           'check_output', 'call', 'Popen', 'system'}


def effects(run, scene, names=EFFECTS):
    """[(certain, text)] of the calls that change something outside the visitor, in order"""
    out = []
    for e, sure in run.calls(scene):
        if e.kind == 'mcall':
            recv, name, args, kw = (list(e.data) + [None] * 4)[:4]
        else:
            recv, name, args, kw = None, e.data[0] if isinstance(e.data[0], str) else run.show(e.data[0], scene), \
                e.data[1] if len(e.data) > 1 else None, e.data[2] if len(e.data) > 2 else None
        short = name.split('.')[-1]
        if short not in names:
            continue
        r = run.show(recv, scene) if isinstance(recv, Term) else ''
        text = (f'{r}.' if r else '') + f'{short}({given(run, short, args, kw, scene)})'
        for lp in reversed(e.loops):
            text = f'each({loop_over(run, lp, scene)}: {text})'
        loop_only = all(run.norm(Fold(scene, run.norm)(c)).startswith('in_loop') or scene.decide(Fold(scene, run.norm)(c), run.norm)
                        is not None for c, _ in e.pc)
        out.append((sure or loop_only, text, e))
    return out


def given(run, name, args, kw, scene):
    """the arguments of a call, in the order of the signature"""
    fold = Fold(scene, run.norm)

    def term(x):
        return fold(run.I.freeze(x, run.st)) if isinstance(x, Term) else x
    return run.norm.signed(name, [term(x) for x in args.items] if args is not None else [],
                           [(k, term(v)) for k, v in pairs(kw)] if kw is not None else [])


def loop_over(run, lp, scene):
    b = lp[1] if isinstance(lp, tuple) else getattr(lp, 'base', lp)
    if isinstance(b, App) and b.fn == 'or' and len(b.args) == 2 and isinstance(b.args[1], Seq) and not b.args[1].items:
        b = b.args[0]
    return run.show(b, scene) if isinstance(b, Term) else str(b)


def pairs(kw):
    for x in kw.items if isinstance(kw, Seq) else kw:
        if isinstance(x, Seq):
            yield (x.items[0].v if isinstance(x.items[0], Const) else repr(x.items[0])), x.items[1]
        else:
            yield x


CLAUSES = ('Removable', 'Cpu', 'split', 'when', 'groupref', 'extend', 'jumps', 'metadata', 'instance_parameters',
           'orientation')


def instance_scene(kind, clause, included=None):
    fl = {'v(when).is_constant': False, 'v(jumps)': True, 'len(v(jumps))': True}
    if included is not None:
        fl['self.destination given'] = included
        fl['self.destination'] = included
    fl.update({f'v({c}) given': True for c in clause or ()})
    return S({c: c in (clause or ()) for c in CLAUSES},
             {'Comp': kind == 'Comp', 'Instance': kind == 'Instance', 'str': False, 'Expr': True}, fl)


def instance_fields(kind, clauses):
    """field -> right normal forms of the component instance made from a COMPONENT statement"""
    ref = 'v(component_type)'
    copied = kind == 'Instance'

    def kept(f, empty):
        return {f'[each({ref}.{f}: {ref}.{f}#*)]', f'[*{ref}.{f}]', f'{ref}.{f}'} if copied else empty
    none, nothing = {'None'}, {'[]'}
    out = dict(name={'v(instance_name)'}, type={ref + '.type'} if copied else {ref}, at_relative={'v(place)', '[v(place)[0], v(place)[1]]'},
               rotate_relative={f'[Angles(x={z}, y={z}, z={z}), v(place)[1]]' for z in EXPR0},
               parameters=kept('parameters', nothing), removable={'False'}, cpu={'False'}, split=none,
               when={ref + '.when'} if copied else none, group={ref + '.group'} if copied else none,
               extend=kept('extend', nothing), jump=kept('jump', nothing), metadata=kept('metadata', nothing),
               mode={ref + '.mode'} if copied else {'self.mode'}, orientation=none)
    now = dict(Removable=('removable', {'True'}), Cpu=('cpu', {'True'}), split=('split', {'v(split)'}),
               when=('when', {'v(when)'}), groupref=('group', {'v(groupref)'}),
               extend=('extend', {'blocks_to_raw_c(v(extend))', '[*blocks_to_raw_c(v(extend))]'}),
               jumps=('jump', {'[*v(jumps)]', 'v(jumps)', '[each(v(jumps): v(jumps)#*)]'}),
               orientation=('rotate_relative', {'v(orientation)', '[v(orientation)[0], v(orientation)[1]]'}))
    for c in clauses:
        if c in now:
            out[now[c][0]] = now[c][1]
    return out


def done():
    """(language, production, scenario, right lists of effects): a tuple of calls in order"""
    out = []

    def r(lang, name, scene, *calls):
        out.append((lang, name, scene, calls))
    I, C = 'McInstr', 'McComp'
    r(I, 'visitInstrument_parameters', S(), 'each(instrument_parameter: self.state.add_parameter(v(instrument_parameter#*)))')
    r(I, 'visitInstrument_metadata', S(), 'each(metadata: self.state.add_metadata(from_instrument_tokens('
      'self.state.name, v(metadata#*)[0], v(metadata#*)[1], v(metadata#*)[2])))')
    for n, m in (('define', 'define'), ('set', 'setting'), ('out', 'output')):
        r(C, f'visitComponent_{n}_parameters', S(),
          f'each(v(component_parameters): self.state.add_{m}(v(component_parameters)#*))')
    for mime in (True, False):
        for name in (True, False):
            a, b = 'mime.text' if mime else 'inner(mime.text)', 'name.text' if name else 'inner(name.text)'
            r(C, 'visitMetadata', ident(C, mime, name), f'self.state.add_metadata(from_component_tokens('
              f'self.state.name, {a}, {b}, v(unparsed_block)[2]))')
    r(C, 'visitDependency', S(dict(StringLiteral=True)), 'self.parent.add_c_flags(inner(StringLiteral))')
    r(I, 'visitSearchPath', S(), 'self.parent.handle_search_keyword(inner(StringLiteral))')
    for acc in (True, False):
        for n, st in (('New', 'self.state'), ('Copy', 'deepcopy(self.parent.get_component(text(Identifier#1)))')):
            r(C, f'visitComponentDefine{n}', S(dict(NoAcc=acc), flags={'self.parent given': True}),
              *([f'{st}.no_acc()'] if acc else []), 'self.visitChildren(ctx)')
    return out


def c14(p, rep):
    rep.rule('returned', 'what a clause stands for is made of exactly what its production names, in order')
    rep.rule('stored', 'a clause ends in its own field of the object being read, added to what is there')
    rep.rule('passed', 'parameters, metadata, flags, paths and definitions are passed on once each, in order')
    rep.rule('instance', 'every clause of a COMPONENT statement sets its own field; the rest are copied or default')
    rep.rule('included', 'a component is left out only if it is REMOVABLE and its instrument is being included')
    rep.rule('before', 'the name of a definition is known before its clauses are read')
    rep.rule('pieces', 'metadata and raw C blocks keep their name, type, value, file, line and source apart')
    runs = {}
    vs = [v for v in visitors(p) if v.lang in ('McInstr', 'McComp')]
    for v in vs:
        rep.uses(v.cls.module.name)

    def run(v, name):
        k = id(v.methods[name].node), v.cls.name if name in getattr(v, 'shared', ()) else id(v.methods[name].node)
        if k not in runs:
            runs[k] = Run(p, v.cls, v.methods[name])
        return runs[k]

    def each(lang, name):
        seen = set()
        for v in vs:
            if v.lang == lang and name in v.methods:
                f = v.methods[name]
                if id(f.node) not in seen:
                    seen.add(id(f.node))
                    yield v, f
    for lang, name, sc, right in returned():
        for v, f in each(lang, name):
            r = run(v, name)
            got = r.show(r.value, sc)
            if got in right:
                rep.ok('returned', f'{v.cls.name}.{name}: {got}')
            else:
                rep.bad('returned', f'{v.cls.name}.{name} {about(sc)}', f'{name} {about(sc)} gives {got[:300]} instead of '
                        f'{right[0]}', where(f))
    for lang, name, sc, field, right in stored():
        for v, f in each(lang, name):
            if not hasattr_state(v):
                continue
            r = run(v, name)
            got = r.show(r.field(field), sc)
            if got in right:
                rep.ok('stored', f'{v.cls.name}.{name}: {field} = {got}')
            else:
                rep.bad('stored', f'{v.cls.name}.{name} {field} {about(sc)}', f'{name} {about(sc)} leaves {field} = '
                        f'{got[:300]} instead of {right[0]}', where(f))
    for lang, name, sc, right in done():
        for v, f in each(lang, name):
            r = run(v, name)
            es = effects(r, sc)
            got = tuple(('' if sure else 'perhaps ') + t for sure, t, _ in es)
            if got == tuple(right):
                rep.ok('passed', f'{v.cls.name}.{name}: {"; ".join(got)[:200]}')
            else:
                rep.bad('passed', f'{v.cls.name}.{name} {about(sc)}', f'{name} {about(sc)} does '
                        f'{"; ".join(got)[:300] or "nothing"} instead of {"; ".join(right)}', where(f))
    ordered(p, rep, vs, run, each)
    instances(p, rep, run, each)
    searching(p, rep, run, each)
    pieces(p, rep)
    for rule, n in (('returned', 60), ('stored', 40), ('passed', 15), ('instance', 200), ('included', 4), ('pieces', 8)):
        rep.need(rule, n, 'obligations')


def hasattr_state(v):
    return True


def about(sc):
    """the scenario in words"""
    out = []
    yes = sorted(k for k, x in sc.present.items() if x)
    no = sorted(k for k, x in sc.present.items() if not x)
    if yes:
        out.append('with ' + ', '.join(yes))
    if no and len(no) < 5:
        out.append('without ' + ', '.join(no))
    fl = [k if x else f'not {k}' for k, x in sorted(sc.flags.items()) if len(sc.flags) < 8]
    if fl:
        out.append('when ' + ', '.join(fl))
    return ' '.join(out)


def ordered(p, rep, vs, run, each):
    for lang, name in (('McInstr', 'visitInstrument_definition'), ('McComp', 'visitComponentDefineNew'),
                       ('McComp', 'visitComponentDefineCopy')):
        for v, f in each(lang, name):
            if v.cls.name.endswith('ParametersVisitor'):
                continue
            r = run(v, name)
            named = kids = None
            for i, e in enumerate(r.I.events):
                if e.kind == 'setattr' and e.data[1] == 'name' and named is None:
                    named = i
                if e.kind == 'mcall' and e.data[1] == 'visitChildren' and kids is None:
                    kids = i
            if kids is None:
                rep.bad('before', f'{v.cls.name}.{name} children', f'{name} does not read the clauses of the definition', where(f))
            elif named is None or named > kids:
                rep.bad('before', f'{v.cls.name}.{name}', f'{name} reads the clauses before the name is known', where(f))
            else:
                rep.ok('before', f'{v.cls.name}.{name}')
    for v, f in each('McInstr', 'visitInstrument_definition'):
        if v.cls.name.endswith('ParametersVisitor'):
            continue
        es = [t for _, t, _ in effects(run(v, 'visitInstrument_definition'), S())]
        if 'self.visitChildren(ctx)' in es and 'self.state.determine_groups()' in \
                es[es.index('self.visitChildren(ctx)'):]:
            rep.ok('passed', 'groups are determined after all components are read')
        else:
            rep.bad('passed', 'visitInstrument_definition determine_groups', 'the groups are not determined after all '
                    'components are read', where(f))
    for v, f in each('McInstr', 'visitInstrument_trace'):
        r = run(v, 'visitInstrument_trace')
        es = [t for s, t, _ in effects(r, S()) if s]
        if es == ['self.visitChildren(ctx)']:
            rep.ok('passed', 'TRACE reads each of its statements, in order')
        elif any('v(' in r.show(r.value, S()) for _ in (1,)) and not es:
            rep.ok('passed', 'TRACE visits its statements')
        else:
            rep.bad('passed', 'visitInstrument_trace', f'the statements of TRACE are not all read in order: {es}', where(f))


def instance_of(run, e, scene):
    """the new component instance a call passes on or works on, as field -> normal form"""
    fold = Fold(scene, run.norm)
    t = fold(run.I.freeze(e, run.st) if isinstance(e, Term) else e)
    if isinstance(t, App) and t.fn == 'new:Instance':
        return {k: run.norm(v) for k, v in t.kw}
    return None


def instances(p, rep, run, each):
    for v, f in each('McInstr', 'visitComponent_instance'):
        r = run(v, 'visitComponent_instance')
        combos = [()] + [(c,) for c in CLAUSES] + [CLAUSES]
        for kind in ('Comp', 'Instance'):
            for clauses in combos:
                sc = instance_scene(kind, clauses, included=False)
                words = f'{"COPY of an instance" if kind == "Instance" else "component type"}, ' + \
                    (', '.join(clauses) if len(clauses) < 3 else 'every clause')
                es = effects(r, sc)
                adds = [(s, e) for s, t, e in es if e.data[1] == 'add_component']
                if len(adds) != 1 or not adds[0][0]:
                    rep.bad('instance', f'add_component ({words})', f'a COMPONENT statement ({words}) adds '
                            f'{len(adds)} components' + (', under a further condition' if adds else ''), where(f))
                    continue
                e = adds[0][1]
                if r.show(e.data[0], sc) != 'self.state':
                    rep.bad('instance', f'add_component ({words}) where', 'the component is not added to the instrument '
                            'that is being read', where(f))
                obj = instance_of(r, e.data[2].items[0], sc)
                if obj is None:
                    rep.bad('instance', f'add_component ({words}) what', 'what is added is not the component instance made '
                            f'from the statement: {r.show(e.data[2].items[0], sc)[:200]}', where(f))
                    continue
                for field, right in instance_fields(kind, clauses).items():
                    got = obj.get(field)
                    if got in right:
                        rep.ok('instance', f'{words}: {field} = {got}')
                    else:
                        rep.bad('instance', f'{field} ({words})', f'a COMPONENT statement ({words}) makes an instance with '
                                f'{field} = {str(got)[:200]} instead of {sorted(right)[0]}', where(f))
                over = kind == 'Instance'
                for name, clause, loop, args in (
                        ('set_parameter', 'instance_parameters', 'v(instance_parameters)',
                         {f'v(instance_parameters)#*[0], v(instance_parameters)#*[1], {over}'} |
                         (set() if over else {'v(instance_parameters)#*[0], v(instance_parameters)#*[1]'})),
                        ('add_metadata', 'metadata', 'metadata',
                         {'from_instance_tokens(v(instance_name), v(metadata#*)[0], v(metadata#*)[1], v(metadata#*)[2])'})):
                    calls = [(s, t, e) for s, t, e in es if e.data[1] == name]
                    if clause not in clauses and name == 'set_parameter' and calls:
                        rep.bad('instance', f'{name} ({words})', f'{name} is called though the statement has no '
                                f'{clause}', where(f))
                        continue
                    if clause not in clauses:
                        continue
                    good = len(calls) == 1 and calls[0][0] and instance_of(r, calls[0][2].data[0], sc) is not None and \
                        len(calls[0][2].loops) == 1 and loop_over(r, calls[0][2].loops[0], sc) == loop
                    if good:
                        e = calls[0][2]
                        good = given(r, name, e.data[2], e.data[3], sc) in args
                    if good:
                        rep.ok('instance', f'{words}: {name}({sorted(args)[0]})')
                    else:
                        rep.bad('instance', f'{name} ({words})', f'{clause} ({words}) is not handed to the instance once '
                                f'for each: {[t[-200:] for _, t, _ in calls]}', where(f))
                if clauses and 'set_parameter' in [e.data[1] for _, _, e in es] and 'when' in clauses:
                    pass
            for removable in (True, False):
                for included in (True, False):
                    sc = instance_scene(kind, ('Removable',) if removable else (), included)
                    adds = [s for s, t, e in effects(r, sc) if e.data[1] == 'add_component']
                    if adds == ([] if removable and included else [True]):
                        rep.ok('included', f'{kind}, removable {removable}, included {included}')
                    else:
                        rep.bad('included', f'{kind} removable={removable} included={included}',
                                f'a component that is {"" if removable else "not "}REMOVABLE, in an instrument that is '
                                f'{"" if included else "not "}being included, is added {len(adds)} times', where(f))
        # what the parameters are looked up in, and what MYSELF stands for, while the statement is read
        need = {'current_instance_name': {'Comp': 'v(instance_name)', 'Instance': 'v(instance_name)'},
                'current_comp': {'Comp': 'v(component_type)', 'Instance': 'v(component_type).type'}}
        for attr, right in need.items():
            sets = [(i, e) for i, e in enumerate(r.I.events) if e.kind == 'setattr' and e.data[1] == attr]
            uses = [i for i, e in enumerate(r.I.events) if e.kind == 'mcall' and e.data[1] == 'visit' and
                    r.norm(e.data[2].items[0]) in ('instance_parameters', 'place', 'orientation', 'when', 'split', 'jumps')]
            for kind, want in right.items():
                sc = instance_scene(kind, ())
                first = [r.show(e.data[2], sc) for i, e in sets if not uses or i < min(uses)]
                later = [r.show(e.data[2], sc) for i, e in sets if uses and min(uses) < i < max(uses)]
                if first and first[-1] == want and not [x for x in later if x != want]:
                    rep.ok('instance', f'{attr} is {want} while the clauses of the statement are read')
                else:
                    rep.bad('instance', f'{attr} while reading ({kind})', f'while the clauses of a COMPONENT statement are '
                            f'read {attr} is {(first + later)[-1:] or "not set"} instead of {want}', where(f))
    for v, f in each('McInstr', 'visitComponent_ref'):
        # a name: of this instrument, else of the one it is included into
        r = run(v, 'visitComponent_ref')
        got = leaves(Fold(S(dict(Previous=False)), r.norm)(r.I.freeze(r.value, r.st)), r.norm)
        want = {'self.state', 'self.destination'}
        found = {w for w in want for g in got if g in (f'get_component({w}, text(Identifier))',
                                                       f'{w}.get_component(text(Identifier))')}
        other = [g for g in got if not any(g in (f'get_component({w}, text(Identifier))', f'{w}.get_component(text(Identifier))')
                                           for w in want) and g != 'None']
        if found == want and not other:
            rep.ok('returned', f'{v.cls.name}.visitComponent_ref: a component of that name')
        else:
            rep.bad('returned', f'{v.cls.name}.visitComponent_ref name', f'a component referred to by name is looked up as '
                    f'{sorted(got)}', where(f))


def leaves(t, norm):
    if isinstance(t, Phi):
        return leaves(t.a, norm) | leaves(t.b, norm)
    return {norm(t)}


LINES = {'strip', 'rstrip', 'lstrip', 'decode', 'splitlines', 'split', 'run', 'isspace', 'getText', 'StringLiteral', 'check_output'}


def searching(p, rep, run, each):
    for v, f in each('McInstr', 'visitSearchShell'):
        r = run(v, 'visitSearchShell')
        es = [t for _, t, e in effects(r, S()) if e.kind == 'mcall' and e.data[1] == 'handle_search_keyword']
        ran = [t for _, t, e in effects(r, S()) if 'inner(StringLiteral)' in t.split(':')[0]]
        odd = [r.norm(c) for _, t, e in effects(r, S()) if e.kind == 'mcall' and e.data[1] == 'handle_search_keyword'
               for c, _ in e.pc if any(isinstance(x, MCall) and x.name not in LINES or
                                       isinstance(x, App) and x.fn not in ('not', 'len', 'ne', 'eq', 'in_loop', 'gt', 'lt', 'bool',
                                                                           'is', 'isnot', 'slice', 'and', 'or') and
                                       'run' not in x.fn for x in walk(c))]
        if odd:
            rep.bad('passed', 'visitSearchShell condition', f'SEARCH SHELL passes on a line only if {odd[0][-200:]}', where(f))
        if len(es) == 1 and es[0].startswith('each(') and es[0].count('.splitlines()') >= 1 and ran and \
                'inner(StringLiteral)' in es[0] and es[0].rstrip(')').endswith('#*'):
            rep.ok('passed', 'SEARCH SHELL passes on every line its command prints')
        else:
            rep.bad('passed', 'visitSearchShell', f'SEARCH SHELL does not pass on every line its command prints: {es}', where(f))
    for v, f in each('McInstr', 'visitShell'):
        r = run(v, 'visitShell')
        es = [(s, t) for s, t, e in effects(r, S())]
        if len(es) == 1 and es[0][0] and 'inner(StringLiteral)' in es[0][1]:
            rep.ok('passed', es[0][1])
        else:
            rep.bad('passed', 'visitShell', f'SHELL does not run its command once: {es}', where(f))


def pieces(p, rep):
    """MetaData.from_*_tokens and RawC.from_tuple keep their parts apart"""
    norm = Norm(p)
    md = p.find_class('MetaData')
    for who in ('component', 'instance', 'instrument'):
        f = p.method(md, f'from_{who}_tokens')
        I = Interp(p)
        I.opaque_new = {'DataSource', 'MetaData'}
        st = State()
        v = I.call_func(f, [], {k: I.sym(k) for k in ('source', 'mimetype', 'name', 'value')}, st)
        v = I.freeze(v, st)
        rep.uses(f.module.name)
        for sc, nm, val in ((S(flags={"in(' ', name)": False, "and(eq('%{', value[:2]), eq('%}', value[-2:]))": False,
                                      "eq('%{', value[None:2])": False}), 'name', 'value'),):
            t = Fold(sc, norm)(v)
            kw = dict(t.kw) if isinstance(t, App) and t.fn == 'new:MetaData' else {}
            names = norm.ctor('MetaData') or []
            if isinstance(t, App):
                for n, a in zip(names, t.args):
                    kw.setdefault(n, a)
            want = dict(name={'name'}, mimetype={'mimetype'}, value={'value'})
            for k, right in want.items():
                got = norm(kw[k]) if k in kw else None
                base = {x for x in leaves(kw[k], norm)} if k in kw else set()
                if got in right or base & right and all(k in b for b in base):
                    rep.ok('pieces', f'from_{who}_tokens: {k} = {got}')
                else:
                    rep.bad('pieces', f'MetaData.from_{who}_tokens {k}', f'metadata of a {who} gets {k} = {got}', where(f))
            src = norm(kw['source']) if 'source' in kw else None
            ok = src is not None and f'Type.{who.capitalize()}' in src and ('name=source' in src or src.endswith(', source)'))
            if ok:
                rep.ok('pieces', f'from_{who}_tokens: source = {src}')
            else:
                rep.bad('pieces', f'MetaData.from_{who}_tokens source', f'metadata of a {who} gets the source {src}', where(f))
    rc = p.find_class('RawC')
    f = p.method(rc, 'from_tuple')
    I = Interp(p)
    I.opaque_new = {'RawC'}
    st = State()
    three = Seq('tuple', (I.sym('file'), I.sym('line'), I.sym('text')))
    v = I.freeze(I.call_func(f, [three], {}, st), st)
    sc = S(isa=dict(tuple=True, str=True, int=True))
    got = norm(Fold(sc, norm)(v))
    if got.startswith('RawC(filename=file, line=line, source=text'):
        rep.ok('pieces', f'a block becomes {got}')
    else:
        rep.bad('pieces', 'RawC.from_tuple', f'a block (file, line, text) becomes {got}', where(f))
