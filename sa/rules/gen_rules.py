"""Rules over the template of the generated C file"""
from __future__ import annotations
import re
from ..absint import (Term, App, MCall, Attr, Elem, Index, Item, Const, Str, Phi, Seq, Rep, Opt, Splice, walk, paths,
                      conjuncts, neg)
from ..cview import views, unwrap
from ..cquery import (leafset, elements, parts_key, loop_key, Text, within, holds, unconditional, base_filter, function,
                      show_leaf, about)
from ..ctmpl import canon, where_of
from ..ctok import show_parts, short

COMP = 'self.source.components[*]'
TYPE = COMP + '.type'


def lits(a):
    return [p for p in a.tok.parts if isinstance(p, str)]


def loc(p, view, a):
    """source location of the literal text around a token"""
    frs = []
    for d in range(0, 6):
        for k in (a.i - d, a.i + d):
            if 0 <= k < len(view.at):
                frs += [x for x in lits(view.at[k]) if len(x) > 4]
    return where_of(p, frs)


def fname(a):
    return parts_key(a.func['at'].tok.parts) if a.func else 'file level'


def gshow(gs):
    return ' and '.join(short(c if pol else neg(c), 120) for c, pol in gs)


# ================================================================================================ C02 macro scoping
def macro_events(view):
    out = []
    for m in view.macros:
        out.append(dict(m, key=parts_key(m['name'].parts), loops=loop_key(m['at'].tok.loops),
                        guards=m['at'].tok.guards, body_s=' '.join(parts_key(b.tok.parts) for b in m['body'])))
    return out


def implied_by(u_guards, d_guards):
    d = set()
    for c, pol in d_guards:
        for x, q in conjuncts(c, pol):
            d.add((canon(repr(x)), q))
    for c, pol in u_guards:
        if (canon(repr(c)), pol) in d:
            continue
        for x, q in conjuncts(c, pol):
            if (canon(repr(x)), q) not in d:
                return False
    return True


def filters_key(a):
    return frozenset((canon(repr(c)), pol) for _, b in a.tok.loops for c, pol in base_filter(b))


def c02(p, rep):
    rep.rule('undefined-again', 'every macro that stands for a component, particle, user-variable or instrument member '
             '(or for a display function) is removed by an #undef that is reached whenever its #define was, over the '
             'same names, before it is defined again')
    rep.rule('expansion', 'a parameter or user-variable macro expands to the structure member of the same name')
    rep.rule('in-force', 'the macros a raw-C section relies on are defined where the section is pasted: instrument '
             'parameters around the instrument sections, component parameters around the component sections, user '
             'variables around EXTEND and WHEN/JUMP conditions, particle variables around TRACE')
    n_def = 0
    for view in views(p):
        rep.uses(*view.g.functions())
        ev = macro_events(view)
        holed = lambda e: any(not isinstance(x, str) for x in e['name'].parts)
        tracked = set()
        changed = True
        while changed:
            changed = False
            for e in ev:
                if e['kind'] != 'define' or e['key'] in tracked or not e['body']:
                    continue
                words = {b.text for b in e['body'] if b.kind == 'ident'} | \
                        {parts_key(b.tok.parts) for b in e['body']}
                if holed(e) or words & {'_particle', '_comp'} or words & tracked or \
                        (len(e['body']) == 1 and e['body_s'].startswith('mcdis_')):
                    tracked.add(e['key'])
                    changed = True
        for i, e in enumerate(ev):
            if e['kind'] != 'define' or e['key'] not in tracked:
                continue
            n_def += 1
            fl = filters_key(e['at'])
            closed = None
            between = False
            for f in ev[i + 1:]:
                if f['key'] != e['key']:
                    continue
                if f['kind'] == 'undef':
                    between = True
                    if f['loops'] == e['loops'] and filters_key(f['at']) <= fl and set(f['cpp']) <= set(e['cpp']) \
                            and implied_by(f['guards'], e['guards']) and reaches(e, f):
                        closed = f
                        break
                elif not between:
                    break
            key = f"{e['key']} in {fname(e['at'])}"
            if closed is None:
                rep.bad('undefined-again', key, f"macro {e['key']} defined in {fname(e['at'])} is not undefined on "
                        f"every way past it (or is redefined first); it leaks into the code that follows",
                        loc(p, view, e['at']), dict(config=view.g.name))
            else:
                rep.ok('undefined-again', key)
            # expansion
            m = re.fullmatch(r'\( (\S+) -> (?:_parameters \. )?(\S+) \)', e['body_s'])
            if m and (holed(e) or not m.group(2).startswith('_')):
                if m.group(2) != e['key']:
                    rep.bad('expansion', key, f"macro {e['key']} expands to another member: {e['body_s']}",
                            loc(p, view, e['at']))
                else:
                    rep.ok('expansion', key)
            elif holed(e):
                rep.bad('expansion', key, f"macro {e['key']} does not expand to a structure member: {e['body_s']}",
                        loc(p, view, e['at']))
            elif e['body_s'].startswith('mcdis_'):
                if e['body_s'] != 'mcdis_' + e['key']:
                    rep.bad('expansion', key, f"display macro {e['key']} expands to {e['body_s']}", loc(p, view, e['at']))
                else:
                    rep.ok('expansion', key)
        in_force(p, view, ev, rep)
    rep.need('undefined-again', 100, 'macro definitions')
    rep.need('in-force', 40, 'section/macro pairs')


def reaches(e, f):
    """the #undef is in the same C function as the #define (or both outside any)"""
    a, b = e['at'].func, f['at'].func
    return a is b or a is None or b is None


PARTICLE = {'mcstas': ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'p', 'sx', 'sy', 'sz'),
            'mcxtrace': ('x', 'y', 'z', 'kx', 'ky', 'kz', 'phi', 't', 'p', 'Ex', 'Ey', 'Ez')}


def in_force(p, view, ev, rep):
    for a in view.at:
        if a.directive or a.kind == 'comhole':
            continue
        for h in a.tok.holes:
            need = needs(h, view, a)
            if not need:
                continue
            for what, expansion in need:
                state = None
                for e in ev:
                    if e['at'].i >= a.i:
                        break
                    if what in e['key'].strip('«»').split('|') or e['key'] == what:
                        state = e
                ok = state is not None and state['kind'] == 'define' and implied_by(state['guards'], guards_plus(a)) \
                    and expansion in state['body_s'] and (state['at'].func is None or state['at'].func is a.func)
                key = f'{what} at {show_leaf(h)} in {fname(a)}'
                if not ok:
                    rep.bad('in-force', key, f'{show_leaf(h)} is emitted in {fname(a)} where the macro for {what} '
                            'is not in force', loc(p, view, a), dict(config=view.g.name))
                else:
                    rep.ok('in-force', key)


def guards_plus(a):
    return a.tok.guards


COMP_PARS = [(TYPE + '.setting[*].name', '_comp -> _parameters .'),
             ('self.component_declared_parameters[' + TYPE + '.name][*].name', '_comp -> _parameters .')]


def needs(h, view, a):
    l = leafset(h)
    if len(l) != 1:
        return []
    x = next(iter(l))
    m = re.fullmatch(r'self\.source\.(initialize|save|final)\[\*\]\.translated', x)
    if m:
        return [('self.source.parameters[*].name', 'instrument -> _parameters .')]
    m = re.fullmatch(re.escape(TYPE) + r'\.(initialize|trace|save|final|display)\[\*\]\.translated', x)
    if m:
        out = list(COMP_PARS)
        if m.group(1) == 'trace':
            out += [(v, '_particle -> ' + v) for v in ('x', 'p', 't')] + [('ABSORB', ''), ('SCATTERED', '_particle')]
        if m.group(1) == 'display':
            out += [(v, 'mcdis_' + v) for v in ('magnify', 'line', 'box', 'circle', 'multiline')]
        return out
    if x == COMP + '.extend[*].translated':
        return COMP_PARS + [('self.instrument_uservars[*].name', '_particle ->'), ('x', '_particle -> x'),
                            ('ABSORB', ''), ('SCATTERED', '_particle')]
    if x in (COMP + '.when', COMP + '.jump[*].condition') and a.func:
        return [('self.instrument_uservars[*].name', '_particle ->'), ('x', '_particle -> x'), ('p', '_particle -> p')]
    return []


# ================================================================================================ C04 raw C sections
INSTR_SECTIONS = {'declare': None, 'initialize': 'init', 'save': 'save', 'final': 'finally'}
TYPE_SECTIONS = {'share': None, 'initialize': 'initialize', 'trace': 'trace', 'save': 'save', 'final': 'finally',
                 'display': 'display'}


def raw_sections():
    for s, f in INSTR_SECTIONS.items():
        yield f'self.source.{s}', f, f'self.source.{s}'
    for s, f in TYPE_SECTIONS.items():
        yield f'{TYPE}.{s}', (f'class_«{TYPE}.name»_{f}' if f else None), f'component {s}'
    yield f'{COMP}.extend', f'class_«{TYPE}.name»_trace', 'EXTEND'


def emissions(view, leaf):
    """places outside comments where the leaf is written out (holes that are exactly it)"""
    for a in view.at:
        if a.directive or a.kind in ('comhole', 'str', 'chr'):
            continue
        for h in a.tok.holes:
            if leaf in leafset(h):
                yield a, h


def c04(p, rep):
    rep.rule('emitted-once', 'each raw-C block of each section is written exactly once, in its translated form, as code')
    rep.rule('right-function', 'the block is written inside the C function of its section')
    rep.rule('unfiltered', 'nothing but the emptiness of the section decides whether its blocks are written, and every '
             'block of every component type (for EXTEND: every component) is included')
    rep.rule('complete-loop', 'the loop that writes the section visits every element, without slice or sub-selection')
    for view in views(p):
        rep.uses(*view.g.functions())
        for section, func, label in raw_sections():
            leaf = section + '[*].translated'
            found = list(emissions(view, leaf))
            raw = [a for s in ('.source', '') for a, _ in emissions(view, section + '[*]' + s)]
            for a in raw:
                rep.bad('emitted-once', f'{label} untranslated', f'{label}: a block is written without its translation',
                        loc(p, view, a))
            if len(found) != 1:
                rep.bad('emitted-once', label, f'{label}: blocks are written at {len(found)} places instead of one',
                        where_of(p, [func or '']) if not found else loc(p, view, found[-1][0]),
                        dict(config=view.g.name))
                if not found:
                    continue
            else:
                rep.ok('emitted-once', label)
            a, h = found[0]
            if func is None and a.func is not None or func is not None and fname(a) != func:
                rep.bad('right-function', label, f'{label} is written in {fname(a)}, expected {func or "file level"}',
                        loc(p, view, a))
            else:
                rep.ok('right-function', f'{label} in {fname(a)}')
            t = {section, section + '[*]', TYPE, COMP, COMP + '.type', 'self.source.components'}
            odd = unconditional(a, t)
            if a.func is not None:
                odd = [g for g in odd if g not in a.func['at'].tok.guards] + \
                      [g for g in odd if g in a.func['at'].tok.guards]
            if odd:
                rep.bad('unfiltered', label, f'{label} is only written when {gshow(odd)}', loc(p, view, a),
                        dict(config=view.g.name))
            else:
                rep.ok('unfiltered', label)
            ls = loop_key(a.tok.loops)
            want = {section + '[*]'}
            okl = bool(ls) and set(ls[-1]) == want or leaf in leafset(h) and any(set(x) == want for x in ls)
            if not okl:
                rep.bad('complete-loop', label, f'{label}: the loop ranges over {[sorted(x) for x in ls]}', loc(p, view, a))
            else:
                rep.ok('complete-loop', label)
    rep.need('emitted-once', 24, 'sections')
    blanks(p, rep)


WHITE = {'len', 'eq', 'ne', 'not', 'and', 'or', 'le', 'lt', 'ge', 'gt', 'is', 'isnot', 'bool', 'slice'}
WHITE_CALLS = {'translate', 'maketrans', 'strip', 'lstrip', 'rstrip', 'isspace', 'replace', 'split', 'splitlines', 'join'}


def blanks(p, rep):
    """a block given for a section is kept unless it is blank, and blank means nothing but white space"""
    from ..absint import Interp, State
    from ..norm import Scene, Fold, Norm
    rep.rule('blank', 'a block given for a section is kept, in order, unless it is nothing but white space')
    norm = Norm(p)
    rc = p.find_class('RawC')
    f = p.resolve_name(rc.module, 'blocks_to_raw_c')
    I = Interp(p)
    I.opaque |= {'RawC'}
    st = State()
    v = I.freeze(I.call_func(f, [I.sym('a', rc), I.sym('b', rc)], {}, st), st)
    where = f'{rc.module.path}:{f.node.lineno} (blocks_to_raw_c)' if hasattr(f, 'node') else str(rc.module.path)
    for raw in (True, False):
        a, b = ('a', 'b') if raw else ('from_tuple(a)', 'from_tuple(b)')
        alts = [x for x in (('a', 'b') if raw else ('a', 'b'))]
        for ea in (True, False):
            for eb in (True, False):
                sc = Scene(isa=dict(RawC=raw, tuple=not raw, str=False), flags={f'{a}.is_empty': ea, f'{b}.is_empty': eb})
                got = norm(Fold(sc, norm)(v))
                keep = [x for x, e in ((a, ea), (b, eb)) if not e]
                want = '[' + ', '.join(keep) + ']'
                got = got.replace('RawC.from_tuple(', 'from_tuple(')
                if got == want:
                    rep.ok('blank', f'blocks {"blank" if ea else "full"}, {"blank" if eb else "full"}: {got}')
                else:
                    rep.bad('blank', f'blocks_to_raw_c {raw} {ea} {eb}', f'of two blocks, the first {"" if ea else "not "}blank '
                            f'and the second {"" if eb else "not "}blank, {got[:200]} is kept', where)
    I = Interp(p)
    st = State()
    v = I.freeze(I.attr(I.sym('self', rc), 'is_empty', st), st)
    m = p.method(rc, 'is_empty')
    where = f'{rc.module.path}:{m.node.lineno} (RawC.is_empty)' if m is not None and hasattr(m, 'node') else str(rc.module.path)
    odd = [canon(repr(x)) for x in walk(v) if isinstance(x, App) and x.fn not in WHITE or
           isinstance(x, MCall) and x.name not in WHITE_CALLS or
           isinstance(x, Attr) and canon(repr(x)) not in ('self.source', 'str.maketrans', 'self') or
           isinstance(x, Const) and not (x.v in (0, None, False, True) or isinstance(x.v, str) and not x.v.strip()) and
           not (x.v == 1 and isinstance(v, App) and v.fn == 'lt')]
    sources = {canon(repr(x)) for x in walk(v) if isinstance(x, Attr)} & {'self.source'}
    if odd or not sources:
        rep.bad('blank', 'RawC.is_empty', f'a block counts as blank by {canon(repr(v))[:200]}, which looks at more than white '
                f'space ({"; ".join(odd)[:100] or "not at its source"})', where)
    else:
        rep.ok('blank', canon(repr(v)))


# ========================================================================================= C05 per-component calls
def c05(p, rep):
    rep.rule('defined', 'every class_<type>_<section> and _<name>_setpos function that is called is defined')
    rep.rule('call-guard', 'the call is made exactly when the function is defined: for every component whose type has '
             'that section')
    rep.rule('called', 'every section function is called for every component that has it, in instrument order, from its '
             'driver (init, raytrace, save, finally, display)')
    rep.rule('setpos-first', 'init places a component before it initializes any')
    drivers = {'initialize': ['init'], 'trace': ['raytrace', 'raytrace_all_funnel'], 'save': ['save'],
               'finally': ['finally'], 'display': ['display']}
    for view in views(p):
        rep.uses(*view.g.functions())
        code = Text(view.code())
        defs = {}
        for f in view.functions:
            defs[parts_key(f['at'].tok.parts)] = f
        for sec, ds in drivers.items():
            name = f'class_«{TYPE}.name»_{sec}'
            sect = TYPE + '.' + ('final' if sec == 'finally' else sec)
            f = defs.get(name)
            if f is None:
                rep.bad('defined', name, f'no definition of {name} is generated', where_of(p, [f'_{sec}(']))
                continue
            rep.ok('defined', name)
            if loop_key(f['at'].tok.loops)[-1:] != (frozenset({TYPE}),):
                rep.bad('defined', name + ' for every type', f'{name} is defined for '
                        f'{[sorted(x) for x in loop_key(f["at"].tok.loops)]}', loc(p, view, f['at']))
            for d in ds:
                df = defs.get(d)
                calls = [a for a in within(view, df) if parts_key(a.tok.parts) == name] if df else []
                if len(calls) != 1:
                    rep.bad('called', f'{name} from {d}', f'{d} calls {name} at {len(calls)} places', where_of(p, [f'_{sec}(']))
                    continue
                a = calls[0]
                ls = loop_key(a.tok.loops)
                if not any(x == frozenset({COMP}) for x in ls) or len(ls) != 1 or reordered(a.tok.loops):
                    rep.bad('called', f'{name} from {d}: loop', f'{d} calls {name} while ranging over '
                            f'{[sorted(x) for x in ls]}', loc(p, view, a))
                else:
                    rep.ok('called', f'{name} from {d}')
                t = {sect, sect + '[*]', COMP, TYPE}
                skip = unconditional(a, t)
                if sec == 'trace':
                    skip += [g for g in unconditional(a, {COMP, TYPE, COMP + '.extend', COMP + '.extend[*]'})
                             if g not in skip]
                if skip:
                    rep.bad('call-guard', f'{name} from {d}', f'{d} calls {name} only when {gshow(skip)}', loc(p, view, a))
                else:
                    rep.ok('call-guard', f'{name} from {d}')
                if not weak_enough(f, a, sect, sec):
                    rep.bad('call-guard', f'{name} from {d}: undefined', f'{d} may call {name} for a component type '
                            'without one', loc(p, view, a))
        # setpos
        sp = f'_«{COMP}.name»_setpos'
        ini = defs.get('init')
        calls = [a for a in within(view, ini) if parts_key(a.tok.parts) == sp] if ini else []
        f = defs.get(sp)
        if f is None or len(calls) != 1:
            rep.bad('called', sp, f'{sp} is defined {int(f is not None)} and called {len(calls)} times', where_of(p, ['_setpos(']))
        else:
            rep.ok('defined', sp)
            for a, what in ((f['at'], 'defined'), (calls[0], 'called')):
                if loop_key(a.tok.loops) != (frozenset({COMP}),) or reordered(a.tok.loops) or unconditional(a, {COMP}):
                    rep.bad('called', f'{sp} {what}', f'{sp} is not {what} for every component in order', loc(p, view, a))
                else:
                    rep.ok('called', f'{sp} {what}')
            ci = [a for a in within(view, ini) if parts_key(a.tok.parts) == f'class_«{TYPE}.name»_initialize']
            if ci and not ci[0].i > calls[0].i:
                rep.bad('setpos-first', sp, 'init initializes components before placing them', loc(p, view, calls[0]))
            elif ci and ci[0].tok.loops == calls[0].tok.loops:
                rep.bad('setpos-first', sp, 'init initializes a component before later ones are placed', loc(p, view, ci[0]))
            else:
                rep.ok('setpos-first', sp)
            us = [a for h, a in user_blocks(view, 'self.source.initialize[*].translated') if a.func is ini]
            if us and not us[0].i < calls[0].i:
                rep.bad('setpos-first', 'user INITIALIZE', 'the instrument INITIALIZE section runs after components are '
                        'placed', loc(p, view, us[0]))
            else:
                rep.ok('setpos-first', 'user INITIALIZE')
    rep.need('called', 15, 'driver calls')


def user_blocks(view, leaf):
    for a, h in emissions(view, leaf):
        yield h, a


def reordered(loops):
    def r(b):
        if isinstance(b, App):
            if b.fn.startswith(('reversed', 'sorted')) or b.fn in ('unordered', 'set'):
                return True
            return any(r(x) for x in b.args)
        return False
    return any(r(b) for _, b in loops)


def weak_enough(f, a, sect, sec):
    """the guards of the definition hold where the call's guards hold: with an empty section either the call is not made
    or the function is defined all the same"""
    if sec == 'trace':
        return True
    dg = [(c, pol) for c, pol in f['at'].tok.guards]
    if not dg:
        return True
    return any(about_section(c, pol, sect) for c, pol in a.tok.guards) or \
        any(about_section(c, pol, sect) for _, b in a.tok.loops for c, pol in base_filter(b))


def about_section(c, pol, sect):
    return holds(c, {sect, sect + '[*]'}) is pol
