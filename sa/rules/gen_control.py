"""C10 (trace control) and C11 (placement) over the generated-C template"""
from __future__ import annotations
import re
from ..absint import (App, Attr, Elem, Index, Item, Const, Phi, LoopOut, Carried, walk, paths, neg, conjuncts)
from ..cview import views
from ..cquery import (leafset, elements, parts_key, loop_key, Text, within, holds, unconditional, base_filter, function,
                      show_leaf, about, select, truth, real_paths)
from ..ctmpl import canon, where_of
from .gen_rules import COMP, TYPE, loc, fname, gshow, reordered
from .gen_trace import IDX, LEN, RAY

TRACE = f'class_«{TYPE}.name»_trace'
GID = f'max(self.source.groups[{COMP}.group].ids)'
BASE = {COMP, TYPE}
ACTIVE = [BASE | {TYPE + '.trace', TYPE + '.trace[*]'}, BASE | {COMP + '.extend', COMP + '.extend[*]'}]


def odd_guards(a, present, moved=False):
    """guards that may fail for a component with a TRACE or an EXTEND (moved: or a JUMP)"""
    out = []
    for act in ACTIVE + ([BASE | {COMP + '.jump', COMP + '.jump[*]'}] if moved else []):
        for g in unconditional(a, act | set(present)):
            if g not in out:
                out.append(g)
    return out


def follows(c, yes, no):
    """the truth of a condition for a component with a TRACE, an EXTEND or a JUMP, and with these conditions"""
    if isinstance(c, App) and c.fn == 'not':
        r = follows(c.args[0], yes, no)
        return None if r is None else not r
    if isinstance(c, App) and c.fn in ('and', 'or'):
        rs = [follows(x, yes, no) for x in c.args]
        stop = c.fn == 'or'
        return stop if stop in rs else (not stop) if None not in rs else None
    r = truth(c, yes, no)
    if r is None:
        rs = {holds(c, act) for act in ACTIVE + [BASE | {COMP + '.jump', COMP + '.jump[*]'}]}
        r = rs.pop() if len(rs) == 1 else None
    return r


def c10(p, rep):
    rep.rule('block', 'raytrace (and its funnel variant) has, for every component in order, one block entered when the '
             'event is alive and its _index is that component; inside it one call of the component type\'s trace '
             'function, and one increment of _index that nothing can skip')
    rep.rule('when', 'a WHEN expression, if and only if given, is the condition immediately in front of the trace call')
    rep.rule('jump', 'every JUMP of a component produces, after the trace call, a test of its own condition (ITERATE: a '
             'counter of that jump compared with it, reset when exhausted; WHEN: the condition itself) that assigns the '
             'jump target and suppresses the next coordinate change')
    rep.rule('group', 'a GROUP member, if and only if it has a group, after its trace call exits the group when '
             'SCATTERED; otherwise the last member absorbs the event and an earlier member hands it on unabsorbed')
    rep.rule('split', 'SPLIT, if and only if given, opens a loop with the given count before the component and divides '
             'the weight by it; every opened loop is closed')
    rep.rule('transform', 'before a component is reached the event is moved into its frame with its own relative position '
             'and rotation, unless a JUMP asks to pass the change, which is forgotten on arrival; the state kept for '
             'RESTORE is taken there, and for later members of a GROUP the kept state of the first is moved along')
    rep.rule('order', 'within a block the steps come in the order coordinate change, save, trace, restore, jump, group, '
             'increment')
    for view in views(p):
        rep.uses(*view.g.functions())
        for fn in RAY:
            f = function(view, fn)
            if f is None:
                rep.bad('block', fn, f'{fn} is not generated', where_of(p, [fn]))
                continue
            ats = within(view, f)
            t = Text(ats)
            w = lambda *fr: where_of(p, list(fr))
            inloop = lambda a: [set(x) for x in loop_key(a.tok.loops)] == [{COMP}]
            # ---- block
            tests = list(t.find(r'if \( ! ABSORBED && _particle -> _index == (\S+) \) \{'))
            if len(tests) != 1 or tests[0][0].group(1) != f'«{IDX}+1»' or not inloop(tests[0][1]) \
                    or unconditional(tests[0][1], {COMP}) or reordered(tests[0][1].tok.loops):
                rep.bad('block', f'{fn} entry', f'{fn}: the block of a component is not entered exactly when the event is '
                        'alive and at that component', w('!ABSORBED && _particle->_index =='))
                continue
            rep.ok('block', f'{fn} entry')
            entry = tests[0][1]
            calls = [a for a in ats if parts_key(a.tok.parts) == TRACE]
            if len(calls) != 1 or not inloop(calls[0]) or odd_guards(calls[0], ()):
                rep.bad('block', f'{fn} trace call', f'{fn}: trace functions are called at {len(calls)} places'
                        + (f', only when {gshow(odd_guards(calls[0], ()))}' if calls else ''), w('_trace(&_'))
                continue
            rep.ok('block', f'{fn} trace call')
            call = calls[0]
            cargs = re.match(re.escape(TRACE) + r' \( & _(\S+)_var , _particle \) ;', t.s[t.off[t.ats.index(call)]:])
            if not cargs or cargs.group(1) != f'«{COMP}.name»':
                rep.bad('block', f'{fn} trace arguments', f'{fn}: the trace function does not receive its own component '
                        'and the event', loc(p, view, call))
            else:
                rep.ok('block', f'{fn} trace arguments')
            incs = [a for m, a in t.find(r'_particle -> _index \+\+ ;|_particle -> _index \+= 1 ;|\+\+ _particle -> _index ;')]
            if len(incs) != 1 or not inloop(incs[0]) or unconditional(incs[0], {COMP}) or incs[0].i < call.i:
                rep.bad('block', f'{fn} increment', f'{fn}: _index is not increased exactly once after every component',
                        w('_particle->_index++'))
                continue
            rep.ok('block', f'{fn} increment')
            inc = incs[0]
            if inc.depth != entry.depth + 1:
                rep.bad('block', f'{fn} increment depth', f'{fn}: the increment of _index is not directly in the component '
                        'block', loc(p, view, inc))
            else:
                rep.ok('block', f'{fn} increment depth')
            # ---- when
            ws = [(a, h) for a in ats for h in a.tok.holes if COMP + '.when' in leafset(h)]
            if len(ws) != 1:
                rep.bad('when', fn, f'{fn}: WHEN is used at {len(ws)} places', w('WHEN execution'))
            else:
                a = ws[0][0]
                k = t.ats.index(a)
                pre = ' '.join(parts_key(x.tok.parts) for x in t.ats[max(0, k - 4):k])
                post = ' '.join(parts_key(x.tok.parts) for x in t.ats[k + 1:k + 5])
                og = odd_guards(a, {COMP + '.when'})
                wg = any(about(c, {COMP + '.when'}) for c, pol in a.tok.guards)
                if not re.search(r'if \( (\( )?$', pre + ' ') or not re.match(r'(\) )+' + re.escape(TRACE), post + ' '):
                    rep.bad('when', fn + ' place', f'{fn}: WHEN is not the condition of the trace call: {pre} … {post}', loc(p, view, a))
                elif og or not wg:
                    rep.bad('when', fn + ' guard', f'{fn}: WHEN is honoured only when {gshow(og)}' if og else
                            f'{fn}: WHEN is written even when absent', loc(p, view, a))
                else:
                    rep.ok('when', f'{fn}')
            steps = [('entry', entry), ('trace', call)]
            res = [a for m, a in t.find(r'if \( _particle -> _restore \) particle_restore \( _particle , & _particle_save \)')]
            if len(res) != 1 or res[0].tok.guards != call.tok.guards and odd_guards(res[0], ()):
                rep.bad('order', f'{fn} restore', f'{fn}: RESTORE is not honoured right after the trace call', w('if (_particle->_restore)'))
            else:
                steps.append(('restore', res[0]))
            # ---- jump
            if fn == 'raytrace':
                jump(p, rep, view, t, fn, inloop, steps, w)
                split(p, rep, view, t, fn, ats, entry, w)
                transform(p, rep, view, t, fn, inloop, entry, call, w)
            else:
                funnel_transform(p, rep, view, t, fn, inloop, entry, call, w)
            # ---- group
            group(p, rep, view, t, fn, inloop, steps, w, ats)
            steps.append(('increment', inc))
            saves = [a for m, a in t.find(r'(?<!& )_particle_save = \* _particle ;') if a.i < call.i]
            if len(saves) != 1:
                rep.bad('order', f'{fn} save', f'{fn}: the event is saved {len(saves)} times before the trace call', w('_particle_save = *_particle'))
            else:
                rep.ok('order', f'{fn} save')
            changes = [a for m, a in t.find(r'mccoordschange \( _\S+_var \. _position_relative , _\S+_var \. _rotation_relative , _particle \)')]
            if len(changes) != 1 or odd_guards(changes[0], (), True) or changes[0].i > call.i:
                rep.bad('order', f'{fn} coordinate change', f'{fn}: the event is not moved into the frame of every traced '
                        'component exactly once', w('mccoordschange('))
            else:
                rep.ok('order', f'{fn} coordinate change')
            pos = [a.i for _, a in steps]
            if pos != sorted(pos):
                rep.bad('order', fn, f'{fn}: steps come in the order {[n for n, a in sorted(steps, key=lambda s: s[1].i)]}',
                        loc(p, view, entry))
            else:
                rep.ok('order', f'{fn}: ' + ' < '.join(n for n, _ in steps))
    rep.need('block', 20, 'block obligations')
    rep.need('jump', 4, 'jump obligations')


OWN = f'_«{COMP}.name»_var'
CHANGE = re.escape(f'mccoordschange ( {OWN} . _position_relative , {OWN} . _rotation_relative , ')
MOVE = (re.escape(f'coords_get ( coords_add ( coords_set ( x , y , z ) , {OWN} . _position_relative ) , & x , & y , & z ) ;'))


def once(rep, t, pat, what, fn, inloop, place, loc_):
    """the one match of pat in the block of every component that is traced, at its place"""
    ms = list(t.find(pat))
    if len(ms) != 1:
        rep.bad('transform', f'{fn} {what}', f'{fn}: {what} is written {len(ms)} times', loc_(None))
        return None
    a = ms[0][1]
    og = odd_guards(a, (), True)
    if og or not inloop(a) or not place(a):
        rep.bad('transform', f'{fn} {what}', f'{fn}: {what} is written ' + (f'only when {gshow(og)}' if og else
                'in the wrong place'), loc_(a))
        return None
    rep.ok('transform', f'{fn} {what}')
    return a


def transform(p, rep, view, t, fn, inloop, entry, call, w):
    at = lambda a: loc(p, view, a) if a else w('flag_nocoordschange')
    pat = r'if \( ! _particle -> flag_nocoordschange \) \{ if \( ' + re.escape(OWN) + r' \. _rotation_is_identity \) \{ ' \
          r'(if \( ! ' + re.escape(OWN) + r' \. _position_relative_is_zero \) \{ )?' + MOVE + r' (\} )?\} else \{ ' + CHANGE + \
          r'_particle \) ; \} \}'
    once(rep, t, pat, 'coordinate change', fn, inloop, lambda a: a.i < entry.i, at)
    arrived = [(m, a) for m, a in t.find(r'_particle -> flag_nocoordschange = 0 ;') if a.i > entry.i]
    if len(arrived) != 1 or odd_guards(arrived[0][1], (), True) or arrived[0][1].i > call.i:
        rep.bad('transform', f'{fn} arrival', f'{fn}: the request to pass a coordinate change is not forgotten on arrival',
                at(entry))
    else:
        rep.ok('transform', f'{fn} arrival')
    G = f'self.source.groups[{COMP}.group].ids'
    first = ['=='.join(sorted((IDX, x))) for x in (f'{G}[0]', f'min({G})')]
    for m, a in t.find(CHANGE + r'_particle \)'):
        skips = [c for c, pol in a.tok.guards if not (isinstance(c, App) and c.fn == 'in_loop')]
        if skips and not any(f'{COMP}.jump[*].absolute_target' in canon(repr(c)) for c in skips):
            rep.bad('transform', f'{fn} jump target', f'{fn}: the coordinate change can be left out for a component that is '
                    'the target of a JUMP', at(a))
        else:
            rep.ok('transform', f'{fn} jump target')
    keep, move = r'(?<!& )_particle_save = \* _particle ;', CHANGE + r'& _particle_save \)'
    for who, facts, right in (
            ('a component without GROUP', {COMP + '.group': False}, (1, 0)),
            ('the first member of a GROUP', {COMP + '.group': True, G: True, **{x: True for x in first}}, (1, 0)),
            ('a later member of a GROUP', {COMP + '.group': True, G: True, **{x: False for x in first}}, (0, 1))):
        x = Text(select(t.ats, facts))
        ks = [a for m, a in x.find(keep) if entry.i < a.i < call.i]
        ms = [a for m, a in x.find(move) if entry.i < a.i < call.i]
        yes, no = {k for k, v in facts.items() if v}, {k for k, v in facts.items() if not v}
        og = [g for a in ks + ms for g in odd_guards(a, (), True) if follows(g[0], yes, no) is not g[1]]
        if (len(ks), len(ms)) != right or og:
            rep.bad('transform', f'{fn} state of {who}', f'{fn}: for {who} the state is kept {len(ks)} times and the kept '
                    f'state is moved {len(ms)} times' + (f', only when {gshow(og)}' if og else ''), at((ks + ms + [entry])[0]))
        else:
            rep.ok('transform', f'{fn} state of {who}')


def funnel_transform(p, rep, view, t, fn, inloop, entry, call, w):
    at = lambda a: loc(p, view, a) if a else w('_particle_save = *_particle')
    pat = r'if \( ' + re.escape(OWN) + r' \. _rotation_is_identity \) \{ ' + MOVE + r' \} else \{ ' + CHANGE + \
          r'_particle \) ; \} _particle_save = \* _particle ;'
    once(rep, t, pat, 'coordinate change and kept state', fn, inloop, lambda a: entry.i < a.i < call.i, at)


def jump(p, rep, view, t, fn, inloop, steps, w):
    J = COMP + '.jump[*]'
    name = f'Jump_«{COMP}.name»_«{J}.target»'
    it = list(Text(select(t.ats, {J + '.iterate': True})).find(
        r'if \( (\+\+ )?_particle -> _logic \. ' + re.escape(name) + r'( \+\+)? < («[^»]*») \) \{ '
        r'_particle -> _index = («[^»]*») ; _particle -> flag_nocoordschange = 1 ; \} else \{ '
        r'_particle -> _logic \. ' + re.escape(name) + r' = 0 ; \}'))
    wh = list(Text(select(t.ats, {J + '.iterate': False})).find(
        r'if \( («[^»]*jump[^»]*») \) \{ _particle -> _index = («[^»]*») ; _particle -> flag_nocoordschange = 1 ; \}'))
    for kind, found, pol in (('ITERATE', it, True), ('WHEN', wh, False)):
        if len(found) != 1:
            rep.bad('jump', f'{kind}', f'{fn}: a JUMP with {kind} has {len(found)} well-formed tests', w('conditional JUMP'))
            continue
        m, a = found[0]
        cond, tgt = (m.group(3), m.group(4)) if kind == 'ITERATE' else (m.group(1), m.group(2))
        if kind == 'ITERATE' and not m.group(1):
            rep.bad('jump', 'ITERATE counter', f'{fn}: the ITERATE counter is not increased before it is compared', loc(p, view, a))
        if cond != f'«{J}.condition»' or tgt != f'«{J}.absolute_target»':
            rep.bad('jump', f'{kind} operands', f'{fn}: JUMP {kind} tests {cond} and goes to {tgt}', loc(p, view, a))
        ls = [set(x) for x in loop_key(a.tok.loops)]
        og = [(c, q) for c, q in odd_guards(a, {J, COMP + '.jump', J + '.condition'})
              if not (leafset(c) == {J + '.iterate'} and q is pol)]
        if ls != [{COMP}, {J}] or og:
            rep.bad('jump', f'{kind} coverage', f'{fn}: JUMP {kind} is written for {ls} when {gshow(og)}', loc(p, view, a))
        else:
            rep.ok('jump', f'{kind} in {fn}')
        steps.append((f'jump {kind}', a))
    ini = list(t.find(r'_particle -> _logic \. ' + re.escape(name) + r' = 0 ;'))
    first = [a for m, a in ini if not any(a.i >= s.i for n, s in steps if n == 'entry')]
    if len(first) != 1 or [c for c in unconditional(first[0], {J, COMP + '.jump', J + '.iterate'})]:
        rep.bad('jump', 'counter start', f'{fn}: not every ITERATE counter starts at zero', w('_particle->_logic.Jump_'))
    else:
        rep.ok('jump', 'counter start')


def split(p, rep, view, t, fn, ats, entry, w):
    n = f'«{COMP}.name»'
    op = list(t.find(r'_class_particle Split_' + re.escape(n) + r'_particle = \* _particle ; int SplitS_' + re.escape(n) +
                     r' = («[^»]*») ;'))
    lp = list(t.find(r'for \( int SplitN_' + re.escape(n) + r' = 0 ; SplitN_' + re.escape(n) + r' < SplitS_' +
                     re.escape(n) + r' ; SplitN_' + re.escape(n) + r' \+\+ \) \{'))
    wt = list(t.find(r'\bp /= SplitS_' + re.escape(n) + r' > 0 \? SplitS_' + re.escape(n) + r' : 1 ;'))
    cp = list(t.find(r'\* _particle = Split_' + re.escape(n) + r'_particle ;'))
    for what, found in (('count', op), ('loop', lp), ('weight', wt), ('copy', cp)):
        if len(found) != 1:
            rep.bad('split', what, f'{fn}: SPLIT {what} is written {len(found)} times', w('SplitS_'))
            continue
        m, a = found[0]
        og = odd_guards(a, {COMP + '.split'})
        wg = any(about(c, {COMP + '.split'}) for c, pol in a.tok.guards)
        if og or not wg or [set(x) for x in loop_key(a.tok.loops)] != [{COMP}] or a.i > entry.i:
            rep.bad('split', what + ' guard', f'{fn}: SPLIT {what} is written ' + (f'only when {gshow(og)}' if og else
                    'in the wrong place or even when not given'), loc(p, view, a))
        elif what == 'count' and m.group(1) != f'«{COMP}.split»':
            rep.bad('split', 'count value', f'{fn}: SPLIT count is {m.group(1)}', loc(p, view, a))
        else:
            rep.ok('split', what)


def group(p, rep, view, t, fn, inloop, steps, w, ats):
    ex = list(t.find(r'if \( SCATTERED \) _particle -> _index = (\S+) ;'))
    if len(ex) != 1:
        rep.bad('group', fn + ' exit', f'{fn}: GROUP exit is written {len(ex)} times', w('if (SCATTERED)'))
        return
    m, a = ex[0]
    og = odd_guards(a, {COMP + '.group'})
    wg = any(about(c, {COMP + '.group'}) for c, pol in a.tok.guards)
    if og or not wg or not inloop(a):
        rep.bad('group', fn + ' exit guard', f'{fn}: GROUP exit is written ' + (f'only when {gshow(og)}' if og else
                'outside the component or even without a group'), loc(p, view, a))
    else:
        rep.ok('group', fn + ' exit')
    steps.append(('group', a))
    seen = {}
    for last in (True, False):
        tx = Text(select(ats, {'=='.join(sorted((IDX, GID))): last, COMP + '.group': True}))
        seen[last] = [m.group(1) for m, _ in tx.find(r'if \( SCATTERED \) _particle -> _index = \S+ ; else ([^;]*;)')]
    if seen.get(True) != ['ABSORBED = 1 ;'] or seen.get(False) not in (
            ['particle_restore ( _particle , & _particle_save ) ;'], ['ABSORBED = 0 ;']):
        rep.bad('group', fn + ' unscattered', f'{fn}: last member: {seen.get(True)}, earlier member: {seen.get(False)}',
                w('else ABSORBED='))
    else:
        rep.ok('group', fn + ' unscattered')


# ===================================================================================================== C11 placement
def c11(p, rep):
    rep.rule('own-values', 'the setpos function of a component sets its absolute rotation and position from its own '
             'ROTATED and AT values, x, y and z in order, rotation angles converted from degrees')
    rep.rule('reference', 'relative values are combined with the component named in the same clause; absolute ones with '
             'none')
    rep.rule('previous', 'the relative transform is taken from the last component whose transform is not left out')
    rep.rule('published', 'position tables of the instrument get the values of the same component at its own index')
    for view in views(p):
        rep.uses(*view.g.functions())
        f = function(view, f'_«{COMP}.name»_setpos')
        if f is None:
            rep.bad('own-values', 'setpos', 'no setpos function is generated', where_of(p, ['_setpos(void)']))
            continue
        t = Text(within(view, f))
        v = f'_«{COMP}.name»_var'
        ve = re.escape(v)
        AT, ROT = COMP + '.at_relative', COMP + '.rotate_relative'

        def xyz(holes, kind, a, what):
            ok = len(holes) == 3
            idx = []
            for h in holes:
                ps = {canon(x) for x in paths(h)}
                if not any(x.startswith(kind + '[0]') for x in ps) or \
                        any(x.startswith((AT if kind == ROT else ROT)) for x in ps):
                    ok = False
                idx.append(position_of(h))
            if ok and (idx == [0, 1, 2] or idx == [None] * 3):
                rep.ok('own-values', what)
            else:
                rep.bad('own-values', what, f'{what}: uses elements {idx} of {[show_leaf(h)[:80] for h in holes]}', loc(p, view, a))

        def holes_after(a, n):
            i = t.ats.index(a)
            out = []
            for x in t.ats[i:]:
                k = parts_key(x.tok.parts)
                if k == ';':
                    break
                out += [h for h in x.tok.holes if k.startswith('«')]
            return out[:n + 1]

        # rotations
        for pat, what, rel in ((r'rot_set_rotation \( ' + ve + r' \. _rotation_absolute ,', 'absolute rotation', False),
                               (r'rot_set_rotation \( tr1 , \( «', 'relative rotation', True)):
            ms = list(t.find(pat))
            if len(ms) != 1:
                rep.bad('own-values', what, f'{what} is set {len(ms)} times', where_of(p, ['rot_set_rotation(']))
                continue
            m, a = ms[0]
            xyz(holes_after(a, 3)[:3], ROT, a, what)
            stmt = t.s[m.start():t.s.index(';', m.start())]
            if stmt.count('DEG2RAD') != 3:
                rep.bad('own-values', what + ' unit', f'{what}: angles are not converted from degrees', loc(p, view, a))
            guard_ref(p, rep, view, a, ROT, rel, what)
        for pat, what, rel in ((ve + r' \. _position_absolute = coords_set \(', 'absolute position', False),
                               (r'tc1 = coords_set \( «', 'relative position', True)):
            ms = list(t.find(pat))
            if len(ms) != 1:
                rep.bad('own-values', what, f'{what} is set {len(ms)} times', where_of(p, ['_position_absolute = coords_set']))
                continue
            m, a = ms[0]
            xyz(holes_after(a, 3)[:3], AT, a, what)
            guard_ref(p, rep, view, a, AT, rel, what)
        # references
        pats = [(r'rot_mul \( tr1 , _(\S+)_var \. _rotation_absolute , ' + ve + r' \. _rotation_absolute \)', ROT, 'rotation reference'),
                (r'rot_transpose \( _(\S+)_var \. _rotation_absolute , tr1 \) ; tc2 = rot_apply \( tr1 , tc1 \)', AT, 'position frame reference'),
                (ve + r' \. _position_absolute = coords_add \( _(\S+)_var \. _position_absolute , tc2 \)', AT, 'position reference')]
        for pat, kind, what in pats:
            ms = list(t.find(pat))
            want = {f'«{kind}[1].name»'}
            if len(ms) != 1 or ms[0][0].group(1) not in want:
                rep.bad('reference', what, f'{what}: {[m.group(1) for m, _ in ms]}, expected {kind}[1].name',
                        where_of(p, ['_rotation_absolute, ', '_position_absolute, tc2']) if not ms else loc(p, view, ms[0][1]))
            else:
                rep.ok('reference', what)
                guard_ref(p, rep, view, ms[0][1], kind, True, what)
        # previous
        pats = [(r'rot_transpose \( _(\S+)_var \. _rotation_absolute , tr1 \) ; rot_mul \( ' + ve +
                 r' \. _rotation_absolute , tr1 , ' + ve + r' \. _rotation_relative \)', 'relative rotation to previous'),
                (r'tc1 = coords_sub \( _(\S+)_var \. _position_absolute , ' + ve + r' \. _position_absolute \)',
                 'relative position to previous')]
        for pat, what in pats:
            ms = list(t.find(pat))
            if len(ms) != 1:
                rep.bad('previous', what, f'{what} is computed {len(ms)} times', where_of(p, ['coords_sub(_']))
                continue
            m, a = ms[0]
            i = t.ats.index(a)
            hole = [h for x in t.ats[i:i + 12] for h in x.tok.holes if 'components[' in parts_key(x.tok.parts) and
                    COMP not in parts_key(x.tok.parts)]
            r = previous_ok(hole[0], view) if hole else 'not another component'
            if r is True:
                r = skipped_alike(hole[0], view)
            if r is not True:
                rep.bad('previous', what, f'{what}: taken from {r}', loc(p, view, a))
            else:
                rep.ok('previous', what)
        ms = list(t.find(ve + r' \. _position_relative = rot_apply \( ' + ve + r' \. _rotation_absolute , tc1 \)'))
        if len(ms) != 1 or unconditional(ms[0][1], {COMP}):
            rep.bad('previous', 'relative position', 'the relative position is not rotated into the component frame',
                    where_of(p, ['_position_relative = rot_apply']))
        else:
            rep.ok('previous', 'relative position')
        for nm in ('_position_absolute', '_position_relative'):
            ms = list(t.find(r'instrument -> ' + nm + r' \[ «' + re.escape(IDX) + r'\+1» \] = ' + ve + r' \. ' + nm + ' ;'))
            if len(ms) != 1 or unconditional(ms[0][1], {COMP}):
                rep.bad('published', nm, f'instrument->{nm} is not set from the same component', where_of(p, [f'instrument->{nm}']))
            else:
                rep.ok('published', nm)
        for nm, src in (('_name', COMP + '.name'), ('_type', TYPE + '.name')):
            ms = list(t.find(r'stracpy \( ' + ve + r' \. ' + nm + r' , "([^"]*)" , («[^»]*») \)'))
            if len(ms) != 1 or ms[0][0].group(1) != f'«{src}»':
                rep.bad('published', nm, f'{nm} of a component is {[m.group(1) for m, _ in ms]}', where_of(p, [f'{nm}, "']))
            elif f'len({src})+1' not in canon(ms[0][0].group(2)) and f'add(len({src.replace("[*]", "[*")}' not in ms[0][0].group(2) \
                    and 'add(len(' not in ms[0][0].group(2):
                rep.bad('published', nm + ' size', f'{nm} is copied with size {ms[0][0].group(2)}', loc(p, view, ms[0][1]))
            else:
                rep.ok('published', nm)
    rep.need('own-values', 12, 'placement statements')


def position_of(h):
    """which element of the triple a hole is, if it can be told"""
    for x in walk(h):
        if isinstance(x, App) and x.fn == 'pick' and len(x.args) > 1 and isinstance(x.args[1], Const):
            return x.args[1].v
        if isinstance(x, Item) and isinstance(x.key, Const) and isinstance(x.key.v, int):
            if not canon(repr(x)).endswith('_relative[0]'):
                return x.key.v
    return None


def guard_ref(p, rep, view, a, kind, rel, what):
    """written exactly when the clause is (not) relative"""
    ref = kind + '[1]'
    got = None
    for c, pol in a.tok.guards:
        if {canon(x) for x in paths(c)} & {ref, kind}:
            h = holds(c, {ref})
            if h is not None:
                got = (h is pol)
    if got is not rel:
        rep.bad('reference', what + ' condition', f'{what} is written when the reference is '
                f'{"not looked at" if got is None else "present" if got else "absent"}', loc(p, view, a))
    else:
        rep.ok('reference', what + ' condition')


def previous_ok(h, view):
    """components[last] where last is the index of the most recent component that is not skipped"""
    items = [x for x in walk(h) if isinstance(x, Item) and leafset(x.base) == {'self.source.components'}]
    if not items:
        return show_leaf(h)
    k = items[0].key
    for x in walk(k):
        if isinstance(x, App) and x.fn in ('add', 'sub') and not isinstance(k, Carried):
            return canon(repr(k))[:200]
    if isinstance(k, Index):
        return 'the component itself'
    return True


def plain(c, pol):
    """a condition without its negations"""
    while isinstance(c, App) and c.fn == 'not':
        c, pol = c.args[0], not pol
    return canon(repr(c)), pol


def skipped_alike(h, view):
    """the component taken as the previous one changes under the condition its coordinate change is written under"""
    ks = [x.key for x in walk(h) if isinstance(x, Item) and isinstance(x.key, Carried)]
    step = view.g.I.stepped.get(ks[0]) if ks else None
    if step is None:
        return True
    if isinstance(step, Index):
        changes = set()
    elif isinstance(step, Phi) and isinstance(step.a, Index) and step.b == ks[0]:
        changes = {plain(c, pol) for c, pol in conjuncts(step.cond, True)}
    elif isinstance(step, Phi) and isinstance(step.b, Index) and step.a == ks[0]:
        changes = {plain(c, pol) for c, pol in conjuncts(step.cond, False)}
    else:
        return f'a component that is chosen by {canon(repr(step))[:200]}'
    for fn in RAY:
        f = function(view, fn)
        if f is None:
            continue
        for m, a in Text(within(view, f)).find(CHANGE + r'_particle \)'):
            moved = {plain(c, pol) for g, q in a.tok.guards for c, pol in conjuncts(g, q)
                     if not (isinstance(g, App) and g.fn == 'in_loop')}
            if moved != changes:
                return f'the last component for which {sorted(changes)}, though {fn} moves the event for components for ' \
                       f'which {sorted(moved)}'[:600]
    return True
