"""C03 (indices), C09 (particle tables), C10 (trace control) over the generated-C template"""
from __future__ import annotations
import re
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Index, Item, Const, Str, Phi, Seq, Rep, Opt,
                      Splice, walk, paths, neg, conjuncts, strip_iter)
from ..cview import views
from ..cquery import (leafset, elements, parts_key, loop_key, Text, within, holds, unconditional, base_filter, function,
                      show_leaf, about)
from ..ctmpl import canon, where_of
from ..ctok import show_parts, short
from .gen_rules import COMP, TYPE, loc, fname, gshow, reordered

IDX = '#' + COMP
LEN = 'len(self.source.components)'
RAY = ['raytrace', 'raytrace_all_funnel']
ID = r'[^\s]+'


def c03(p, rep):
    rep.rule('one-based', 'a component index written into the C program (as an _index value or an array subscript) is '
             'the 0-based position of the component plus one')
    rep.rule('array-size', 'every array subscripted by a component index has number-of-components + 1 elements, and the '
             'component and parameter counts written out are the lengths of those lists')
    rep.rule('end-test', 'an event leaves the loop when _index exceeds the number of components')
    rep.rule('goto', 'a JUMP assigns the 0-based position of its target and a GROUP exit the 1-based position of its '
             'last member, both before the increment of _index')
    rep.rule('lookup', 'the functions that look up a component by name return the index of the component of that name')
    rep.rule('targets', 'jump targets and group member ids are computed as positions in the component list')
    for view in views(p):
        rep.uses(*view.g.functions())
        for a in view.at:
            if a.directive or a.kind in ('comhole', 'str', 'chr'):
                continue
            for h in a.tok.holes:
                ls = leafset(h)
                hit = [x for x in ls if x == IDX or x.startswith(IDX + '+')]
                if not hit and not any(isinstance(x, Index) and elements(x.base) == frozenset({COMP}) for x in walk(h)):
                    continue
                if ls == frozenset({IDX + '+1'}):
                    rep.ok('one-based', f'{parts_key(a.tok.parts)} in {fname(a)}')
                else:
                    rep.bad('one-based', f'{parts_key(a.tok.parts)} in {fname(a)}', f'component index {sorted(ls)} '
                            f'written in {fname(a)} is not position + 1', loc(p, view, a))
        t = Text(view.code())
        # array sizes
        sizes = {m.group(1): (m.group(2), t.at(m.start())) for m in
                 re.finditer(r'(\w+) \[ («[^»]*»|\d+) \]', t.s)}
        for m, a in t.find(r'instrument -> (\w+) \[ «([^»]*)» \]'):
            if m.group(2) != IDX + '+1':
                continue
            s = sizes.get(m.group(1), (None, None))[0]
            decl = [x for x, _ in t.find(r'\b' + m.group(1) + r' \[ «' + re.escape(LEN) + r'\+1» \]')]
            if not decl:
                rep.bad('array-size', m.group(1), f'{m.group(1)} is subscripted by 1-based component indices but is not '
                        f'declared with {LEN} + 1 elements', loc(p, view, a))
            else:
                rep.ok('array-size', m.group(1))
        for m, a in t.find(r'(\w+) \[ «([^»]*len\(self\.source\.components\)[^»]*)» \]'):
            if m.group(2) != LEN + '+1':
                rep.bad('array-size', m.group(1), f'{m.group(1)} is declared with {m.group(2)} elements', loc(p, view, a))
            else:
                rep.ok('array-size', m.group(1) + ' declared')
        for name, want in (('mcNUMCOMP', LEN), ('numipar', 'len(self.source.parameters)')):
            ms = list(t.find(r'int ' + name + r' = (\S+) ;'))
            if len(ms) != 1 or ms[0][0].group(1) != f'«{want}»':
                rep.bad('array-size', name, f'{name} is {[m.group(1) for m, _ in ms]}, expected {want}',
                        where_of(p, [name]))
            else:
                rep.ok('array-size', name)
        # end test
        n = 0
        for m, a in t.find(r'_particle -> _index (>=|>|==|<|<=|!=) «(len[^»]*)»'):
            n += 1
            if (m.group(1), m.group(2)) not in (('>', LEN), ('>=', LEN + '+1')) or \
                    not re.match(r' \) ABSORBED \+\+', t.s[m.end():m.end() + 20]):
                rep.bad('end-test', m.group(0), f'loop exit test is {m.group(0)}', loc(p, view, a))
            else:
                rep.ok('end-test', m.group(0))
        if n == 0:
            rep.bad('end-test', 'missing', 'raytrace has no test of _index against the number of components',
                    where_of(p, ['int raytrace(_class_particle']))
        # goto
        for fn in RAY:
            f = function(view, fn)
            tf = Text(within(view, f)) if f else None
            if tf is None:
                rep.bad('goto', fn, f'{fn} is not generated')
                continue
            inc = [a for m, a in tf.find(r'_particle -> _index \+\+ ;|\+\+ _particle -> _index ;|_particle -> _index \+= 1 ;')]
            for m, a in tf.find(r'_particle -> _index = (\S+) ;'):
                v = m.group(1).strip('«»')
                good = v == COMP + '.jump[*].absolute_target' or \
                    v == f'max(self.source.groups[{COMP}.group].ids)+1'
                after = [x for x in inc if x.i > a.i]
                if not good:
                    rep.bad('goto', f'{m.group(1)} in {fn}', f'{fn} assigns _index = {m.group(1)}', loc(p, view, a))
                elif len(inc) != 1 or not after:
                    rep.bad('goto', f'{m.group(1)} in {fn}: order', f'{fn}: _index is increased {len(inc)} times, '
                            f'{len(after)} of them after this assignment', loc(p, view, a))
                else:
                    rep.ok('goto', f'{m.group(1)} in {fn}')
        # lookup
        for fn, pat in (('_getcomp_index', r'if \( ! (?:strcmp|str_comp) \( compname , "«' + re.escape(COMP) +
                         r'\.name»" \) \) return (\S+) ;'),
                        ('_getvar_parameters', r'if \( ! (?:strcmp|str_comp) \( compname , "«' + re.escape(COMP) +
                         r'\.name»" \) \) return \( void \* \) & \( _(\S+)_var \. _parameters \) ;')):
            f = function(view, fn)
            tf = Text(within(view, f)) if f else None
            ms = list(tf.find(pat)) if tf else []
            want = {'_getcomp_index': f'«{IDX}+1»', '_getvar_parameters': f'«{COMP}.name»'}[fn]
            if len(ms) != 1 or ms[0][0].group(1) != want:
                rep.bad('lookup', fn, f'{fn} does not map every component name to its own entry', where_of(p, [fn]))
            else:
                a = ms[0][1]
                if loop_key(a.tok.loops) != (frozenset({COMP}),) or reordered(a.tok.loops) or unconditional(a, {COMP}):
                    rep.bad('lookup', fn + ' loop', f'{fn} does not cover every component', loc(p, view, a))
                else:
                    rep.ok('lookup', fn)
    targets(p, rep)
    rep.need('one-based', 20, 'component indices')
    rep.need('goto', 6, 'assignments of _index')


def run_method(p, cls, name, args=(), opaque=()):
    c = p.find_class(cls)
    f = p.method(c, name) if c else None
    if f is None:
        return None
    I = Interp(p, opaque=opaque)
    s = I.sym('self', c)
    st = State()
    v, st = I.run(f, list(args), self_=s, state=st)
    return I, s, v, st


def targets(p, rep):
    r = run_method(p, 'TargetVisitor', 'set_jump_absolute_targets')
    J = COMP + '.jump[*]'
    if r is None:
        rep.bad('targets', 'set_jump_absolute_targets', 'the method that resolves jump targets is gone')
    else:
        I, s, v, st = r
        rep.uses('TargetVisitor.set_jump_absolute_targets')
        final = [v for k, v in st.over.items() if isinstance(k, tuple) and k[0] == 'attr' and k[2] == 'absolute_target']
        forms = []
        for v in final:
            phi_leaves(v, forms)
        for e in I.events:
            if e.kind == 'setattr' and e.data[1] == 'absolute_target':
                phi_leaves(e.data[2], forms)
        named = relative = False
        for f in forms:
            txt = canon(repr(f))
            arith = [x for x in walk(f) if isinstance(x, App) and x.fn in ('add', 'sub', 'neg', 'mul')]
            if leafset(f) == frozenset({J + '.absolute_target'}):
                rep.bad('targets', 'kept jump target', 'the position found for a jump in an earlier translation may be '
                        'used again, although the instrument can be a copy of part of another or have changed since',
                        wh(p, 'set_jump_absolute_targets'))
                continue
            if not arith and f'{J}.target' in txt and f'{COMP}.name' in txt:
                named = True
            elif len(arith) == 1 and arith[0] is f and f.fn == 'add' and \
                    {x for y in f.args for x in leafset(y)} == {IDX, J + '.relative_target'}:
                relative = True
            else:
                rep.bad('targets', 'jump target ' + txt[:120], f'absolute_target of a jump may become {txt[:200]}',
                        wh(p, 'set_jump_absolute_targets'))
        for okk, what in ((named, 'named jump target is the position of the component of that name'),
                          (relative, 'relative jump target is the own position plus relative_target')):
            if okk:
                rep.ok('targets', what)
            else:
                rep.bad('targets', what, 'not so: ' + what, wh(p, 'set_jump_absolute_targets'))
    translation(p, rep)
    r = run_method(p, 'Instr', 'determine_groups')
    if r is None:
        rep.bad('targets', 'determine_groups', 'the method that collects groups is gone')
    else:
        I, s, v, st = r
        rep.uses('Instr.determine_groups')
        now = st.over.get(('attr', s, 'groups'))
        if now is None or any(isinstance(x, Attr) and x.base == s and x.name == 'groups' for x in walk(I.freeze(now, st))):
            rep.bad('targets', 'groups kept', 'determining the groups keeps the groups there were before',
                    wh(p, 'determine_groups'))
        else:
            rep.ok('targets', 'groups start empty')
        got = flows_into(I, st, 'ids', 'Group')
        want = frozenset({'#self.components[*]'})
        wrong = sorted({x for v in got for x in leafset(v)} - want)
        if not got:
            rep.bad('targets', 'group member ids', 'no position is recorded for the members of a group',
                    wh(p, 'determine_groups'))
        elif wrong:
            rep.bad('targets', 'group member ids', f'group member ids may be {wrong}, which is not the position of the '
                    f'member', wh(p, 'determine_groups'))
        else:
            rep.ok('targets', 'group member ids')
        for e in I.events:
            if e.kind == 'construct' and getattr(e.data[0], 'name', '') == 'Group' or \
                    e.kind == 'call' and repr(e.data[0]) == '<class Group>':
                a = e.data[-2]
                nm = next(iter(seq_args(a)), None)
                if nm is not None and leafset(nm) - {'self.components[*].group'}:
                    rep.bad('targets', 'group name', f'a group is named {sorted(leafset(nm))}', wh(p, 'determine_groups'))


def translation(p, rep):
    """positions are found for the instrument as it is when it is translated, before they are used"""
    c = p.find_class('CTargetVisitor') or p.find_class('TargetVisitor')
    hooks = {n for k in p.mro(c) for n in k.methods if n.startswith(('visit_', 'enter_', 'leave_'))}
    events = []
    for name, args in (('__init__', ['instr']), ('translate', [])):
        f = p.method(c, name)
        if f is None:
            rep.bad('targets', name, f'a translator has no {name}')
            continue
        I = Interp(p)
        I.opaque_fn = hooks | {'__post_init__', 'verify_instance_parameters', 'info'}
        st = State()
        s = I.sym('self', c)
        I.run(f, [I.sym(a, p.find_class('Instr')) for a in args], self_=s, state=st)
        rep.uses(*I.called)
        events += I.events
    def at(what):
        return next((n for n, e in enumerate(events) if what(e)), None)
    used = at(lambda e: e.kind == 'mcall' and e.data[1] in hooks)
    raytrace = at(lambda e: e.kind == 'mcall' and e.data[1].startswith('visit_raytrace'))
    skip = at(lambda e: e.kind == 'setattr' and e.data[1] == 'ok_to_skip' and repr(e.data[2]) != 'None')
    groups = at(lambda e: e.kind == 'setattr' and e.data[1] == 'groups' and not e.pc)
    jumps = at(lambda e: e.kind == 'setattr' and e.data[1] == 'absolute_target')
    w = wh(p, 'translate')
    for n, before, what in ((groups, (used,), 'the groups of the instrument are determined before anything is generated'),
                            (jumps, (raytrace, skip), 'jump targets are determined before they are used')):
        if n is None or any(b is None or b < n for b in before):
            rep.bad('targets', what, 'not so: ' + what, w)
        else:
            rep.ok('targets', what)


def seq_args(a):
    return [x for x in getattr(a, 'items', ()) or getattr(a, 'args', ())]


def flat_items(items):
    for i in items:
        if isinstance(i, Rep):
            yield from flat_items(i.items)
        elif isinstance(i, Opt):
            yield from flat_items(i.a)
            yield from flat_items(i.b)
        elif isinstance(i, Splice):
            b = strip_iter(i.base)
            if isinstance(b, Seq):
                yield from flat_items(b.items)
            else:
                yield i
        else:
            yield i


def flows_into(I, st, name, cls):
    """every term stored in the list field `name` of a `cls`: appended, or given where it is made"""
    from ..absint import HObj, HList, Ref
    refs, out = set(), []
    for c in st.heap.values():
        if isinstance(c, HObj) and getattr(c.cls, 'name', '') == cls and name in c.fields:
            for x in walk(c.fields[name]):
                if isinstance(x, Ref):
                    refs.add(x)
    for r in refs:
        c = st.heap.get(r.id if hasattr(r, 'id') else r.n)
        if isinstance(c, HList):
            out += flat_items(c.items)
    for e in I.events:
        if e.kind == 'mcall' and e.data[1] in ('append', 'add', 'insert', 'extend'):
            recv = e.data[0]
            if recv in refs or isinstance(recv, Attr) and recv.name == name:
                out.append(seq_args(e.data[2])[-1])
        if e.kind == 'setattr' and e.data[1] == name:
            out += flat_items((e.data[2],))
    return [x for x in out if not (isinstance(x, Ref))]


def wh(p, name, cls=None):
    for m in p.modules.values():
        for f in m.all_funcs() if hasattr(m, 'all_funcs') else []:
            if f.name == name:
                return f'{m.path}:{f.node.lineno} ({name})'
    import ast
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return f'{m.path}:{n.lineno} ({name})'
    return None


def phi_leaves(t, out):
    if isinstance(t, Phi):
        phi_leaves(t.a, out)
        phi_leaves(t.b, out)
    elif t not in out:
        out.append(t)
    return out


# ============================================================================================= C09 particle tables
MEMBER = {'double': 'double', 'int': 'int', 'long': 'long'}


def struct_members(t, name):
    """(type, member, is pointer/array, At) of a struct"""
    m = next(iter(t.find(r'struct ' + name + r' \{')), None)
    if m is None:
        return None
    start = m[0].end()
    depth, out, cur = 1, [], []
    toks = t.s[start:]
    i = t.ats.index(m[1])
    for a in t.ats[i:]:
        k = parts_key(a.tok.parts)
        cur.append((k, a))
        if k == '}' and len(cur) > 3:
            break
    body = cur[3:-1]
    decl = []
    for k, a in body:
        if k == ';':
            if decl:
                out.append(decl)
            decl = []
        else:
            decl.append((k, a))
    res = []
    for d in out:
        words = [k for k, _ in d]
        if len(d) == 1:
            res.append(('?', words[0], False, d[0][1]))
            continue
        # split declarators on commas outside brackets
        groups, depth = [[]], 0
        for k, a in d:
            depth += k == '['
            depth -= k == ']'
            if k == ',' and depth == 0:
                groups.append([])
            else:
                groups[-1].append((k, a))
        g0 = groups[0]
        core = [x for x in g0]
        arr = False
        if any(k == '[' for k, _ in core):
            j = [k for k, _ in core].index('[')
            core, arr = core[:j], True
        typ = [k for k, _ in core[:-1]]
        ptr = '*' in typ
        base = ' '.join(k for k in typ if k != '*')
        res.append((base, core[-1][0], ptr or arr, core[-1][1]))
        for g in groups[1:]:
            ks = [k for k, _ in g]
            arr = '[' in ks
            if arr:
                g = g[:ks.index('[')]
            res.append((base, g[-1][0], arr or '*' in ks, g[-1][1]))
    return res


def c09(p, rep):
    rep.rule('reachable-by-name', 'each double-valued member of the particle and each user variable is found by name in '
             'particle_getvar, particle_getvar_void and particle_setvar_void (user variables also in '
             'particle_setvar_void_array, particle_uservar_init, particle_getuservar_byid and _get_particle_var)')
    rep.rule('same-name', 'the entry for a name reads or writes the member of that name')
    rep.rule('member', 'every member named in those functions and in the particle macros exists in the particle structure')
    rep.rule('restored', 'particle_restore restores every physical member from the saved particle, under its own name, '
             'and clears the absorbed and restore flags')
    rep.rule('state-args', 'mcsetstate/mcgetstate calls and prototypes list the state in the same order')
    for view in views(p):
        rep.uses(*view.g.functions())
        t = Text(view.code())
        mem = struct_members(t, '_struct_particle')
        if mem is None:
            rep.bad('member', '_struct_particle', 'the particle structure is not generated', where_of(p, ['_struct_particle']))
            continue
        users = [m for m in mem if '«' in m[1]]
        names = {m[1] for m in mem}
        unames = {y for u in users for y in user_norm(u[1])}
        doubles = [m[1] for m in mem if m[0] == 'double' and not m[2]]
        if not doubles or not unames:
            rep.bad('member', 'members', 'the particle structure has no state members or no user variables',
                    where_of(p, ['_struct_particle']))
            continue
        shown = {}
        for fn, acc in (('particle_getvar', r'& \( p -> (\S+) \)'), ('particle_getvar_void', r'& \( p -> (\S+) \)'),
                        ('particle_setvar_void', r'memcpy \( & \( p -> (\S+) \) , value')):
            f = function(view, fn)
            if f is None:
                rep.bad('reachable-by-name', fn, f'{fn} is not generated')
                continue
            tf = Text(within(view, f))
            got = {}
            for m, a in tf.find(r'if \( ! str_comp \( "([^"]*)" , name \) \) \{ (.*?) \}'):
                am = re.search(acc, m.group(2))
                got[m.group(1)] = (am.group(1) if am else None, a)
            for d in doubles:
                if d not in got:
                    rep.bad('reachable-by-name', f'{d} in {fn}', f'{fn} does not know the particle member {d}', where_of(p, [fn]))
                else:
                    rep.ok('reachable-by-name', f'{d} in {fn}')
            cover(p, rep, view, fn, got, users)
            for k, (v, a) in got.items():
                same(p, rep, view, fn, k, v, a, names, users)
        # user variable tables
        for fn, pat in (('particle_setvar_void_array', r'if \( ! str_comp \( "([^"]*)" , name \) \) \{ memcpy \( & \( p -> (\S+) \) , value'),
                        ('_get_particle_var', r'if \( ! (?:str_comp|strcmp) \( token , "([^"]*)" \) \) return \( void \* \) & \( p -> (\S+) \)'),
                        ('particle_uservar_init', r'()p -> (\S+) ='),
                        ('particle_getuservar_byid', r'case («\#[^»]*») : \{ rval = \* \( \( double \* \) \( & \( p -> (\S+) \) \) \)')):
            f = function(view, fn)
            tf = Text(within(view, f)) if f else None
            ms = list(tf.find(pat)) if tf else []
            if not ms:
                rep.bad('reachable-by-name', f'user variables in {fn}', f'{fn} has no entry for user variables', where_of(p, [fn]))
                continue
            got = {m.group(2): (m.group(2), a) for m, a in ms}
            cover(p, rep, view, fn, got, users)
            for m, a in ms:
                if fn in ('particle_setvar_void_array', '_get_particle_var'):
                    same(p, rep, view, fn, m.group(1), m.group(2), a, names, users)
        # sizes copied
        # macros
        for m in view.macros:
            if m['kind'] == 'define':
                body = ' '.join(parts_key(b.tok.parts) for b in m['body'])
                for mm in re.finditer(r'_particle -> (\S+)', body):
                    k = mm.group(1)
                    if k in names or user_norm(k):
                        rep.ok('member', f'macro {parts_key(m["name"].parts)}')
                    else:
                        rep.bad('member', f'macro {parts_key(m["name"].parts)}', f'macro uses particle member {k} which the '
                                'structure does not have', loc(p, view, m['at']))
        for mm, a in t.find(r'\b_particle -> (\S+)'):
            k = mm.group(1)
            if k in names or user_norm(k):
                rep.ok('member')
            elif k != '_logic':
                rep.bad('member', f'{k} in {fname(a)}', f'particle member {k} is used but not declared', loc(p, view, a))
        # restore
        f = function(view, 'particle_restore')
        tf = Text(within(view, f)) if f else None
        got = {m.group(1): (m.group(2), a) for m, a in tf.find(r'p -> (\S+) = (?:p0 -> )?(\S+) ;')} if tf else {}
        for d in doubles:
            if d.startswith('_'):
                continue
            if d not in got:
                rep.bad('restored', d, f'particle_restore does not restore {d}', where_of(p, ['particle_restore']))
            elif got[d][0] != d:
                rep.bad('restored', d, f'particle_restore sets {d} from {got[d][0]}', loc(p, view, got[d][1]))
            else:
                rep.ok('restored', d)
        for d in ('_absorbed', '_restore'):
            if got.get(d, (None,))[0] != '0':
                rep.bad('restored', d, f'particle_restore does not clear {d}', where_of(p, ['particle_restore']))
            else:
                rep.ok('restored', d)
        # state order
        proto = next(iter(t.find(r'mcsetstate \( ([^()]*) \) ;')), None)
        call = [m for m, a in t.find(r'mcsetstate \( ([^()]*) \) ;')][1:]
        if proto is None or not call:
            rep.bad('state-args', 'mcsetstate', 'mcsetstate is not declared and called', where_of(p, ['mcsetstate']))
        else:
            pars = [x.split()[-1] for x in proto[0].group(1).split(' , ')]
            args = call[0].group(1).split(' , ')
            if len(pars) != len(args):
                rep.bad('state-args', 'mcsetstate count', f'mcsetstate takes {len(pars)} arguments, {len(args)} are given',
                        where_of(p, ['mcsetstate']))
            else:
                typ = [' '.join(x.split()[:-1]) for x in proto[0].group(1).split(' , ')]
                badp = [x for x, ty in zip(pars, typ) if ty == 'double' and x not in names]
                # the default particle has weight one
                vals = dict(zip(pars, args))
                if badp:
                    rep.bad('state-args', f'mcsetstate {badp}', f'mcsetstate parameters {badp} are not particle members',
                            where_of(p, ['mcsetstate']))
                elif vals.get('p') != '1':
                    rep.bad('state-args', 'mcsetstate default', f'the default particle is {vals}', where_of(p, ['mcsetstate']))
                else:
                    rep.ok('state-args', f'mcsetstate {pars}')
            get = next(iter(t.find(r'mcgetstate \( ([^()]*) \) ;')), None)
            gp = [x.split()[-1] for x in get[0].group(1).split(' , ')][1:] if get else []
            if not gp or gp != [x for x in pars if x in gp]:
                rep.bad('state-args', 'mcgetstate order', f'mcgetstate lists {gp}, mcsetstate lists {pars}', where_of(p, ['mcgetstate']))
            else:
                rep.ok('state-args', f'mcgetstate {gp}')
    rep.need('reachable-by-name', 80, 'table entries')


def user_norm(k):
    """user-variable paths of a token, however the collection is reached"""
    out = set()
    for x in k.strip('«»').split('|'):
        m = re.search(r'self\.(instrument_uservars|component_uservars)', x)
        if m:
            out.add(m.group(1))
    return out


def cover(p, rep, view, fn, got, users):
    have = set()
    for k in got:
        if re.fullmatch(r'«[^»]*»', k):
            have |= user_norm(k)
    want = {y for u in users for y in user_norm(u[1])}
    miss = want - have
    if miss or not want:
        rep.bad('reachable-by-name', f'user variables in {fn}', f'{fn} has no entry for the user variables {sorted(miss)}',
                where_of(p, [fn]))
    else:
        rep.ok('reachable-by-name', f'user variables in {fn}')


def same(p, rep, view, fn, k, v, a, names, users):
    if v != k:
        rep.bad('same-name', f'{k} in {fn}', f'{fn}: the entry for "{k}" uses member {v}', loc(p, view, a))
    elif '«' not in v and v not in names:
        rep.bad('member', f'{v} in {fn}', f'{fn} uses particle member {v} which the structure does not have', loc(p, view, a))
    else:
        rep.ok('same-name', f'{k} in {fn}')
