"""C12: what is saved to HDF5 is what is loaded back"""
from __future__ import annotations
import ast
import re
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Index, Item, Const, Str, Phi, Seq, Rep, Opt, Ref,
                      Splice, Sym, ClsV, HDict, HObj, DEDUP, walk, paths, children)
from ..cquery import leafset
from ..ctmpl import canon
from ..project import AnalysisBroken, Class

ROOT = 'Instr'


def find_handlers(p):
    """(class, name) of the table from type name to handler"""
    best = None
    for c in p.all_classes():
        for name, node in c.defaults.items():
            if isinstance(node, ast.Dict) and len(node.keys) > 10 and 'save' in c.methods and 'load' in c.methods:
                best = (c, name)
    if best is None:
        raise AnalysisBroken('no table of HDF5 handlers found')
    return best


def table(I, c, name, st):
    r = I.attr(ClsV(c), name, st)
    cell = st.heap.get(getattr(r, 'id', None))
    if not isinstance(cell, HDict):
        raise AnalysisBroken('the table of HDF5 handlers could not be evaluated')
    return [i.items for i in cell.items if isinstance(i, Seq)]


def ann_classes(p, m, node, seen=None):
    """project classes named in an annotation (through TypeVars, aliases and quoted names)"""
    seen = seen if seen is not None else set()
    out = []
    if isinstance(node, str):
        node = ast.parse(node, mode='eval').body
    for x in ast.walk(node):
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
            x = ast.Name(x.value)
        if isinstance(x, (ast.Name, ast.Attribute)):
            c = p.resolve_expr_class(m, x)
            if c is not None:
                out.append(c)
            elif isinstance(x, ast.Name):
                r = p.resolve_name(m, x.id)
                if isinstance(r, tuple) and r[0] == 'value' and (r[1].name, x.id) not in seen:
                    seen.add((r[1].name, x.id))
                    out += ann_classes(p, r[1], r[2], seen)
    return out


def ctor_params(p, c):
    """constructor parameters in order: name -> (annotation or None, owner)"""
    init = p.method(c, '__init__')
    if init is None:
        return {k: v for k, v in p.class_fields(c).items()}
    a = init.node.args
    out = {}
    for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs:
        out[x.arg] = (x.annotation, init.cls)
    if a.kwarg is not None:
        out[a.kwarg.arg] = (None, init.cls)
    return out


def holders(p, c):
    """constructor parameter -> attributes that hold it"""
    init = p.method(c, '__init__')
    params = ctor_params(p, c)
    out = {n: {n} for n in params}
    if init is None:
        return out
    # an attribute holds a parameter when __init__ (or the one it extends) stores an expression over it
    todo, seen = [(init, {n: {n} for n in params})], set()
    while todo:
        f, env = todo.pop()
        if (f.cls.name) in seen:
            continue
        seen.add(f.cls.name)
        local = {k: set(v) for k, v in env.items()}        # local name -> parameters it derives from
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                src = set()
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Name):
                        src |= local.get(x.id, set())
                for t in n.targets:
                    for y in (t.elts if isinstance(t, ast.Tuple) else [t]):
                        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'self':
                            for s in src:
                                out.setdefault(s, set()).add(y.attr)
                        elif isinstance(y, ast.Name):
                            local[y.id] = local.get(y.id, set()) | src
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and \
                    isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super':
                for k in p.mro(f.cls)[1:]:
                    if '__init__' in k.methods:
                        g = k.methods['__init__']
                        names = g.arg_names()[1:]
                        e2 = {}
                        for i, a in enumerate(n.args):
                            if i < len(names):
                                e2[names[i]] = {s for x in ast.walk(a) if isinstance(x, ast.Name)
                                                for s in local.get(x.id, set())}
                        for kw in n.keywords:
                            if kw.arg:
                                e2[kw.arg] = {s for x in ast.walk(kw.value) if isinstance(x, ast.Name)
                                              for s in local.get(x.id, set())}
                        todo.append((g, e2))
                        break
    return out


def derived(p, c):
    """fields __post_init__ always computes from the others"""
    f = p.method(c, '__post_init__')
    out = set()
    for n in (f.node.body if f else []):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    out.add(t.attr)
    return out


def keys_read(t):
    """keys whose contents end up in `t` (the context handed to a nested load does not)"""
    out = set()

    def rec(x):
        if isinstance(x, App) and x.fn == 'load':
            for y in x.args[:2]:
                rec(y)
            if len(x.args) < 2:
                for k, v in x.kw:
                    if k == 'group':
                        rec(v)
            return
        if isinstance(x, Item) and x.base in (Sym('group'), Attr(Sym('group'), 'attrs')) and isinstance(x.key, Const):
            out.add(x.key.v)
        if isinstance(x, MCall) and x.name == 'get' and x.recv in (Sym('group'), Attr(Sym('group'), 'attrs')) and \
                x.args and isinstance(x.args[0], Const):
            out.add(x.args[0].v)
        for y in children(x):
            rec(y)
    for y in (t if isinstance(t, (list, tuple)) else [t]):
        rec(y)
    return out


def group_key(t):
    """the constant name of a group made or fetched in `group`"""
    if isinstance(t, MCall) and t.recv == Sym('group') and t.name in ('create_group', 'require_group') and t.args:
        return t.args[0]
    if isinstance(t, Item) and t.base == Sym('group'):
        return t.key
    return None


def kw(seq, name, pos, args):
    for i in getattr(seq, 'items', ()):
        if isinstance(i, Seq) and i.kind == 'kv' and i.items[0] == K(name):
            return i.items[1]
    a = getattr(args, 'items', ())
    return a[pos] if len(a) > pos else None


def context_of(p, cls, tab, names):
    """type name -> names of the extra arguments its load can not do without"""
    I, st = Interp(p), State()
    items = table(I, cls, tab, st)
    out = {}
    for nm, i in names.items():
        f = I.attr(items[i][1], 'load', st)
        node = f.fn.node if hasattr(f, 'fn') else None
        if node is not None:
            a = node.args
            pos = a.posonlyargs + a.args
            need = pos[:len(pos) - len(a.defaults)] + [x for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            out[nm] = {x.arg for x in need if x.arg not in ('group', 'cls', 'self')}
    return out


def run_handler(p, cls, tab, key_index, meth, typ, names):
    I = Interp(p, opaque_fn={f'{cls.name}.save', f'{cls.name}.load', 'version'})
    I.opaque_new = set(names)
    st = State()
    items = table(I, cls, tab, st)
    h = items[key_index][1]
    f = I.attr(h, meth, st)
    args = [I.sym('group')]
    more = {}
    node = getattr(getattr(f, 'fn', None), 'node', None)
    if meth == 'load' and typ is None and node is not None and node.args.kwarg is not None:
        more = {'context': I.sym('context')}
    if meth == 'save':
        args.append(I.sym('data', typ) if typ is not None else I.sym('data'))
    n0 = len(I.events)
    r = I.call_value(f, args, more, st, None, None)
    return I, st, I.freeze(r, st), I.events[n0:]


def leaves_of(t, conds=()):
    if isinstance(t, Phi):
        yield from leaves_of(t.a, conds + ((t.cond, True),))
        yield from leaves_of(t.b, conds + ((t.cond, False),))
    else:
        yield t, conds


PLAIN_FN = {'len', 'getattr', 'list', 'tuple', 'values', 'keys', 'ditems', 'str', 'fspath', 'int', 'bool', 'float'} | set(DEDUP) | {'dict.fromkeys'}


def plain(t):
    """a stored value is a field as it is (or its name, its path text, the names of its elements)"""
    for x in walk(t):
        if isinstance(x, App) and x.fn not in PLAIN_FN:
            return repr(x.fn)
        if isinstance(x, Phi):
            return 'a choice'
        if isinstance(x, MCall) and x.name not in ('as_posix', 'keys', 'values', 'items', 'tolist'):
            return x.name + '()'
    return None


def c12(p, rep):
    rep.rule('handled', 'every type an instrument can contain has a handler under its own name')
    rep.rule('header', 'save records, and load demands, the name of the type')
    rep.rule('field', 'every constructor argument of a handled type is read back from a key that save wrote from that '
             'same field')
    rep.rule('guard', 'a field is left out only when it is None, and read whenever it is there')
    rep.rule('sequence', 'elements of lists, tuples and dictionaries are stored and read under the same names, in order')
    rep.rule('dispatch', 'saving and loading choose the handler by the name of the type')
    cls, tab = find_handlers(p)
    I0, s0 = Interp(p), State()
    items = table(I0, cls, tab, s0)
    where = f'{cls.module.path}:{cls.node.lineno} ({cls.name}.{tab})'
    names = {}
    for i, (k, v) in enumerate(items):
        nm = k.v if isinstance(k, Const) else re.sub(r'.*?(\w+)\.__name__$', r'\1', repr(k))
        names[nm] = i
    rep.uses(cls.module.name + ':' + cls.name)
    # ---- reachable types
    made = {getattr(n.func, 'id', getattr(n.func, 'attr', None)) for m in p.modules.values() for n in ast.walk(m.tree)
            if isinstance(n, ast.Call)}
    todo, seen = [p.find_class(ROOT)], []
    while todo:
        c = todo.pop()
        if c in seen or p.is_enum(c):
            continue
        seen.append(c)
        for a, owner in ctor_params(p, c).values():
            if a is not None:
                todo += ann_classes(p, owner.module, a)
        todo += p.concrete_subclasses(c)
    for c in seen:
        subs = p.concrete_subclasses(c)
        if c.name in names:
            rep.ok('handled', c.name)
        elif c.name in made and not (subs and c.name not in {x for x in made} ):
            # a class with subclasses that the package never stores itself
            if subs and not stored_directly(p, c):
                continue
            rep.bad('handled', c.name, f'{c.name} can be part of an instrument but has no HDF5 handler', where)
        elif not subs and c.name in made:
            rep.bad('handled', c.name, f'{c.name} can be part of an instrument but has no HDF5 handler', where)
    for t in ('str', 'int', 'float', 'bool', 'list', 'tuple', 'dict'):
        if t in names:
            rep.ok('handled', t)
        else:
            rep.bad('handled', t, f'{t} has no HDF5 handler', where)
    project = {n for n in names if p.find_class(n, optional=True)}
    rep.rule('context', 'what a nested object needs to be loaded (the instances and component types known so far) is '
             'handed down to it')
    context = context_of(p, cls, tab, names)
    for nm, i in names.items():
        if nm in project:
            one_type(p, rep, cls, tab, i, nm, project, context)
        elif nm in ('list', 'tuple', 'dict'):
            container(p, rep, cls, tab, i, nm, project)
        else:
            scalar(p, rep, cls, tab, i, nm, project)
    dispatch(p, rep, cls, tab)
    enums(p, rep)
    rep.need('field', 60, 'stored fields')
    rep.need('handled', 20, 'types')
    rep.need('context', 6, 'nested loads')


def enums(p, rep):
    rep.rule('enum', 'an enumeration member is found again from its own name')
    for c in p.all_classes():
        f = p.method(c, 'from_name') if p.is_enum(c) else None
        if f is None:
            continue
        for m in c.defaults:
            if m.startswith('_'):
                continue
            I, st = Interp(p), State()
            r = I.freeze(I.call_value(I.attr(ClsV(c), 'from_name', st), [K(m)], {}, st, None, None), st)
            if r == Sym(f'{c.name}.{m}'):
                rep.ok('enum', f'{c.name}.{m}')
            else:
                rep.bad('enum', f'{c.name}.{m}', f'{c.name}.from_name({m!r}) is {canon(repr(r))[:120]}',
                        f'{c.module.path}:{f.node.lineno} ({c.name}.from_name)')


def stored_directly(p, c):
    """is an instance of exactly this class made anywhere in the package, other than in a fallback"""
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', None) == c.name:
                if m.name.endswith('hdf5'):
                    continue
                return True
    return False


def func_where(p, I, cls, name):
    hs = [f for f in I.called if f.endswith('.' + name) or f.endswith(':' + name)]
    return f'{cls.module.path} ({", ".join(sorted(h.split(":")[-1] for h in hs)) or name})'


def header_of(events):
    out = []
    for e in events:
        if e.kind == 'setitem' and repr(e.data[0]) == 'group.attrs':
            v = e.data[2]
            txt = v.v if isinstance(v, Const) else ''.join(x if isinstance(x, str) else f'«{x!r}»'
                                                           for x in getattr(v, 'parts', ()))
            if isinstance(txt, str) and '/' in txt and ('version' in txt):
                out.append((e.data[1], txt.rsplit('/', 1)[1], e))
    return out


def check_header(rep, nm, save_events, load_events, where):
    hs = header_of(save_events)
    want = {nm, f'«{nm}.__name__»', f'«numpy.{nm}.__name__»'}
    if len(hs) != 1 or hs[0][1] not in want or conditional(hs[0][2]):
        rep.bad('header', nm + ' save', f'saving a {nm} records the type as {[h[1] for h in hs]}', where)
        return
    refused = [d for e in load_events if e.kind == 'raise' and e.pc for d in differ(*e.pc[-1])]
    own = [d for d in refused if 'group.attrs' in d[0] and d[1] in (repr(nm), f'{nm}.__name__', f'numpy.{nm}.__name__')]
    ver = [d for d in refused if 'group.attrs' in d[0] and re.search(r'version\(\)$', d[1])]
    if not own:
        rep.bad('header', nm + ' load', f'loading a {nm} does not refuse a group of another type', where)
    elif not ver:
        rep.bad('header', nm + ' version', f'loading a {nm} does not refuse a file of another version', where)
    else:
        rep.ok('header', nm)


def differ(c, pol):
    """pairs that are known to differ (one of them) when `c` is `pol`"""
    if isinstance(c, App) and c.fn == 'not':
        return differ(c.args[0], not pol)
    if isinstance(c, App) and c.fn in ('or', 'and') and (c.fn == 'or') == pol:
        return [d for a in c.args for d in differ(a, pol)]
    if isinstance(c, App) and c.fn == 'eq' and not pol:
        a, b = (canon(repr(x)) for x in c.args)
        return [(a, b), (b, a)]
    return []


def conditional(e):
    return [c for c, pol in e.pc if not (isinstance(c, App) and c.fn in ('exception',))]


def none_guard(c, pol, attrs, text):
    """`c` is `pol`: does it only say that the field is not None (or that the object has it)"""
    r = canon(repr(c))
    for a in attrs:
        if (r == f'not(is(data.{a}, None))' or r == f"hasattr(data, '{a}')") and pol:
            return True
        if r == f'is(data.{a}, None)' and not pol:
            return True
    m = re.fullmatch(r'not\(is\((data\..*), None\)\)', r) if pol else re.fullmatch(r'is\((data\..*), None\)', r)
    if m and text.startswith(m.group(1)):
        return True
    return False


def one_type(p, rep, cls, tab, i, nm, project, context):
    t = p.find_class(nm)
    I, st, _, sev = run_handler(p, cls, tab, i, 'save', t, project)
    w_save = func_where(p, I, cls, 'save') + f' for {nm}'
    I2, st2, loaded, lev = run_handler(p, cls, tab, i, 'load', t, project)
    w_load = func_where(p, I2, cls, 'load') + f' for {nm}'
    rep.uses(*I.called, *I2.called)
    check_header(rep, nm, sev, lev, w_save)
    hold = holders(p, t)
    params = ctor_params(p, t)
    # what save wrote: key -> [(value, conditions)]
    saved = {}
    for e in sev:
        if e.kind == 'setitem' and repr(e.data[0]) in ('group.attrs', 'group') and isinstance(e.data[1], Const):
            saved.setdefault(e.data[1].v, []).append((I.freeze(e.data[2], st), e))
        elif e.kind == 'mcall' and e.data[1] == 'save' and isinstance(e.data[0], ClsV) and e.data[0].cls is cls:
            g, d = kw(e.data[3], 'group', 0, e.data[2]), kw(e.data[3], 'data', 1, e.data[2])
            k = group_key(g) if g is not None else None
            if isinstance(k, Const) and d is not None:
                saved.setdefault(k.v, []).append((I.freeze(d, st), e))
    # what load made
    news, other = [], []
    for leaf, conds in leaves_of(loaded):
        if isinstance(leaf, App) and leaf.fn == 'new:' + nm:
            news.append((leaf, conds))
        else:
            other.append(leaf)
    if not news:
        rep.bad('field', nm, f'loading a {nm} does not make a {nm}: {canon(repr(loaded))[:200]}', w_load)
        return
    given = {}
    for leaf, conds in news:
        order = list(params)
        for j, a in enumerate(leaf.args):
            if j < len(order):
                given.setdefault(order[j], []).append(a)
        for k, v in leaf.kw:
            given.setdefault(k, []).append(v)
    for e in lev:
        if e.kind == 'setattr' and any(e.data[0] == leaf for leaf, _ in news):
            for prm, hs in {**{x: {x} for x in (e.data[1],)}, **hold}.items():
                if e.data[1] in hs:
                    given.setdefault(prm, []).append(I2.freeze(e.data[2], st2))
    # every stored value is used again
    used = set()
    for vs in given.values():
        used |= keys_read(vs)
    for e in lev:
        if e.kind in ('setattr', 'raise'):
            used |= keys_read([I2.freeze(x, st2) for x in e.data if isinstance(x, Term)] + [c for c, _ in e.pc])
    for k in saved:
        if k not in used and 'mccode-antlr' not in k and loads_key(lev, k, I2, st2) is False:
            rep.bad('field', f'{nm} key {k}', f'{k!r} is stored for a {nm} but never used when it is loaded', w_load)
    # objects inside get what they need
    fields_ann = params
    for k, vs in saved.items():
        for v, e in vs:
            for x in walk(v):
                if isinstance(x, Attr) and x.base == Sym('data') and x.name in fields_ann and fields_ann[x.name][0] is not None:
                    a, owner = fields_ann[x.name]
                    want = set().union(*(context.get(c.name, set()) for c in ann_classes(p, owner.module, a)))
                    for e2 in (loads_key(lev, k, I2, st2) or ()) if want and isinstance(v, Attr) else ():
                        have = {i.items[0].v for i in getattr(e2.data[3], 'items', ()) if isinstance(i, Seq)
                                and isinstance(i.items[0], Const)}
                        if want <= have:
                            rep.ok('context', f'{nm} {k}')
                        else:
                            rep.bad('context', f'{nm} {k}', f'{k!r} of a {nm} is loaded without {sorted(want - have)}', w_load)
    for e in lev:
        if e.kind == 'mcall' and e.data[1] == 'load' and isinstance(e.data[0], ClsV):
            for i in getattr(e.data[3], 'items', ()):
                if isinstance(i, Seq) and isinstance(i.items[0], Const) and i.items[0].v != 'group':
                    by_name(rep, nm, i.items[0].v, I2.freeze(i.items[1], st2), w_load)
    skip = derived(p, t)
    for f in params:
        attrs = hold.get(f, {f})
        if f in skip and f not in given:
            rep.ok('field', f'{nm}.{f} (computed)')
            continue
        if f not in given:
            written = [k for k, vs in saved.items() if any(reads(v, attrs) for v, _ in vs)]
            rep.bad('field', f'{nm}.{f}', f'{nm}.{f} is not given back when a {nm} is loaded'
                    + (f' although it is stored under {written}' if written else ' and is not stored'), w_load)
            continue
        terms = given[f]
        read = set().union(*(keys_read(x) for x in terms))
        data_keys = {k for k in read if 'mccode-antlr' not in k}
        if not data_keys:
            rep.bad('field', f'{nm}.{f}', f'{nm}.{f} is loaded as {canon(repr(terms))[:160]}, not from the file', w_load)
            continue
        good, crossed = False, []
        for k in sorted(data_keys):
            vs = saved.get(k)
            if not vs:
                rep.bad('field', f'{nm}.{f} key {k}', f'{nm}.{f} is loaded from {k!r}, which saving a {nm} never writes',
                        w_load)
                good = True
                continue
            for v, e in vs:
                if reads(v, attrs):
                    good = True
                    why = plain(v)
                    if why:
                        rep.bad('field', f'{nm}.{f} value', f'{nm}.{f} is stored as {canon(repr(v))[:160]} ({why})', w_save)
                else:
                    crossed.append(canon(repr(v))[:80])
                text = canon(repr(v))
                for c, pol in e.pc:
                    if isinstance(c, App) and c.fn in ('in_loop',):
                        continue
                    if none_guard(c, pol, attrs, text):
                        rep.ok('guard', f'{nm}.{f} stored unless None')
                    else:
                        rep.bad('guard', f'{nm}.{f} stored if {canon(repr(c))[:120]}', f'{nm}.{f} is stored only when '
                                f'{"" if pol else "not "}{canon(repr(c))[:160]}', w_save)
        if crossed or not good:
            rep.bad('field', f'{nm}.{f} from {crossed}', f'{nm}.{f} is loaded from {sorted(data_keys)}, which hold '
                    f'{crossed}', w_load)
        else:
            rep.ok('field', f'{nm}.{f} under {sorted(data_keys)}')
        for x in terms:
            for y in walk(x):
                if isinstance(y, Phi):
                    r = canon(repr(y.cond))
                    ks = keys_read(y.cond) | set(re.findall(r"in\('([^']*)', group(?:\.attrs)?\)", r))
                    if ks and ks <= data_keys and re.fullmatch(
                            r"(not\()?(in\('[^']*', group(\.attrs)?\)|is\(.*, None\))\)?", r):
                        rep.ok('guard', f'{nm}.{f} read when there')
                    elif ks and not ks <= data_keys:
                        rep.bad('guard', f'{nm}.{f} read if {r[:120]}', f'{nm}.{f} is read only when {r[:160]}', w_load)


def loads_key(lev, k, I, st):
    """the places that load (part of) the group `k`; False when there is none"""
    out = []
    for e in lev:
        if e.kind == 'mcall' and e.data[1] == 'load' and isinstance(e.data[0], ClsV):
            g = kw(e.data[3], 'group', 0, e.data[2])
            base = g
            while isinstance(base, Item) and base.base != Sym('group'):
                base = base.base
            if isinstance(base, Item) and base.key == K(k):
                out.append(e)
    return out or False


def by_name(rep, nm, ctx, v, where):
    """a table handed to nested loads finds each object by its own name"""
    for x in walk(v):
        if isinstance(x, Seq) and x.kind == 'dict':
            for y in walk(x):
                if isinstance(y, Seq) and y.kind == 'kv':
                    k, o = y.items[:2]
                    if isinstance(k, Attr) and k.name == 'name' and same(k.base, o):
                        rep.ok('context', f'{nm} {ctx} by name')
                    elif not (isinstance(k, Const)):
                        rep.bad('context', f'{nm} {ctx} by name', f'{ctx} are looked up by {canon(repr(k))[-60:]}', where)
            return


def same(a, b):
    sa, sb = repr(a), repr(b)
    return a == b or type(a) is type(b) and re.sub(r'&\d+|=dict\[.*', '', sa)[:200] == re.sub(r'&\d+|=dict\[.*', '', sb)[:200]


def reads(v, attrs):
    got = set(re.findall(r'\bdata\.(\w+)', canon(repr(v)))) | \
        set(re.findall(r"getattr\(data, '(\w+)'\)", canon(repr(v))))
    return bool(got) and got <= set(attrs)


def erase(t, length):
    """an entry name with its index and its padding named"""
    s = canon(repr(t))
    s = re.sub(r'#\((?:[^()]|\([^()]*\))*\)\d*', 'INDEX', s)
    s = re.sub(r'#[\w.\[\]()\'*]+', 'INDEX', s)
    return s.replace(length, 'LENGTH')


def container(p, rep, cls, tab, i, nm, project):
    I, st, _, sev = run_handler(p, cls, tab, i, 'save', None, project)
    w_save = func_where(p, I, cls, 'save') + f' for {nm}'
    I2, st2, loaded, lev = run_handler(p, cls, tab, i, 'load', None, project)
    w_load = func_where(p, I2, cls, 'load') + f' for {nm}'
    rep.uses(*I.called, *I2.called)
    check_header(rep, nm, sev, lev, w_save)
    saves = [e for e in sev if e.kind == 'mcall' and e.data[1] == 'save' and isinstance(e.data[0], ClsV)]
    loads = [e for e in lev if e.kind == 'mcall' and e.data[1] == 'load' and isinstance(e.data[0], ClsV)]
    if len(saves) != 1 or len(loads) != 1:
        rep.bad('sequence', nm, f'{len(saves)} places store and {len(loads)} load the elements of a {nm}', w_save)
        return
    s, l = saves[0], loads[0]
    g, d = kw(s.data[3], 'group', 0, s.data[2]), kw(s.data[3], 'data', 1, s.data[2])
    lg = kw(l.data[3], 'group', 0, l.data[2])
    sk, lk = group_key(g), group_key(lg)
    if lk is None and isinstance(lg, Elem) and canon(repr(lg)) == 'values(group)[*]':
        lk = lg
    extra = [c for c, pol in s.pc if not (isinstance(c, App) and c.fn == 'in_loop')] + \
            [c for c, pol in l.pc if not (isinstance(c, App) and c.fn == 'in_loop') and 'mccode-antlr' not in repr(c)]
    if extra:
        rep.bad('sequence', nm + ' condition', f'an element of a {nm} is left out when {canon(repr(extra))[:160]}', w_save)
    if sk is None or lk is None or d is None:
        rep.bad('sequence', nm, f'elements of a {nm} are not stored one group each', w_save)
        return
    if nm == 'dict':
        ok = leafset(sk) == {'data.keys()[*]'} or canon(repr(sk)) in ('keys(data)[*]', 'data[*]')
        dv = canon(repr(d))
        ok = ok and dv in ('values(data)[*]', 'data[data[*]]', 'data[keys(data)[*]]')
        kvs = [x for x in walk(loaded) if isinstance(x, Seq) and x.kind == 'kv']
        lks = canon(repr(lk))
        ok2 = len(kvs) == 1 and isinstance(kvs[0].items[1], App) and kvs[0].items[1].fn == 'load' and \
            canon(repr(kvs[0].items[0])) in ('group[*]', 'keys(group)[*]', lks) and \
            lks in ('group[*]', 'keys(group)[*]', 'values(group)[*]')
        forwards(rep, nm, l, w_load)
        if not ok or not ok2:
            rep.bad('sequence', 'dict', f'a dictionary entry is stored as {canon(repr(sk))} = {dv} and read as {lks}', w_save)
        else:
            rep.ok('sequence', 'dict')
        return
    forwards(rep, nm, l, w_load)
    if canon(repr(d)) not in ('data[*]',):
        rep.bad('sequence', nm + ' element', f'{canon(repr(d))} is stored as an element of a {nm}', w_save)
    a, b = erase(sk, 'len(data)'), erase(lk, "group.attrs['length']")
    if a != b or 'INDEX' not in a:
        rep.bad('sequence', nm + ' names', f'element names of a {nm} differ: stored as {a}, read as {b}', w_save)
    else:
        rep.ok('sequence', f'{nm} names {a}')
    count = [canon(repr(e.data[2])) for e in sev if e.kind == 'setitem' and e.data[1] == K('length')]
    idx = [x for x in walk(sk) if isinstance(x, Index)]
    lidx = [x for x in walk(lk) if isinstance(x, Index)]
    full = count == ['len(data)'] and idx and lidx and all(canon(repr(x.base)) == 'data' for x in idx) and \
        all(canon(repr(x.base)) == "rangeof(group.attrs['length'])" for x in lidx)
    if full:
        rep.ok('sequence', nm + ' covers every element in order')
    else:
        rep.bad('sequence', nm + ' range', f'not every element of a {nm} is stored and read in order', w_load)
    kinds = [getattr(x, 'kind', None) for x, _ in leaves_of(loaded)]
    if nm not in kinds and not (isinstance(loaded, App) and loaded.fn == nm):
        rep.bad('sequence', nm + ' kind', f'loading a {nm} gives {canon(repr(loaded))[:120]}', w_load)
    if any(isinstance(x, App) and x.fn in ('reversed', 'reversed_of', 'sorted', 'sorted_of') for x in walk(loaded)):
        rep.bad('sequence', nm + ' order', f'loading a {nm} changes the order', w_load)


def forwards(rep, nm, l, where):
    if any(isinstance(i, Seq) and i.items[0] == K('context') for i in getattr(l.data[3], 'items', ())):
        rep.ok('context', nm + ' elements')
    else:
        rep.bad('context', nm + ' elements', f'elements of a {nm} are loaded without what the {nm} was given to load them '
                'with', where)


def scalar(p, rep, cls, tab, i, nm, project):
    I, st, _, sev = run_handler(p, cls, tab, i, 'save', None, project)
    w = func_where(p, I, cls, 'save') + f' for {nm}'
    I2, st2, loaded, lev = run_handler(p, cls, tab, i, 'load', None, project)
    rep.uses(*I.called, *I2.called)
    check_header(rep, nm, sev, lev, w)
    sets = [e for e in sev if e.kind == 'setitem' and repr(e.data[0]) in ('group', 'group.attrs')
            and 'mccode-antlr' not in repr(e.data[1])]
    if len(sets) != 1 or repr(sets[0].data[2]) != 'data' or conditional(sets[0]):
        rep.bad('field', nm, f'a {nm} is not stored as it is', w)
        return
    k = sets[0].data[1]
    odd = [x for x in walk(loaded) if isinstance(x, (App, MCall)) and not converts(x, nm)]
    if odd:
        rep.bad('field', nm + ' conversion', f'a {nm} is loaded as {canon(repr(loaded))[:120]}', w)
    if isinstance(k, Const) and keys_read(loaded) == {k.v} and not any(isinstance(x, Phi) for x in walk(loaded)):
        rep.ok('field', nm)
    else:
        rep.bad('field', nm + ' load', f'a {nm} is stored under {k!r} and loaded from {sorted(keys_read(loaded))}', w)


def converts(x, nm):
    """does this step of loading a stored scalar keep its value"""
    if isinstance(x, MCall):
        if x.name in ('get', 'item'):
            return True
        if x.name in ('decode', 'asstr') and nm == 'str':
            enc = [a for a in x.args] + [v for k, v in x.kw if k == 'encoding']
            return all(isinstance(a, Const) and str(a.v).lower().replace('_', '-') in ('utf-8', 'utf8') for a in enc[:1])
        return x.recv is None or x.name == nm
    if x.fn == 'str' and nm == 'str':
        return len(x.args) == 2 and isinstance(x.args[1], Const) and x.args[1].v.lower() in ('utf-8', 'utf8')
    return x.fn.rsplit('.', 1)[-1] in (nm, nm.rsplit('.', 1)[-1], 'new:' + nm) or x.fn in ('lookup',)


def dispatch(p, rep, cls, tab):
    for meth in ('save', 'load'):
        f = cls.methods[meth]
        I = Interp(p)
        st = State()
        args = {a: I.sym(a) for a in f.arg_names() if a != 'cls'}
        ref = I.attr(ClsV(cls), tab, st)
        n0 = len(I.events)
        I.opaque = {c.name for c in p.all_classes() if c is not cls and c.module is cls.module}
        I.call_value(Clo_of(I, cls, meth, st), [], args, st, None, None)
        found = False
        for e in I.events[n0:]:
            if e.kind == 'mcall' and e.data[1] == meth and isinstance(e.data[0], (Item, Phi, App)):
                key = canon(repr(getattr(e.data[0], 'key', e.data[0])))
                want = ('data.__class__.__name__' in key or 'type(data).__name__' in key) if meth == 'save' else \
                    ('split' in key and "[1]" in key and 'group.attrs' in key)
                a = [canon(repr(x)) for x in getattr(e.data[2], 'items', ())] + \
                    [canon(repr(i.items[1])) for i in getattr(e.data[3], 'items', ()) if isinstance(i, Seq)]
                if want and a[:2] == (['group', 'data'] if meth == 'save' else ['group'] + a[1:2]):
                    found = True
        if found:
            rep.ok('dispatch', f'{cls.name}.{meth}')
        else:
            rep.bad('dispatch', f'{cls.name}.{meth}', f'{cls.name}.{meth} does not hand {"the object" if meth == "save" else "the group"} '
                    f'to the handler of its type', f'{cls.module.path}:{f.node.lineno} ({cls.name}.{meth})')


def Clo_of(I, cls, meth, st):
    return I.attr(ClsV(cls), meth, st)
