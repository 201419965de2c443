"""C06 string literals, C08 composed identifiers of the generated C program"""
from __future__ import annotations
import re
from ..absint import (Term, App, MCall, Attr, Elem, Index, Item, Const, Str, Phi, Seq, Rep, Opt, Splice, walk, paths,
                      conjuncts, neg)
from ..cview import views
from ..cquery import leafset, parts_key, loop_key, Text, within, show_leaf, holds, unconditional, base_filter
from ..ctmpl import canon, where_of
from ..ctok import show_parts, short
from .gen_rules import COMP, TYPE, loc, fname
from .gen_trace import phi_leaves

# ============================================================================================ C06 string escaping
QUOTE, BACK, NL = '"', '\\', '\n'
RAW = {QUOTE: 'raw', BACK: 'raw', NL: 'raw'}
UNICODE_ESCAPE = ('unicode-escape', 'unicode_escape')


def escaped(t, depth=0):
    """how each troublesome character of the original text appears in `t`: raw, esc (escaped once), bad (escaped in a
    way that does not survive, or twice); None when the term is not a text transformation"""
    if isinstance(t, Str) and depth:
        # put together: escaped once more what was escaped in it
        inner = [escaped(x, depth + 1) for q in t.parts if not isinstance(q, str) for x in phi_leaves(q, [])]
        return {k: next((v for v in ('bad', 'esc') if any(i[k] == v for i in inner)), 'raw') for k in RAW}
    if depth > 20 or not isinstance(t, MCall):
        return dict(RAW)
    r = escaped(t.recv, depth + 1)
    n, a = t.name, t.args
    if n == 'encode' and a and isinstance(a[0], Const) and str(a[0].v).lower() in UNICODE_ESCAPE:
        if r[BACK] == 'esc' or r[QUOTE] == 'esc' or r[NL] == 'esc':
            return {k: 'bad' if v == 'esc' else 'esc' if k != QUOTE else v for k, v in r.items()}
        return {QUOTE: r[QUOTE], BACK: 'esc', NL: 'esc'}
    if n in ('encode', 'decode') and (not a or isinstance(a[0], Const) and str(a[0].v).lower().replace('_', '-') in
                                      ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1')):
        return r
    if n == 'replace' and len(a) >= 2 and isinstance(a[0], Const) and isinstance(a[1], Const):
        x, y = a[0].v, a[1].v
        if x == QUOTE and y == '\\"':
            return {**r, QUOTE: 'esc' if r[QUOTE] == 'raw' else 'bad'}
        if x == BACK and y == '\\\\':
            return {k: ('esc' if r[k] == 'raw' else 'bad') if k == BACK else ('bad' if r[k] == 'esc' else r[k])
                    for k in r}
        if x == NL and y == '\\n':
            return {**r, NL: 'esc' if r[NL] == 'raw' else 'bad'}
        if x in (QUOTE, BACK, '\\"', '\\n'):
            return {k: 'bad' for k in r}
        return r
    return dict(RAW)


def chain_base(t):
    while isinstance(t, MCall) and t.name in ('encode', 'decode', 'replace'):
        t = t.recv
    return t


def const_text(t):
    b = chain_base(t)
    return isinstance(b, Const)


def identifier(path):
    return re.search(r'\.name$', path) and 'metadata' not in path


def number(t, path):
    if isinstance(t, Index) or path.startswith('#'):
        return True
    if isinstance(t, App) and t.fn == 'fmt' and len(t.args) > 1 and isinstance(t.args[1], Const) \
            and re.fullmatch(r'\d*d', str(t.args[1].v)):
        return True
    if isinstance(t, App) and t.fn in ('len', 'max', 'min', 'add', 'sub', 'mul'):
        return True
    return bool(re.search(r'\.line(\+\d+)?$', path)) or re.fullmatch(r'-?\d+', path) is not None


def c06(p, rep):
    rep.rule('escaped', 'a text put inside a C string literal is an identifier, a number, a C type name, a constant, '
             'or has had its quotes, backslashes and line breaks escaped exactly once')
    rep.rule('quoted-value', 'an instrument parameter value or unit is either written as the literal it already is '
             '(first and last character are quotes) or put between quotes')
    rep.rule('inside', 'a text that is escaped for C is only ever inside of a string literal')
    for view in views(p):
        rep.uses(*view.g.functions())
        for a in view.code():
            for h in a.tok.holes if a.kind not in ('str', 'chr') else ():
                for t in phi_leaves(h, []):
                    for x in leaf_terms(t):
                        if any(v != 'raw' for v in escaped(x).values()):
                            rep.bad('inside', f'{show_leaf(chain_base(x))} in {fname(a)}', f'{show_leaf(chain_base(x))} is '
                                    f'escaped for C, but is not inside of a string literal, in {fname(a)}', loc(p, view, a),
                                    dict(config=view.g.name))
        prev = None
        include = False
        for a in view.at:
            if a.kind == 'dir':
                include = False
            if a.directive and a.kind == 'ident' and a.text == 'include':
                include = True
            if a.kind == 'enddir':
                include = False
            if a.kind not in ('str', 'chr'):
                continue
            for h in a.tok.holes:
                for t in phi_leaves(h, []):
                    for x in leaf_terms(t):
                        judge(p, rep, view, a, x, include)
        for a in view.at:
            if a.kind == 'ident' and not a.directive and a.tok.holes and all(
                    re.fullmatch(r'self\.source\.parameters\[\*\]\.(value|unit)', x)
                    for h in a.tok.holes for x in leafset(h)) and a.func is None:
                key = f'{parts_key(a.tok.parts)} in the parameter table'
                if quote_test(a):
                    rep.ok('quoted-value', key)
                else:
                    rep.bad('quoted-value', key, f'{parts_key(a.tok.parts)} is written bare in the parameter table '
                            'without asking whether it is a quoted literal', loc(p, view, a), dict(config=view.g.name))
    rep.need('quoted-value', 6, 'parameter values and units')
    rep.need('escaped', 40, 'texts in string literals')


def quote_test(a):
    """is the token written under a test for quote characters"""
    return any(isinstance(x, Const) and x.v == QUOTE for c, _ in a.tok.guards for x in walk(c))


def leaf_terms(t):
    """tuple items and the like resolved to the alternatives they may be"""
    if isinstance(t, Item) and isinstance(t.key, Const) and isinstance(t.base, Seq):
        out = []
        for i in t.base.items:
            _values(i, out)
        return out
    if isinstance(t, Str):
        return [x for q in t.parts if not isinstance(q, str) for x in leaf_terms(q)]
    return [t]


def _values(i, out):
    if isinstance(i, Opt):
        for x in i.a + i.b:
            _values(x, out)
    elif isinstance(i, Rep):
        for x in i.items:
            _values(x, out)
    elif isinstance(i, Phi):
        phi_leaves(i, out)
    elif isinstance(i, Seq):
        for x in i.items:
            _values(x, out)
    else:
        out.append(i)


def judge(p, rep, view, a, t, include):
    if isinstance(t, Phi):
        for x in phi_leaves(t, []):
            judge(p, rep, view, a, x, include)
        return
    key = f'{show_leaf(chain_base(t))} in {fname(a)}'
    if isinstance(t, Const) or const_text(t):
        rep.ok('escaped')
        return
    e = escaped(t)
    if all(v == 'esc' for v in e.values()):
        rep.ok('escaped', f'{key}: escaped')
        rep.ok('inside', key)
        return
    if 'bad' in e.values():
        rep.bad('escaped', key, f'{show_leaf(chain_base(t))} is escaped twice or in the wrong order inside a string '
                f'literal of {fname(a)}: {short(t, 160)}', loc(p, view, a), dict(config=view.g.name))
        return
    base = chain_base(t)
    ls = leafset(base)
    if all(identifier(x) or number(base, x) or x.endswith('.mccode_c_type') or re.fullmatch(r"'\w*'", x) for x in ls):
        rep.ok('escaped', f'{key}: identifier or number')
        return
    if include and isinstance(base, MCall):
        rep.ok('escaped', f'{key}: file name of #include')
        return
    if all(re.fullmatch(r'self\.source\.parameters\[\*\]\.(value|unit)', x) for x in ls):
        if quote_test(a):
            rep.ok('quoted-value', key)
        else:
            rep.bad('quoted-value', key, f'{show_leaf(base)} is put between quotes without asking whether it already '
                    'is a quoted literal', loc(p, view, a), dict(config=view.g.name))
        return
    part = [k for k, v in e.items() if v != 'esc']
    names = {QUOTE: 'double quotes', BACK: 'backslashes', NL: 'line breaks'}
    rep.bad('escaped', key, f'{show_leaf(base)} is written inside a string literal of {fname(a)} with '
            f'{", ".join(names[x] for x in part)} unescaped', loc(p, view, a), dict(config=view.g.name))


# ============================================================================================ C08 composed identifiers
SAME_AS_COMPONENT = (r'self\.source\.components\[\*\]\.(at|rotate)_relative\[1\]\.name',
                     r'self\.source\.components\[last~?\]\.name', r'self\.source\.components\[[^\]]*\]\.name')


def ident_key(a):
    """the identifier with its holes, every way of naming a component of the instrument written the same"""
    k = parts_key(a.tok.parts)
    for s in SAME_AS_COMPONENT:
        k = re.sub(s, COMP + '.name', k)
    return k


def composed(a):
    ps = a.tok.parts
    return a.kind == 'ident' and len(ps) > 1 and any(isinstance(x, str) and re.search(r'\w', x) for x in ps) \
        and any(not isinstance(x, str) for x in ps)


TYPE_BEFORE = {'struct', 'long', 'int', 'double', 'char', 'void', 'static', '*', '_class_particle'}
AFTER_DECL = {';', '=', '(', '[', '{', ',', ')'}


def is_declaration(code, k, a):
    prev = code[k - 1] if k else None
    nxt = code[k + 1] if k + 1 < len(code) else None
    if nxt is None or prev is None or nxt.kind != 'punct' and not composed(nxt):
        return False
    pk = parts_key(prev.tok.parts)
    if pk == 'struct':
        return parts_key(nxt.tok.parts) == '{'
    typed = prev.kind == 'ident' and pk not in ('return', 'case', 'else', 'sizeof', 'goto')
    if a.func is not None and a.func['at'] is a:
        return True
    return typed and (parts_key(nxt.tok.parts) in AFTER_DECL)


def filters(a):
    return [(c, pol) for _, b in a.tok.loops for c, pol in base_filter(b)]


def whole(a):
    """loops of the occurrence as sets of element paths"""
    return [set(x) for x in loop_key(a.tok.loops)]


def owner_paths(key):
    """what the names in an identifier are names of"""
    out = set()
    for h in re.findall(r'«([^»]*)»', key):
        for x in h.split('|'):
            y = re.sub(r'\.(name|target)$', '', x)
            while True:
                out.add(y)
                z = re.sub(r'(\.\w+(\[\*\])?|\[\*\])$', '', y)
                if z == y or not z or z == 'self':
                    break
                y = z
    return out


def c08(p, rep):
    rep.rule('declared', 'every identifier composed with an instrument name is declared, at file level or in the same C '
             'function, before it is used, under no condition its use does not imply, for every thing it is used for')
    rep.rule('named', 'no identifier is a composed one without the name that it is composed with')
    rep.rule('member', 'every member of a parameter structure that the code names is declared in that structure')
    for view in views(p):
        rep.uses(*view.g.functions())
        code = view.code()
        occ = {}
        for k, a in enumerate(code):
            if composed(a):
                occ.setdefault(ident_key(a), []).append((a, is_declaration(code, k, a)))
        macros = {ident_key(m['at']) for m in view.macros if m['kind'] == 'define'}
        for key, l in occ.items():
            if key in macros:
                continue
            decls = [a for a, d in l if d]
            if not decls and all(a.tok.parts[0] == '' for a, _ in l):
                continue
            for a, d in l:
                if d:
                    continue
                where = fname(a)
                good = [x for x in decls if x.i < a.i and (x.func is None or x.func['at'] is x or x.func is a.func)]
                name = f'{key} in {where}'
                if not good:
                    rep.bad('declared', name, f'{key} is used in {where} but '
                            + ('declared only later or in another function' if decls else 'never declared'),
                            loc(p, view, a), dict(config=view.g.name))
                    continue
                if not any(covers(x, a, key) for x in good):
                    x = good[-1]
                    odd = [g for g in list(x.tok.guards) + filters(x) if not implied(g, a, key)]
                    rep.bad('declared', name, f'{key} is used in {where} where it need not have been declared (declared '
                            f'over {[sorted(q) for q in whole(x)]}'
                            + (' when ' + ' and '.join(short(c if pol else neg(c), 100) for c, pol in odd) if odd else '')
                            + ')', loc(p, view, a), dict(config=view.g.name))
                    continue
                rep.ok('declared', name)
        bare = {}
        for key in occ:
            b = re.sub('«[^»]*»', '', key)
            if len(b) > 2 and ('__' in b or b[0] == '_' or b[-1] == '_'):
                bare.setdefault(b, key)
        for a in view.at:
            if a.kind == 'ident' and not a.tok.holes and a.text in bare and a.text not in macros:
                rep.bad('named', f'{a.text} in {fname(a)}', f'{a.text} is used in {fname(a)}: it is {bare[a.text]} without its name',
                        loc(p, view, a), dict(config=view.g.name))
        rep.ok('named', f'{len(bare)} composed identifiers', len(bare))
        members(p, rep, view, code)
    rep.need('named', 20, 'composed identifiers')
    rep.need('declared', 150, 'uses of composed identifiers')
    rep.need('member', 40, 'structure members')


def implied(g, a, key):
    c, pol = g
    if isinstance(c, App) and c.fn == 'in_loop':
        return True
    mine = {(canon(repr(x)), q) for x, q in list(a.tok.guards) + filters(a)}
    parts = list(conjuncts(c, pol))
    have = set()
    for x, q in list(a.tok.guards) + filters(a):
        for y, r in conjuncts(x, q):
            have.add((canon(repr(y)), r))
    if all((canon(repr(x)), q) in have for x, q in parts):
        return True
    t = present(a, key)
    return holds(c, t) is pol


def present(a, key):
    """what is known to exist where the identifier is used"""
    t = set(owner_paths(key))
    for x, q in list(a.tok.guards) + filters(a):
        for y, r in conjuncts(x, q):
            if r:
                ls = leafset(y)
                if ls and all(z.startswith('self.') for z in ls):
                    t |= ls
                if isinstance(y, App) and y.fn in ('any', 'nonempty', 'bool'):
                    t |= leafset(y.args[0])
                if isinstance(y, App) and y.fn == 'isnot' or isinstance(y, App) and y.fn == 'not' \
                        and isinstance(y.args[0], App) and y.args[0].fn == 'is':
                    b = y if y.fn == 'isnot' else y.args[0]
                    t |= leafset(b.args[0])
            if not r and isinstance(y, App) and y.fn == 'is' and isinstance(y.args[1], Const) and y.args[1].v is None:
                t |= leafset(y.args[0])
    for x in whole(a):
        t |= x
        t |= {re.sub(r'\[\*\]$', '', y) for y in x}
    return t


def covers(d, a, key):
    for g in list(d.tok.guards) + filters(d):
        if not implied(g, a, key):
            return False
    if d.func is not None and d.func is a.func and d.func['at'] is not d:
        return True
    dl = whole(d)
    for ls in dl:
        for x in ls:
            if '[' in x.replace('[*]', ''):
                if not re.search(r'component_declared_parameters|component_uservars|groups', x):
                    return False
    return True


PARAMS_OK = {
    '_instrument_var': {'self.source.parameters[*].name'},
    'instrument': {'self.source.parameters[*].name'},
}


def struct_names(view, code, struct):
    """names declared in the body of `struct <struct> { ... }`"""
    out = {}
    for k, a in enumerate(code):
        if parts_key(a.tok.parts) == 'struct' and k + 2 < len(code) and parts_key(code[k + 1].tok.parts) == struct \
                and parts_key(code[k + 2].tok.parts) == '{':
            d = code[k + 2].depth
            j = k + 3
            while j < len(code) and not (parts_key(code[j].tok.parts) == '}' and code[j].depth == d):
                x = code[j]
                nxt = parts_key(code[j + 1].tok.parts) if j + 1 < len(code) else ''
                if x.kind == 'ident' and nxt in (';', '[', ','):
                    for h in x.tok.parts:
                        if not isinstance(h, str):
                            for y in leafset(h):
                                out.setdefault(re.sub(r'\.as_struct_member\(\)$', '.name', y), x)
                j += 1
            return out
    return None


def members(p, rep, view, code):
    comp_s = struct_names(view, code, f'_struct_«{TYPE}.name»_parameters')
    inst_s = struct_names(view, code, '_instrument_struct')
    if inst_s is None or not any('parameters' in x for x in inst_s):
        for k, a in enumerate(code):
            if parts_key(a.tok.parts) == 'struct' and k + 1 < len(code):
                s = struct_names(view, code, parts_key(code[k + 1].tok.parts))
                if s and any(x == 'self.source.parameters[*].name' for x in s):
                    inst_s = s
                    break
    if comp_s is None:
        rep.bad('member', 'component parameter structure', 'no structure is declared for component parameters')
        return
    comp_ok = set(comp_s)
    inst_ok = set(inst_s or ())
    seen = [(a, None) for a in code] + [(b, m) for m in view.macros for b in m['body']]
    seqs = [code] + [m['body'] for m in view.macros if m['kind'] == 'define']
    for seq in seqs:
        for k, a in enumerate(seq):
            if k < 2 or a.kind != 'ident' or not a.tok.holes:
                continue
            if parts_key(seq[k - 1].tok.parts) not in ('.', '->') or parts_key(seq[k - 2].tok.parts) != '_parameters':
                continue
            base = parts_key(seq[k - 4].tok.parts) if k >= 4 else ''
            ok = inst_ok if base in ('_instrument_var', 'instrument') else comp_ok
            first = next(x for x in a.tok.parts if x != '')
            for h in a.tok.holes:
                for t in phi_leaves(h, []):
                    for x in leafset(t):
                        if h is not first and not identifier(x):
                            continue  # like the [0] that follows the name of an array
                        y = norm_member(x)
                        name = f'{x} of {base} in {fname(a)}' if y not in ok else ''
                        if y in ok:
                            rep.ok('member', f'{base}._parameters.{x}')
                        else:
                            rep.bad('member', f'{x} as a member of the parameter structure', f'_parameters.{x} is used in '
                                    f'{fname(a)} but the structure has no such member', loc(p, view, a),
                                    dict(config=view.g.name, base=base))


def norm_member(x):
    """a parameter of an instance is a parameter of its type; a parameter looked up by a setting's name is that setting"""
    x = re.sub(r'^self\.source\.components\[\*\]\.type\.(setting|define)\[\*\]\[\*\]\.name$', TYPE + r'.setting[*].name', x)
    # OUTPUT parameters are variables of the DECLARE section
    x = re.sub(r'^self\.source\.components\[\*\]\.type\.output\[\*\]\.name$',
               'self.component_declared_parameters[' + TYPE + '.name][*].name', x)
    x = re.sub(r'^self\.source\.components\[\*\]\.parameters\[\*\]\.name$', TYPE + '.setting[*].name', x)
    return x
