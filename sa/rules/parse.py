"""C13: visitors and grammars agree.  C14: every clause reaches its own field.  C15: expressions are read as written"""
from __future__ import annotations
import ast
import re
from ..absint import (Interp, State, K, Term, App, MCall, Attr, Elem, Index, Item, Const, Str, Phi, Seq, Rep, Opt, Ref,
                      Splice, Sym, ClsV, HDict, HObj, walk, children)
from ..ctmpl import canon
from ..grammar import Grammar, contexts
from ..project import AnalysisBroken, Class

VALUES = {'Identifier', 'StringLiteral', 'IntegerLiteral', 'FloatingLiteral', 'UnparsedBlock'}
# keywords that are different spellings of one meaning, or only mark what the rest already says
SAME = [{'Double'}, {'String', 'Char', 'Star'}, {'Output', 'Private'}, {'Null'}, {'Relative'}, {'Copy', 'Myself'},
        {'Assign'}, {'Comma'}]
CTX_API = {'start', 'stop', 'getText', 'getChild', 'getChildCount', 'getChildren', 'children', 'getTokens', 'getToken',
           'getTypedRuleContext', 'getTypedRuleContexts', 'accept', 'parentCtx', 'getRuleIndex', 'parser',
           'getSourceInterval', 'exception', 'toStringTree', 'getPayload', 'invokingState'}
ITERATES = {'list', 'tuple', 'enumerate', 'len', 'zip', 'map', 'sorted', 'reversed', 'any', 'all', 'set', 'iter', 'next',
            'bool', 'filter', 'isinstance', 'str.join', 'join'}


class Visitor:
    """a project class that walks one of the parse trees"""

    def __init__(self, p, cls, lang):
        self.cls, self.lang = cls, lang
        self.methods = {}
        for c in reversed([c for c in p.mro(cls) if isinstance(c, Class)]):
            self.methods.update(c.methods)
        self.own = set(self.methods)


def visitors(p):
    out = []
    for c in p.all_classes():
        lang = None
        for k in [c] + [x for x in p.mro(c) if isinstance(x, Class)]:
            for b in k.base_names:
                m = re.fullmatch(r'(?:.*\.)?(\w+?)Visitor', b)
                if m and m.group(1) in ('McInstr', 'McComp', 'C'):
                    lang = m.group(1)
        if lang:
            out.append(Visitor(p, c, lang))
    # visitor functions shared through a table of (name, function)
    for m in p.modules.values():
        for call in m.tree.body:
            if isinstance(call, ast.Expr) and isinstance(call.value, ast.Call) and len(call.value.args) == 1 and \
                    isinstance(call.value.args[0], ast.Name):
                f = p.resolve_name(m, call.value.func.id) if isinstance(call.value.func, ast.Name) else None
                c = p.resolve_name(m, call.value.args[0].id)
                if f is None or not isinstance(c, Class) or not hasattr(f, 'node'):
                    continue
                table = None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Call)):
                        nm = n.iter.id if isinstance(n.iter, ast.Name) else getattr(getattr(n.iter.func, 'value', None), 'id', None)
                        if nm in f.module.assigns:
                            table = f.module.assigns[nm]
                if table is None:
                    continue
                pairs = {}
                if isinstance(table, ast.Dict):
                    pairs = {k.value: v for k, v in zip(table.keys, table.values) if isinstance(k, ast.Constant)}
                elif isinstance(table, (ast.Tuple, ast.List)):
                    for e in table.elts:
                        if isinstance(e, (ast.Tuple, ast.List)) and len(e.elts) == 2 and isinstance(e.elts[0], ast.Constant):
                            pairs[e.elts[0].value] = e.elts[1]
                for v in out:
                    if v.cls is c or c in p.mro(v.cls):
                        for name, node in pairs.items():
                            g = p.resolve_name(f.module, node.id) if isinstance(node, ast.Name) else None
                            # set on the class itself: wins over what it inherits, and over its own methods
                            if g is not None and (v.cls is c or name not in v.cls.methods):
                                v.methods[name] = g
                                v.shared = getattr(v, 'shared', set()) | {name}
    return out


def ctx_name(f):
    a = f.arg_names()
    return a[1] if len(a) > 1 else None


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def aliases(f, x):
    """names that hold the context inside one function"""
    out = {x}
    again = True
    while again:
        again = False
        for n in ast.walk(f.node):
            v, ts = None, []
            if isinstance(n, ast.Assign):
                v, ts = n.value, n.targets
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                v, ts = n.value, [n.target]
            if isinstance(v, ast.Name) and v.id in out:
                for t in ts:
                    if isinstance(t, ast.Name) and t.id not in out:
                        out.add(t.id)
                        again = True
    return out


def carriers(p, f, methods, x=None, seen=None):
    """(function, names that hold the context) of `f` and of every function of the project that gets its context"""
    seen = {} if seen is None else seen
    x = x or ctx_name(f)
    if x is None:
        return seen
    if id(f.node) in seen:
        if x in seen[id(f.node)][1]:
            return seen
        seen[id(f.node)][1].update(aliases(f, x))
    else:
        seen[id(f.node)] = (f, aliases(f, x))
    xs = seen[id(f.node)][1]
    me = f.arg_names()[0] if f.arg_names() else None
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        pos = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in xs]
        kws = [k.arg for k in n.keywords if k.arg and isinstance(k.value, ast.Name) and k.value.id in xs]
        if not pos and not kws:
            continue
        g, shift = None, 0
        fn = n.func
        if isinstance(fn, ast.Attribute):
            base = fn.value
            if isinstance(base, ast.Name) and base.id == me or isinstance(base, ast.Call) and \
                    isinstance(base.func, ast.Name) and base.func.id == 'super':
                g, shift = methods.get(fn.attr), 1
            elif isinstance(base, ast.Name):
                c = p.resolve_name(f.module, base.id)
                if isinstance(c, Class):
                    g = p.method(c, fn.attr)
        elif isinstance(fn, ast.Name):
            g = p.resolve_name(f.module, fn.id)
        if g is None or not hasattr(g, 'node') or isinstance(g, Class):
            continue
        if shift and g.is_static:
            shift = 0
        names = g.arg_names()
        for i in pos:
            if i + shift < len(names):
                carriers(p, g, methods, names[i + shift], seen)
        for k in kws:
            if k in names:
                carriers(p, g, methods, k, seen)
    return seen


def c13(p, rep):
    rep.rule('generated', 'the generated parsers have the productions of the grammar files')
    rep.rule('reached', 'every visit method belongs to a production of the grammar')
    rep.rule('accessor', 'a visitor asks a parse tree node only for children its production has, one or many')
    rep.rule('complete', 'every name, literal, block, sub-clause and modifier keyword of a production is used by its visitor')
    rep.rule('attribute', 'a visitor reads only attributes of itself that it sets')
    rep.rule('expression', 'every form of expression has a visit method in every visitor that reads expressions')
    gdir = p.src / 'grammar'
    pdir = p.src / p.package / 'grammar'
    G = {n: Grammar(gdir, n).finish() for n in ('McInstr', 'McComp')}
    C = {n: contexts(pdir / f'{n}Parser.py') for n in ('McInstr', 'McComp', 'C')}
    for n, g in G.items():
        for a in g.alternatives():
            c = C[n].get(a.name)
            if c is None:
                rep.bad('generated', f'{n}.{a.name}', f'the generated {n} parser has no {a.name}', str(pdir / f'{n}Parser.py'))
                continue
            acc = {e.name for e in a.els if e.kind != 'literal'}
            if acc != c.one | c.many:
                rep.bad('generated', f'{n}.{a.name}', f'{a.name} has {sorted(acc)} in the grammar and '
                        f'{sorted(c.one | c.many)} in the parser', str(pdir / f'{n}Parser.py'))
            else:
                rep.ok('generated', f'{n}.{a.name}')
    vs = visitors(p)
    if len(vs) < 4:
        raise AnalysisBroken('the visitors of the parse trees were not found')
    for v in vs:
        rep.uses(v.cls.module.name + ':' + v.cls.name)
        agree(p, rep, v, C[v.lang])
        attributes(p, rep, v)
        if v.lang in G:
            complete(p, rep, v, G[v.lang])
    rep.need('generated', 100, 'productions')
    rep.need('accessor', 150, 'uses of tree nodes')
    rep.need('complete', 100, 'elements of productions')
    rep.need('expression', 50, 'expression forms')


def where(f):
    return f'{f.module.path}:{f.node.lineno} ({f.cls.name + "." if f.cls else ""}{f.name})'


def agree(p, rep, v, ctxs):
    for name, f in v.methods.items():
        if not name.startswith('visit') or name in ('visitChildren', 'visitErrorNode', 'visitTerminal', 'visit'):
            continue
        cname = name[5:]
        tag = f'{v.cls.name}.{name}'
        if cname not in ctxs:
            called = any(isinstance(n, ast.Attribute) and n.attr == name for m in v.methods.values() for n in ast.walk(m.node))
            if not called:
                rep.bad('reached', tag, f'{name} is never called: the grammar has no {cname}', where(f))
            continue
        rep.ok('reached', tag)
        for g, xs in carriers(p, f, v.methods).values():
            check_uses(rep, g, xs, ctxs[cname], tag)


def check_uses(rep, f, xs, ctx, tag):
    par = parents(f.node)
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in xs):
            continue
        a = n.attr
        if a in CTX_API or a in ctx.attrs and a not in ctx.one | ctx.many:
            rep.ok('accessor', f'{tag} ctx.{a}')
            continue
        if a not in ctx.one | ctx.many:
            rep.bad('accessor', f'{tag} {a}', f'{f.name} asks for ctx.{a}, which {ctx.name} does not have (it has '
                    f'{", ".join(sorted(ctx.one | ctx.many))})', f'{f.module.path}:{n.lineno} ({tag})')
            continue
        call = par.get(id(n))
        if not (isinstance(call, ast.Call) and call.func is n):
            rep.bad('accessor', f'{tag} {a} uncalled', f'ctx.{a} is used without being called', f'{f.module.path}:{n.lineno} ({tag})')
            continue
        indexed = bool(call.args or call.keywords)
        if indexed and a in ctx.one:
            rep.bad('accessor', f'{tag} {a} index', f'{ctx.name} has only one {a}', f'{f.module.path}:{n.lineno} ({tag})')
            continue
        u = par.get(id(call))
        iterated = isinstance(u, (ast.For, ast.comprehension)) and u.iter is call or isinstance(u, ast.Starred) or \
            isinstance(u, ast.Subscript) or isinstance(u, ast.Call) and u is not call and call in u.args and \
            (getattr(u.func, 'id', None) or getattr(u.func, 'attr', None)) in ITERATES - {'isinstance', 'bool'}
        scalar = isinstance(u, ast.Call) and call in u.args and (getattr(u.func, 'id', None) in ('str', 'int', 'float', 'literal_string')
                                                                 or getattr(u.func, 'attr', None) == 'visit') or \
            isinstance(u, ast.FormattedValue) or isinstance(u, ast.Attribute)
        if not indexed and a in ctx.many and scalar:
            rep.bad('accessor', f'{tag} {a} many', f'ctx.{a}() of {ctx.name} is a list, used as one node',
                    f'{f.module.path}:{n.lineno} ({tag})')
        elif not indexed and a in ctx.one and iterated:
            rep.bad('accessor', f'{tag} {a} one', f'ctx.{a}() of {ctx.name} is one node, used as a list',
                    f'{f.module.path}:{n.lineno} ({tag})')
        else:
            rep.ok('accessor', f'{tag} ctx.{a}()')


def attributes(p, rep, v):
    """self.x is read only where some method of the class (or the generated visitor) provides x"""
    given = set(v.methods) | {'visit', 'visitChildren', 'visitTerminal', 'visitErrorNode', 'defaultResult',
                              'aggregateResult', 'shouldVisitNextChild', '__class__'}
    for c in [x for x in p.mro(v.cls) if isinstance(x, Class)]:
        given |= set(c.fields) | set(c.defaults)
        for f in c.methods.values():
            me = f.arg_names()[0] if f.arg_names() else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    given.add(n.attr)
    for name, f in v.methods.items():
        if f.is_static or not f.arg_names():
            continue
        me = f.arg_names()[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                if n.attr in given or n.attr.startswith('visit'):
                    rep.ok('attribute', f'{v.cls.name}.{name} {n.attr}')
                else:
                    rep.bad('attribute', f'{v.cls.name}.{name} {n.attr}', f'{name} reads {me}.{n.attr}, which {v.cls.name} '
                            'never sets', f'{f.module.path}:{n.lineno} ({v.cls.name}.{name})')


def consults(p, f, methods):
    """names of ctx accessors and labels used, and whether all children are visited"""
    used, everything = set(), False
    for g, xs in carriers(p, f, methods).values():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in xs:
                used.add(n.attr)
                if n.attr in ('getChildren', 'children', 'getChild'):
                    everything = True
            if isinstance(n, ast.Call):
                name = getattr(n.func, 'id', getattr(n.func, 'attr', ''))
                if name == 'visitChildren' and any(isinstance(a, ast.Name) and a.id in xs for a in n.args):
                    everything = True
                if name == 'getText' and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id in xs:
                    used.add('*text*')
                if name == 'getattr' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in xs and \
                        len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    used.add(n.args[1].value)
        if 'stop' in used and 'start' in used:
            used.add('*text*')
    return used, everything


def refuses(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(body) and isinstance(body[-1], ast.Raise) and not any(isinstance(n, ast.Return) for n in ast.walk(f.node))


def reachable(g, start):
    out, todo = [], [start]
    while todo:
        r = todo.pop()
        if r in out or r not in g.rules:
            continue
        out.append(r)
        for a in g.rules[r]:
            todo += [e.name for e in a.els if e.kind == 'rule']
    return out


def complete(p, rep, v, g):
    full = 'visitProg' in v.cls.methods and 'destination' in ''.join(v.cls.methods['__init__'].arg_names()) \
        if '__init__' in v.cls.methods and v.lang == 'McInstr' else v.lang == 'McComp'
    start = 'prog' if full else 'instrument_parameters'
    if not v.cls.methods.get('visitProg'):
        return
    for r in reachable(g, start):
        if r == 'assignment':
            continue
        for a in g.rules[r]:
            f = v.methods.get('visit' + a.name)
            if r == 'expr':
                if f is None:
                    rep.bad('expression', f'{v.cls.name}.{a.name}', f'{v.cls.name} has no visit{a.name}: the value of the '
                            'expression is lost', f'{v.cls.module.path} ({v.cls.name})')
                    continue
                rep.ok('expression', f'{v.cls.name}.{a.name}')
            if f is not None and refuses(f):
                rep.ok('complete', f'{v.cls.name} refuses {a.name}')
                continue
            used, everything = (set(), True) if f is None else consults(p, f, v.methods)
            loc = where(f) if f is not None else f'{v.cls.module.path} ({v.cls.name})'
            if '*text*' in used:
                continue
            choices = {}
            names = set()
            for e in a.els:
                names.add(e.name)
            for e in a.els:
                if e.kind == 'literal':
                    continue
                if e.kind == 'rule':
                    if e.name in used or everything:
                        rep.ok('complete', f'{v.cls.name} {a.name} {e.name}')
                    else:
                        rep.bad('complete', f'{v.cls.name} {a.name} {e.name}', f'visit{a.name} ignores {e.name}', loc)
                elif e.name in VALUES:
                    if e.name in used or e.label and e.label in used:
                        rep.ok('complete', f'{v.cls.name} {a.name} {e.name}')
                    else:
                        rep.bad('complete', f'{v.cls.name} {a.name} {e.name}', (f'visit{a.name} ignores' if f is not None else
                                f'{v.cls.name} has no visit{a.name}, which drops') + f' the {e.name}', loc)
                elif e.choice:
                    choices.setdefault(e.choice[-1][0], {}).setdefault(e.choice[-1][1], set()).add(e.name)
                elif e.optional and not any(e.name in s for s in SAME) and getattr(e, 'literal', None) is None:
                    if e.name in used:
                        rep.ok('complete', f'{v.cls.name} {a.name} {e.name}')
                    else:
                        rep.bad('complete', f'{v.cls.name} {a.name} {e.name}', f'visit{a.name} ignores {e.name}', loc)
            if f is None:
                continue
            # one of several keywords: all but one have to be told apart
            for cid, branches in choices.items():
                kinds = []
                for e in a.els:
                    for c, b in e.choice:
                        if c == cid:
                            while len(kinds) <= b:
                                kinds.append(set())
                            kinds[b].add(e.name)
                # NULL and 0 both mean no value
                kinds = [k for k in kinds if k]
                none = [k for k in kinds if k <= {'Null', "'0'"}]
                kinds = [k for k in kinds if k not in none] + ([set.union(*none)] if none else [])
                told = sum(1 for k in kinds if k & used)
                same = any(all(k & s or k <= {'Plus'} for k in kinds) for s in SAME)
                if told >= len(kinds) - 1 or same or everything:
                    rep.ok('complete', f'{v.cls.name} {a.name} choice')
                else:
                    rep.bad('complete', f'{v.cls.name} {a.name} choice {sorted(map(sorted, kinds))}',
                            f'visit{a.name} does not tell {" / ".join(sorted("+".join(sorted(k)) for k in kinds))} apart', loc)
