"""C07: the generated program does not depend on anything arbitrary"""
from __future__ import annotations
import ast
from ..project import Func
from ..absint import App, MCall, walk
from ..order import Order, Body, RAND_CALLS
from ..cview import views
from ..cquery import parts_key
from ..ctok import short
from .gen_rules import loc, fname

SCOPE = ('common', 'comp', 'instr', 'reader', 'assembler', 'translators', 'compiler', 'loader', 'config', 'run', 'io')


def c07(p, rep):
    rep.rule('order', 'the iteration order of a set (or of anything made from one) never decides the order of output: no '
             'loop, join, indexing, formatting or unpacking of it; only membership, size, sorting and set algebra')
    rep.rule('single-match', 'an element of a directory listing is only picked when the listing was shown to have '
             'exactly one')
    rep.rule('random', 'no identity, hash, random number, process id or clock value is computed where programs are read, '
             'assembled or generated (hash only to define hashing, the clock only for the date comment)')
    rep.rule('template', 'no text of the generated program outside comments depends on such a value or on set order')
    o = Order(p)
    for f in o.all:
        rep.uses(f.qualname)
    rep.ok('order', n=o.examined)
    bad = {}
    for s in o.sinks.values():
        rule = 'single-match' if s.kind == 'dirs' else 'order'
        rep.bad(rule, f'{s.func.qualname} {s.what}', f'{s.func.qualname}: {s.what}, whose order is arbitrary',
                f'{s.func.module.path}:{s.node.lineno}')
    n = 0
    for f in o.all:
        b = Body(o, f)
        own = [x for g in ast.walk(f.node) if isinstance(g, (ast.FunctionDef,)) and g is not f.node for x in ast.walk(g)]
        own = set(map(id, own))
        for e in ast.walk(f.node):
            if not isinstance(e, ast.Call) or id(e) in own:
                continue
            n += 1
            name, _ = o.callee(e)
            if not b.random(e, name, isinstance(e.func, ast.Attribute)):
                continue
            parts = f.module.name.split('.')
            if len(parts) < 2 or parts[1] not in SCOPE or name == 'mkdtemp':
                continue
            if name in ('hash', 'id') and f.name == '__hash__':
                rep.ok('random', f'{f.qualname} defines hashing')
                continue
            if f.cls is not None and f.cls.name == 'HTMLWrapper' and name == 'uuid4':
                rep.ok('random', f'{f.qualname} names an HTML element')
                continue
            if name in ('now', 'utcnow', 'today'):
                if parts[1] == 'translators' and 'template' in rep.rules:
                    rep.ok('random', f'{f.qualname}: clock, followed through the template')
                    continue
                if parts[1] in ('config', 'run'):
                    rep.ok('random', f'{f.qualname}: clock for a directory name or configuration date')
                    continue
            rep.bad('random', f'{f.qualname} {ast.unparse(e.func)}', f'{f.qualname} computes {ast.unparse(e)}, which '
                    'differs from run to run', f'{f.module.path}:{e.lineno}')
    rep.ok('random', n=n)
    dirs = sum(1 for f in o.all for e in ast.walk(f.node) if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)
               and e.func.attr in ('glob', 'rglob', 'iterdir'))
    rep.ok('single-match', f'{dirs} directory listings', dirs)
    for view in views(p):
        rep.uses(*view.g.functions())
        for a in view.at:
            rep.counts['template'] += 1
            if a.kind == 'comhole':
                continue
            for x in [b for _, b in a.tok.loops] + [c for c, _ in a.tok.guards] + list(a.tok.holes):
                for y in walk(x):
                    nm = y.fn.split('.')[-1] if isinstance(y, App) else y.name if isinstance(y, MCall) else ''
                    if nm == 'unordered' or nm in RAND_CALLS:
                        rep.bad('template', f'{nm} for {parts_key(a.tok.parts)[:60]} in {fname(a)}',
                                f'{parts_key(a.tok.parts)[:80]} in {fname(a)} depends on {short(y, 120)}', loc(p, view, a))
    rep.need('order', 20000, 'expressions')
    rep.need('template', 5000, 'template pieces')
