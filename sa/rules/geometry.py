"""C23: positions and orientations are put together as rigid transformations in the convention of McCode"""
from __future__ import annotations
import ast
import math
from dataclasses import replace
from itertools import product as every
from ..algebra import (KNOWN, FIELDS, EYE, NOWHERE, Obj, Poly, atom, function, seitz, turned, isinstance_of)
from ..reread import Given, Thing
from ..spec import Method
from .registries import Cases, applied
from .running import evaluated

RULES = (
    ('product', 'the products, sums and differences of vectors, matrices, rotations and Seitz matrices'),
    ('inverse', 'inverses, and the rotation and vector that a Seitz matrix is made of'),
    ('angle', 'sines and cosines of angles in degrees and in radian, and the rotation for three angles'),
    ('part', 'the matrices of single rotations and translations, and of their inverses'),
    ('chain', 'the product that a chain of parts stands for'),
    ('orient', 'the position and rotation relative to others'),
    ('instance', 'the orientation of an instance'),
)
PLAIN = dict(opaque=('Expr',), steps=())
VALUES = dict(opaque=('Expr',), steps=('cos_value', 'sin_value'))
E = ('Expr',)


class PartOf(Thing):
    """one of the parts of a chain"""

    def __init__(self, cls, **fields):
        super().__init__(**fields)
        self.cls, self.kinds = cls, {cls, 'Part'} | ({'RotationPart'} if cls.startswith('Rotation') else set())

    def __mul__(self, other):
        return PartOf('Part', _axes=self.fields['_axes'] * other.fields['_axes'])

    def __repr__(self):
        return f'{self.cls}({self.fields})'


class Chain(Thing):
    kinds = {'Parts'}

    def __init__(self, _stack=()):
        super().__init__(_stack=list(_stack))

    def __eq__(self, other):
        return isinstance(other, Chain) and self.fields['_stack'] == other.fields['_stack']

    __hash__ = None

    def __repr__(self):
        return f'Parts{self.fields["_stack"]}'


class Word:
    """one of the parts of a chain, or a product of them"""
    kinds = {'Part'}

    def __init__(self, text, constant=True, identity=False):
        self.text, self.constant, self.identity = text, constant, identity

    @property
    def fields(self):
        return dict(is_constant=self.constant, is_identity=self.identity)

    def __mul__(self, other):
        return Word(self.text + other.text, self.constant and other.constant, self.identity and other.identity)

    def __eq__(self, other):
        return isinstance(other, Word) and self.text == other.text

    def __repr__(self):
        return self.text


class WordThing(Word, Thing):
    def __init__(self, *args, **kw):
        Word.__init__(self, *args, **kw)

    def __mul__(self, other):
        w = Word.__mul__(self, other)
        return WordThing(w.text, w.constant, w.identity)

    __hash__ = None


def words(text):
    return [WordThing(x) for x in text]


PARTS = {**{f'new:{c}': Given(lambda c=c, **k: PartOf(c, **k)) for c in ('Part', 'TranslationPart', 'RotationX', 'RotationY', 'RotationZ')},
         'new:Parts': Given(lambda **k: Chain(k['_stack'])), 'isinstance': Given(isinstance_of), 'reversed': Given(lambda x: list(x)[::-1])}


def c23(p, rep):
    F = Geometry(p, rep)
    for r, text in RULES:
        rep.rule(r, text)
    products(F)
    inverses(F)
    angles(F)
    parts(F)
    chains(F)
    reduced(F)
    orients(F)
    instances(F)
    for r, n in (('product', 20), ('inverse', 8), ('angle', 60), ('part', 20), ('chain', 60), ('orient', 15), ('instance', 8)):
        rep.need(r, n, 'cases')


class Geometry(Cases):
    def gives(self, rule, construct, m, t, known, right, what=''):
        """the term t is worth `right` when the names have these values"""
        got = evaluated(m, t, {**KNOWN, **PARTS, '()': lambda f, *x: applied(m, f, *x), **known})
        good = right(got) if callable(right) else same(got, right)
        self.check(rule, construct, good, f'{what or construct} gives {got!r:.200}' + ('' if callable(right) else f' instead of {right!r:.200}'), m)
        return got


def same(got, right):
    if isinstance(right, (list, tuple)) and isinstance(got, (list, tuple)):
        return len(got) == len(right) and all(same(a, b) for a, b in zip(got, right))
    if isinstance(right, (Poly, Obj, Word, Chain)):
        return type(got) in (type(right), int, float) and right == got
    return type(got) is type(right) and got == right


def products(F):
    a = {k: Obj.named(k, 'a') for k in FIELDS}
    b = {k: Obj.named(k, 'b') for k in FIELDS}
    b['Expr'] = atom('b')
    cases = [('Matrix', '__mul__', 'Matrix'), ('Matrix', '__mul__', 'Vector'), ('Matrix', '__mul__', 'Expr'), ('Matrix', '__add__', 'Matrix'),
             ('Matrix', '__sub__', 'Matrix'), ('Vector', '__mul__', 'Expr'), ('Vector', '__mul__', 'Matrix'), ('Vector', '__mul__', 'Rotation'),
             ('Vector', '__truediv__', 'Expr'), ('Vector', '__add__', 'Vector'), ('Vector', '__sub__', 'Vector'), ('Angles', '__mul__', 'Expr'),
             ('Angles', '__add__', 'Angles'), ('Angles', '__sub__', 'Angles'), ('Rotation', '__mul__', 'Vector'),
             ('Rotation', '__mul__', 'Rotation'), ('Rotation', '__sub__', 'Rotation'), ('Seitz', '__mul__', 'Seitz')]
    ops = {'__mul__': lambda x, y: x * y, '__add__': lambda x, y: x + y, '__sub__': lambda x, y: x - y, '__truediv__': lambda x, y: x / y}
    for cls, op, other in cases:
        m = F.method(cls, op, 'other', **PLAIN)
        F.gives('product', f'{cls}.{op} with {other}', m, m.raw, {'self': a[cls], 'other': b[other]}, ops[op](a[cls], b[other]))
    m = F.method('Matrix', '__abs__', **PLAIN)
    F.gives('product', 'Matrix.__abs__', m, m.raw, {'self': a['Matrix']}, Obj('Matrix', [abs(x) for x in a['Matrix']]))
    m = F.method('Matrix', '__round__', 'n', **PLAIN)
    F.gives('product', 'Matrix.__round__', m, m.raw, {'self': a['Matrix'], 'n': 5, 'round': Given(lambda x, n: atom(f'round({x}, {n})'))},
            Obj('Matrix', [atom(f'round({x}, 5)') for x in a['Matrix']]))
    m = F.method('Matrix', 'eye', **PLAIN)
    F.gives('product', 'Matrix.eye', m, m.raw, {}, Obj('Matrix', [1, 0, 0, 0, 1, 0, 0, 0, 1]))
    m = F.method('Vector', 'cross_matrix', **PLAIN)
    v, w = Obj.named('Vector', 'v'), Obj.named('Vector', 'w')
    x, y, z = v
    F.gives('product', 'Vector.cross_matrix', m, m.raw, {'self': v}, Obj('Matrix', [0, -z, y, z, 0, -x, -y, x, 0]))
    m = F.method('Vector', 'length', opaque=E, steps=('unary_expr',))
    for zero in every((False, True), repeat=3):
        u = Obj('Vector', [0 if o else atom(f'v.{n}') for n, o in zip('xyz', zero)])
        left = [t for t in u if t.terms]
        want = Poly() if not left else abs(left[0]) if len(left) == 1 else function('sqrt', sum((t * t for t in left), Poly()))
        F.gives('product', f'Vector.length with zeros {zero}', m, m.raw, {'self': u}, lambda g, want=want, left=left: same(g, want) or
                len(left) == 1 and same(g, function('sqrt', left[0] * left[0])))
    for cls in ('Vector', 'Angles'):
        m = F.method(cls, 'is_null', **PLAIN)
        for zero in every((False, True), repeat=3):
            u = Obj(cls, [0 if o else atom(f'v.{n}') for n, o in zip('xyz', zero)])
            F.gives('product', f'{cls}.is_null with zeros {zero}', m, m.raw, {'self': u}, all(zero))


def inverses(F):
    r, v, s = Obj.named('Rotation', 'r'), Obj.named('Vector', 'v'), Obj.named('Seitz', 's')
    rot = Obj('Rotation', [x for row in s.rows() for x in row])
    vec = Obj('Vector', s.column())
    for name in ('transpose', 'inverse'):
        m = F.method('Rotation', name, **PLAIN)
        F.gives('inverse', f'Rotation.{name}', m, m.raw, {'self': r}, r.transposed())
    m = F.method('Seitz', 'inverse', **PLAIN)
    F.gives('inverse', 'Seitz.inverse', m, m.raw, {'self': s}, s.inverted())
    m = F.method('Seitz', 'rotation', **PLAIN)
    F.gives('inverse', 'Seitz.rotation', m, m.raw, {'self': s}, rot)
    m = F.method('Seitz', 'vector', **PLAIN)
    F.gives('inverse', 'Seitz.vector', m, m.raw, {'self': s}, vec)
    m = F.method('Seitz', 'trace', **PLAIN)
    F.gives('inverse', 'Seitz.trace', m, m.raw, {'self': s}, s[0] + s[5] + s[10])
    m = F.method('Seitz', 'from_rotation', 'rotation', **PLAIN)
    F.gives('inverse', 'Seitz.from_rotation', m, m.raw, {'rotation': r}, seitz(r, NOWHERE))
    m = F.method('Seitz', 'from_vector', 'vector', **PLAIN)
    F.gives('inverse', 'Seitz.from_vector', m, m.raw, {'vector': v}, seitz(EYE, v))
    for cls in FIELDS:
        if cls == 'Matrix':
            continue
        m = F.method(cls, '__contains__', 'value', **PLAIN)
        for f in FIELDS[cls] + [None]:
            # an expression that holds a name stands here for a list with the name
            o = Held([[f'name'] if g == f else ['other'] for g in FIELDS[cls]], cls)
            F.gives('inverse', f'{cls}.__contains__ with the name in {f}', m, m.raw, {'self': o, 'value': 'name'}, f is not None)


class Held(Thing):
    def __init__(self, items, cls):
        super().__init__(**dict(zip(FIELDS[cls], items)))

    def __iter__(self):
        return iter(self.fields.values())

    def __getitem__(self, i):
        return list(self.fields.values())[i]

    def __contains__(self, x):
        return any(x in y for y in self)


HAS = {'__contains__': Given(lambda x, y: y in x)}


def unit(degrees):
    return math.pi / 180 if degrees else 1


def angles(F):
    for name in ('cos', 'sin'):
        fn = getattr(math, name)
        m = F.function(f'{name}_value', 'v', 'degrees', opaque=E, steps=('unary_expr',))
        for degrees in (True, False):
            for d in (0, 30, 45, 60, 90, 120, 180, 270, 360, 1, 2, 1.5, 3, 100):
                for sign in (1, -1):
                    x = sign * d if degrees else sign * d * math.pi / 180
                    F.gives('angle', f'{name}_value at {sign * d} degrees, in {"degrees" if degrees else "radian"}', m, m.raw,
                            {'v': Poly.of(x), 'degrees': degrees}, Poly.of(fn(x * unit(degrees))))
            for x in (1, 90, 180, -90, math.pi / 2, -math.pi / 2, math.pi, -math.pi):
                F.gives('angle', f'{name}_value of {x:.6g} {"degrees" if degrees else "radian"}', m, m.raw,
                        {'v': Poly.of(x), 'degrees': degrees}, Poly.of(fn(x * unit(degrees))))
            F.gives('angle', f'{name}_value of a variable in {"degrees" if degrees else "radian"}', m, m.raw,
                    {'v': atom('v'), 'degrees': degrees}, function(name, atom('v') * unit(degrees)))
        m = F.function(f'{name}_value', 'v', opaque=E, steps=('unary_expr',))
        F.gives('angle', f'{name}_value without a unit', m, m.raw, {'v': atom('v')}, function(name, atom('v') * unit(True)))
        m = F.function(f'{name}_degree', 'theta', opaque=E, steps=())
        F.gives('angle', f'{name}_degree', m, m.raw, {'theta': atom('t')}, function(name, atom('t') * unit(True)))
    m = F.function('acos_degree', 'v', opaque=E, steps=())
    F.gives('angle', 'acos_degree', m, m.raw, {'v': atom('t')}, function('acos', atom('t')) * (180 / math.pi))
    m = F.function('atan2_degree', 'y', 'x', opaque=E, steps=())
    F.gives('angle', 'atan2_degree', m, m.raw, {'y': atom('y'), 'x': atom('x')}, atom('atan2(1·y, 1·x)') * (180 / math.pi))
    m = F.function('acos_value', 'v', 'degrees', opaque=E, steps=('unary_expr',))
    for degrees in (True, False):
        for x in (1, 0, -1, 0.5, -0.5, 0.3):
            F.gives('angle', f'acos_value({x}, {degrees})', m, m.raw, {'v': Poly.of(x), 'degrees': degrees}, Poly.of(math.acos(x) / unit(degrees)))
    m = F.function('atan2_value', 'va', 'vb', 'degrees', opaque=E, steps=('binary_expr',))
    for degrees in (True, False):
        for y, x in every((-2, -1, 0, 1, 3), repeat=2):
            if (x, y) != (0, 0):
                F.gives('angle', f'atan2_value({y}, {x}, {degrees})', m, m.raw, {'va': Poly.of(y), 'vb': Poly.of(x), 'degrees': degrees},
                        [Poly.of(math.atan2(y, x) / unit(degrees))])
        F.gives('angle', f'atan2_value of variables, {degrees}', m, m.raw, {'va': atom('y'), 'vb': atom('x'), 'degrees': degrees},
                [atom(f'atan2{"_degree" if degrees else ""}(1·y, 1·x)')])
    m = F.function('degree_to_radian', 'v', opaque=E, steps=())
    for v in (Poly.of(30), Poly.of(-180), atom('a'), atom('a') * atom('b')):
        F.gives('angle', f'degree_to_radian({v})', m, m.raw, {'v': v}, v * unit(True))

    m = F.method('Rotation', 'from_angles', 'angles', 'degrees', opaque=E, steps=('unary_expr', 'cos_value', 'sin_value'))
    n = F.function('_rotation_angles_to_axes_coordinates', 'rotated', 'degrees', opaque=E, steps=('cos_value', 'sin_value'))
    for degrees in (True, False):
        for zero in every((False, True), repeat=3):
            a = Obj('Angles', [0 if o else atom(f'angles.{x}') for x, o in zip('xyz', zero)])
            text = f'angles in {"degrees" if degrees else "radian"} with zeros {zero}'
            F.gives('angle', f'Rotation.from_angles of {text}', m, m.raw, {'angles': a, 'degrees': degrees}, rotation(a, degrees))
            back = rotation([-x for x in a], degrees)
            F.gives('angle', f'_rotation_angles_to_axes_coordinates of {text}', n, n.raw, {'rotated': a, 'degrees': degrees, **PARTS},
                    lambda g, a=a, back=back: isinstance(g, (list, tuple)) and len(g) == 2 and same(list(g[0]), list(rotation(a, degrees))) and
                    same(list(g[1]), list(back)))
    m = F.method('Rotation', 'from_angles', 'angles', opaque=E, steps=('unary_expr', 'cos_value', 'sin_value'))
    a = Obj.named('Angles', 'angles')
    F.gives('angle', 'Rotation.from_angles without a unit', m, m.raw, {'angles': a}, rotation(a, True))
    m = F.function('axes_euler_angles', 'm', 'degrees', opaque=E, steps=('binary_expr', 'unary_expr'))
    for degrees in (True, False):
        for a in every((-120, -30, 0, 20), (-40, 0, 35), (-100, 0, 70)):
            a = [x if degrees else x * math.pi / 180 for x in a]
            F.gives('angle', f'axes_euler_angles of the rotation by {[round(x, 3) for x in a]}', m, m.raw,
                    {'m': rotation([Poly.of(x) for x in a], degrees), 'degrees': degrees}, Obj('Angles', a))


def rotation(a, degrees):
    """around x, then the new y, then the new z"""
    return turned('z', a[2], degrees) * (turned('y', a[1], degrees) * turned('x', a[0], degrees))


def parts(F):
    v = atom('self.v')
    for axis in 'xyz':
        cls = f'Rotation{axis.upper()}'
        for degrees in (True, False):
            text = f'{cls} in {"degrees" if degrees else "radian"}'
            known = {'self.v': v, 'self.degrees': degrees}
            m = F.method(cls, '__post_init__', **VALUES)
            F.gives('part', text, m, m.field('_axes'), known, seitz(turned(axis, v, degrees), NOWHERE))
            m = F.method(cls, 'inverse', **VALUES)
            want = seitz(turned(axis, v, degrees).transposed(), NOWHERE)
            F.gives('part', f'{text}, inverse', m, m.raw, known, lambda g: isinstance(g, PartOf) and g.fields['_axes'] == want and
                    g.cls in (cls, 'Part') and (g.cls == 'Part' or g.fields['v'] == -v and g.fields['degrees'] is degrees))
        m = F.method(cls, 'rotation_axis', **PLAIN)
        F.gives('part', f'{cls}.rotation_axis', m, m.raw, {}, Obj('Vector', [float(x == axis) for x in 'xyz']))
        m = F.method(cls, 'angles', 'which', **PLAIN)
        F.gives('part', f'{cls}.angles', m, m.raw, {'self.v': v}, Obj('Angles', [v if x == axis else 0 for x in 'xyz']))
    t = Obj.named('Vector', 'self.v')
    known = {'self.v': t}
    m = F.method('TranslationPart', '__post_init__', **PLAIN)
    F.gives('part', 'TranslationPart', m, m.field('_axes'), known, seitz(EYE, t))
    m = F.method('TranslationPart', 'inverse', **PLAIN)
    F.gives('part', 'TranslationPart.inverse', m, m.raw, known, lambda g: isinstance(g, PartOf) and g.fields['_axes'] == seitz(EYE, [-x for x in t]) and
            (g.cls == 'Part' or g.cls == 'TranslationPart' and g.fields['v'] == Obj('Vector', [-x for x in t])))
    m = F.method('TranslationPart', 'position', 'which', **PLAIN)
    F.gives('part', 'TranslationPart.position', m, m.raw, {**known, 'which': None}, t)
    m = F.method('RotationPart', 'position', 'which', **PLAIN)
    F.gives('part', 'RotationPart.position', m, m.raw, {'which': None}, NOWHERE)
    s = Obj.named('Seitz', 'self._axes')
    r, q = Obj('Rotation', [x for row in s.rows() for x in row]), Obj('Vector', s.column())
    back = s.inverted()
    m = F.method('Part', 'inverse', **PLAIN)
    F.gives('part', 'Part.inverse', m, m.raw, {'self._axes': s}, lambda g: isinstance(g, PartOf) and g.cls == 'Part' and g.fields['_axes'] == back)
    m = F.method('Part', '__mul__', 'other', **PLAIN)
    o = Obj.named('Seitz', 'other._axes')
    F.gives('part', 'Part.__mul__', m, m.raw, {'self': PartOf('Part', _axes=s), 'other': PartOf('Part', _axes=o, axes=o)},
            lambda g: isinstance(g, PartOf) and g.cls == 'Part' and g.fields['_axes'] == s * o)
    for name, axes, other in (('seitz', s, back), ('position', q, Obj('Vector', back.column())),
                              ('rotation', r, Obj('Rotation', [x for row in back.rows() for x in row]))):
        m = F.method('Part', name, 'which', **PLAIN)
        for which in (None, 'axes', 'coordinates'):
            F.gives('part', f'Part.{name}({which})', m, m.raw, {'self._axes': s, 'which': which}, other if which == 'coordinates' else axes)
    m = F.method('Part', 'axes', **PLAIN)
    F.gives('part', 'Part.axes', m, m.raw, {'self._axes': s}, s)
    m = F.method('Part', 'coordinates', **PLAIN)
    F.gives('part', 'Part.coordinates', m, m.raw, {'self._axes': s}, back)
    m = F.method('Part', 'is_identity', **PLAIN)
    n = F.method('Part', 'is_translation', **PLAIN)
    for rot in (EYE, turned('x', 90, True), turned('z', 10, True), turned('y', 180, True)):
        for at in ([0, 0, 0], [1, 0, 0], [0, 2, 0], [0, 0, -3]):
            x = seitz(rot, [Poly.of(i) for i in at])
            F.gives('part', f'Part.is_identity of {rot} at {at}', m, m.raw, {'self': PartOf('Part', _axes=x), 'self._axes': x, 'is_translation': any(at),
                    'self.is_translation': any(at)}, at == [0, 0, 0] and rot is EYE)
            F.gives('part', f'Part.is_translation of {rot} at {at}', n, n.raw, {'self': PartOf('Part', _axes=x), 'self._axes': x}, any(at))
    m = F.method('RotationPart', 'is_translation', **PLAIN)
    F.gives('part', 'RotationPart.is_translation', m, m.raw, {}, False)
    m = F.method('TranslationPart', 'is_rotation', **PLAIN)
    F.gives('part', 'TranslationPart.is_rotation', m, m.raw, {}, False)
    m = F.method('TranslationPart', 'is_translation', **PLAIN)
    F.gives('part', 'TranslationPart.is_translation', m, m.raw, {'self.v': Obj('Vector', [1, 2, 3]), 'self._axes': seitz(EYE, [Poly.of(i) for i in (1, 2, 3)])}, True)
    m, n, k = F.method('Part', '__contains__', 'value', **PLAIN), F.method('TranslationPart', '__contains__', 'value', **PLAIN), \
        F.method('RotationPart', '__contains__', 'value', **PLAIN)
    for f in FIELDS['Seitz'] + [None]:
        o = Held([['name'] if g == f else ['other'] for g in FIELDS['Seitz']], 'Seitz')
        F.gives('part', f'Part.__contains__ with the name in {f}', m, m.raw, {'self._axes': o, 'value': 'name', **HAS}, f is not None)
    for f in ('x', 'y', 'z', None):
        o = Held([['name'] if g == f else ['other'] for g in 'xyz'], 'Vector')
        F.gives('part', f'TranslationPart.__contains__ with the name in {f}', n, n.raw, {'self.v': o, 'value': 'name', **HAS}, f is not None)
    for f in ('name', 'other'):
        F.gives('part', f'RotationPart.__contains__ of an angle with the name {f}', k, k.raw, {'self.v': [f], 'value': 'name', **HAS}, f == 'name')
    m = F.method('RotationPart', 'is_constant', **PLAIN)
    for x in (Poly.of(3), v):
        F.gives('part', f'RotationPart.is_constant of {x}', m, m.raw, {'self.v': x}, x is not v)
    m, n = F.method('TranslationPart', 'is_constant', **PLAIN), F.method('Part', 'is_constant', **PLAIN)
    for i in range(4):
        x = Obj('Vector', [atom('v') if j == i else 1 for j in range(3)])
        F.gives('part', f'TranslationPart.is_constant of {x}', m, m.raw, {'self.v': x}, i == 3)
        x = seitz(EYE, x)
        F.gives('part', f'Part.is_constant of {x}', n, n.raw, {'self._axes': x}, i == 3)


def total(chain):
    """the product of the parts of a chain: what is done later is to the left"""
    out = seitz(EYE, NOWHERE)
    for x in chain.fields['_stack']:
        out = x.fields['_axes'] * out
    return out


def chains(F):
    m = F.method('Parts', 'from_at_rotated', 'at', 'rotated', 'degrees', **VALUES)
    for zero in every((False, True), repeat=4):
        for degrees in (True, False):
            a = Obj('Angles', [0 if o else atom(f'rotated.{x}') for x, o in zip('xyz', zero)])
            t = NOWHERE if zero[3] else Obj.named('Vector', 'at')
            want = seitz(EYE, t) * seitz(rotation(a, degrees), NOWHERE)
            F.gives('chain', f'Parts.from_at_rotated with zeros {zero} in {"degrees" if degrees else "radian"}', m, m.raw,
                    {'at': t, 'rotated': a, 'degrees': degrees}, lambda g: isinstance(g, Chain) and total(g) == want and
                    all(x.fields.get('degrees', degrees) is degrees for x in g.fields['_stack']), 'the product of the chain')
    m = F.method('Parts', 'from_at_rotated', 'at', 'rotated', **VALUES)
    a = Obj.named('Angles', 'rotated')
    F.gives('chain', 'Parts.from_at_rotated without a unit', m, m.raw, {'at': NOWHERE, 'rotated': a}, lambda g: isinstance(g, Chain) and
            total(g) == seitz(rotation(a, True), NOWHERE) and all(x.fields.get('degrees', True) is True for x in g.fields['_stack']))
    for i, n in enumerate('xyz'):
        t = Obj('Vector', [atom(f'at.{n}') if j == i else 0 for j in range(3)])
        F.gives('chain', f'Parts.from_at_rotated with a position of {n} alone', m, m.raw,
                {'at': t, 'rotated': Obj('Angles', [0, 0, 0])}, lambda g: isinstance(g, Chain) and total(g) == seitz(EYE, t))
    inverse = Given(lambda x: WordThing({'a': 'A', 'b': 'B', 'c': 'C', 'd': 'D', 'e': 'E'}[x.text]))
    common = {'inverse': inverse, 'stack': Given(lambda x: x.fields['_stack'])}
    m = F.method('Parts', 'inverse', **PLAIN)
    for n in range(4):
        F.gives('chain', f'Parts.inverse of {n}', m, m.raw, {**common, 'self._stack': words('abc'[:n])}, Chain(words('CBA'[3 - n:])))
    m, k = F.method('Parts', '__add__', 'other', **PLAIN), F.method('Parts', '__sub__', 'other', **PLAIN)
    for n, o in every(range(3), range(3)):
        mine, other = 'abc'[:n], 'de'[:o]
        known = {**common, 'self._stack': words(mine), 'other': Chain(words(other)), 'other._stack': words(other)}
        F.gives('chain', f'Parts.__add__ of {n} and {o}', m, m.raw, known, Chain(words(mine + other)))
        F.gives('chain', f'Parts.__sub__ of {n} and {o}', k, k.raw, known, Chain(words(mine + other[::-1].upper())))
    for n in range(3):
        known = {**common, 'self._stack': words('abc'[:n]), 'other': WordThing('d')}
        F.gives('chain', f'Parts.__add__ of {n} and a part', m, m.raw, known, Chain(words('abc'[:n] + 'd')))
        F.gives('chain', f'Parts.__sub__ of {n} and a part', k, k.raw, known, Chain(words('abc'[:n] + 'D')))
    m = F.method('Parts', 'resolve', **PLAIN)
    for n in range(1, 5):
        F.gives('chain', f'Parts.resolve of {n}', m, m.raw, {'self._stack': words('abcd'[:n])}, WordThing('abcd'[:n][::-1]))
    F.gives('chain', 'Parts.resolve of none', m, m.raw, {'self._stack': []}, lambda g: isinstance(g, PartOf) and g.cls == 'Part' and
            g.fields['_axes'] == seitz(EYE, NOWHERE))
    for copy in (True, False):
        m = F.method('Parts', 'copy', 'deep', **PLAIN)
        F.gives('chain', f'Parts.copy({copy})', m, m.raw, {'self._stack': words('abc'), 'deep': copy}, Chain(words('abc')))
    m = F.method('Parts', 'from_dependent_chain', 'dep', 'at', 'rotated', 'degrees', 'copy', opaque=E, steps=('Parts.from_at_rotated', 'Parts.reduce'))
    at, rotated = Obj.named('Vector', 'at'), Obj.named('Angles', 'rotated')
    for copy, degrees, dep, a, r in every((True, False), (True, False), (None, '', 'ab'), (None, at), (None, rotated)):
        d = None if dep is None else Chain(words(dep))
        known = {'dep': d, 'at': a, 'rotated': r, 'degrees': degrees, 'copy': copy, 'stack': Given(lambda x: x.fields['_stack']),
                 'reduce': Given(lambda x: ('reduced', x)), 'from_at_rotated': Given(lambda cls, at, rotated, degrees=True: Chain([('new', at, rotated, degrees)]))}
        known |= {} if d is None else {'dep._stack': d.fields['_stack']}
        want = words(dep or '') + [('new', a or NOWHERE, r or Obj('Angles', [0, 0, 0]), degrees)]
        F.gives('chain', f'Parts.from_dependent_chain after {dep!r} with {a} {r} {degrees} copy={copy}', m, m.raw, known,
                lambda g: isinstance(g, tuple) and g[0] == 'reduced' and g[1] == Chain(want))
    m = F.method('Parts', '__contains__', 'value_name', opaque=E, steps=('Part.__contains__',))
    for n in range(4):
        for i in (*range(n), None):
            stack = [['name'] if j == i else ['other'] for j in range(n)]
            F.gives('chain', f'Parts.__contains__ with the name in {i} of {n}', m, m.raw, {'self._stack': stack, 'value_name': 'name', **HAS}, i is not None)
    for name in ('position', 'rotation'):
        m = F.method('Parts', name, 'which', opaque=E, steps=('Parts.resolve',))
        for which in (None, 'axes', 'coordinates'):
            F.gives('chain', f'Parts.{name}({which})', m, m.raw, {'which': which, 'resolve': Given(lambda *a: WordThing('resolved')), 'self': 'self',
                    name: Given(lambda x, which=None: (x.text, which))}, ('resolved', which))


def reduced(F):
    """one step of the reduction, for every kind of the last part so far and of the next one; and what is done at its end"""
    m = F.method('Parts', 'reduce', **PLAIN)
    f = m.f
    loops = [x for x in f.node.body if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and any(
        isinstance(y, ast.Subscript) for y in ast.walk(x.iter))]
    lists = [x for x in f.node.body if isinstance(x, ast.Assign) and isinstance(x.value, ast.List) and len(x.value.elts) == 1 and
             isinstance(x.targets[0], ast.Name)]
    if len(loops) != 1 or len(lists) != 1:
        F.rep.note('Parts.reduce is not a loop that adds to a list: not examined')
        return
    top, name = loops[0].target.id, lists[0].targets[0].id
    new = {f'new:{c}': Given(lambda **k: Chain(k['_stack'])) for c in ('Parts',)}
    steps = [(pre, extracted(F, f, [top], [f'{name} = [{", ".join("self." + x for x in (*pre, "last"))}]'], loops[0].body, f'return {name}'))
             for pre in ((), ('one',), ('one', 'two'))]
    kinds = {'constant': (True, False), 'identity': (True, True), 'variable': (False, False)}
    for a, b in every(kinds, kinds):
        x, y = WordThing('L', *kinds[a]), WordThing('T', *kinds[b])
        want = ''.join(w.text for w in (x, y) if not w.identity)
        for pre, step in steps:
            known = {f'self.{p}': WordThing('JK'[i], False) for i, p in enumerate(pre)} | {'self.last': x, top: y}
            F.gives('chain', f'Parts.reduce: {b} after {a} after {len(pre)}', step, step.raw, {**known, **new}, lambda g: isinstance(g, list) and
                    g[:len(pre)] == words('JK'[:len(pre)]) and all(isinstance(w, WordThing) for w in g) and len(g) > len(pre) and
                    word(g[len(pre):], x, y) == want, 'the list')
    after = f.node.body[f.node.body.index(loops[0]) + 1:]
    for n in (1, 2, 3):
        names = ['self.a', 'self.b', 'self.c'][:n]
        last = extracted(F, f, [], [f'{name} = [{", ".join(names)}]'], after, None)
        for end in kinds:
            ws = [WordThing(c, False) for c in 'abc'[:n - 1]] + [WordThing('abc'[n - 1], *kinds[end])]
            known = {k: w for k, w in zip(names, ws)}
            F.gives('chain', f'Parts.reduce: the end of {n} parts of which the last is {end}', last, last.raw, {**known, **new},
                    lambda g: isinstance(g, Chain) and g in (Chain(ws), Chain(ws[:-1] if end == 'identity' else ws)), 'the list')


def word(g, x, y):
    """the product of a list, without the identities"""
    text = ''.join(w.text[::-1] for w in g)
    return ''.join(c for c in text if not (c == 'L' and x.identity or c == 'T' and y.identity))


def extracted(F, f, args, before, body, after):
    """these statements of a method as a method of their own"""
    node = ast.parse(f'def part(self{"".join(", " + a for a in args)}):\n    pass').body[0]
    node.body = [ast.parse(x).body[0] for x in before] + list(body) + ([] if after is None else
                 [ast.parse('def f():\n    ' + after).body[0].body[0]])
    for x in ast.walk(node):
        for at in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
            if isinstance(x, (ast.stmt, ast.expr, ast.arg)) and not hasattr(x, at):
                setattr(x, at, f.node.lineno if 'lineno' in at else 0)
    g = replace(f, name=f.name, node=node)
    F.rep.uses(f.module.name)
    return Method(F.p, g, args, opaque=E, cls=f.cls)


def orients(F):
    for name, args in (('from_dependent_orientations', ('rel', 'at', 'rot', 'angles')), ('from_dependent_orientation', ('dep', 'at', 'angles'))):
        m = F.method('Orient', name, *args, 'degrees', 'copy', opaque=E, steps=('Parts.from_dependent_chain', 'Orient.position', 'Orient.rotation',
                                                                                'Orient.rotation_parts'))
        at, angles = Obj.named('Vector', 'at'), Obj.named('Angles', 'angles')
        d = F.method('Orient', name, *args, opaque=E, steps=('Parts.from_dependent_chain', 'Orient.position', 'Orient.rotation', 'Orient.rotation_parts'))
        for has, turns, degrees, copy in every((True, False), (True, False), (True, False), (True, False)):
            if args[0] == 'dep' and has != turns:
                continue
            known = {'at': at, 'angles': angles, 'degrees': degrees, 'copy': copy,
                     args[0]: Frame(args[0]) if has else None, 'rot': Frame('rot') if turns else None,
                     'new:Orient': Given(lambda **k: Frame('', **k)),
                     'position': Given(lambda x, *a, **k: x.position()), 'rotation': Given(lambda x, *a, **k: x.rotation(*a, *k.values())),
                     'rotation_parts': Given(lambda x, *a: Chain(words('r' if x.name else ''))),
                     'from_dependent_chain': Given(lambda c, dep=None, at=None, rotated=None, degrees=True, copy=True: ('chain', dep, at, rotated, degrees, copy))}
            mine = Frame(args[0] if has else '')
            p = Obj('Vector', [a + b for a, b in zip(mine.position(), mine.rotation('coordinates') * at)])

            def right(g):
                if not isinstance(g, Frame) or not isinstance(g.fields.get('_position'), Chain):
                    return False
                r = g.fields['_rotation']
                dep = r[1] if isinstance(r, tuple) and len(r) == 6 else 1
                return total(g.fields['_position']) == seitz(EYE, p) and isinstance(r, tuple) and same(list(r[3]), list(angles)) and \
                    (r[2] is None or same(r[2], NOWHERE)) and r[4:] == (degrees, copy) and g.fields['_degrees'] is degrees and \
                    (dep == Chain(words('r')) if turns else dep is None or dep == Chain())
            F.gives('orient', f'Orient.{name} with {"a" if has else "no"} position and {"a" if turns else "no"} rotation to refer to, '
                    f'{degrees} {copy}', m, m.raw, known, right)
            F.gives('orient', f'Orient.{name} of plain tuples, with {"a" if has else "no"} position and {"a" if turns else "no"} rotation to refer to, '
                    f'{degrees} {copy}', m, m.raw, {**known, 'at': tuple(at), 'angles': tuple(angles), 'at.x': at[0], 'at.y': at[1], 'at.z': at[2],
                    'angles.x': angles[0], 'angles.y': angles[1], 'angles.z': angles[2]}, right)
            if degrees and copy:
                F.gives('orient', f'Orient.{name} without a unit, with {"a" if has else "no"} position and {"a" if turns else "no"} rotation to '
                        'refer to', d, d.raw, known, right)
    stacks = {'self._position': 'p', 'self._rotation': 'r', 'self._degrees': 'degrees?'}
    did = {n: Given(lambda x, n=n, **k: f'{n}({x})') for n in ('inverse', 'reduce', 'resolve')}
    for name in ('inverse', 'reduce'):
        m = F.method('Orient', name, opaque=E, steps=('Parts.inverse', 'Parts.reduce'))
        F.gives('orient', f'Orient.{name}', m, m.raw, {**stacks, **did, 'new:Orient': Given(lambda **k: k)},
                {'_position': f'{name}(p)', '_rotation': f'{name}(r)', '_degrees': 'degrees?'})
    for name, part, right in (('position', 'position', 'p'), ('rotation', 'rotation', 'r'), ('angles', 'angles', 'resolve(r)')):
        m = F.method('Orient', name, 'which', opaque=E, steps=('Parts.position', 'Parts.rotation', 'Parts.resolve'))
        for which in (None, 'axes', 'coordinates'):
            F.gives('orient', f'Orient.{name}({which})', m, m.raw, {**stacks, **did, 'which': which,
                    part: Given(lambda x, which=None: (x, which))}, (right, which))
    for name, right in (('position_parts', 'reduce(p)'), ('rotation_parts', 'reduce(r)'), ('get_raw_position', 'p'), ('get_raw_rotation', 'r')):
        m = F.method('Orient', name, opaque=E, steps=('Parts.reduce',))
        F.gives('orient', f'Orient.{name}', m, m.raw, {**stacks, **did}, right)
    for op in ('__add__', '__sub__'):
        m = F.method('Orient', op, 'other', opaque=E, steps=('Parts.__add__', 'Parts.__sub__'))
        sign = {'__add__': '+', '__sub__': '-'}[op]
        known = {'self._position': Text('p'), 'self._rotation': Text('r'), 'self._degrees': True, 'new:Orient': Given(lambda **k: k),
                 '__add__': Given(lambda x, y: x + y), '__sub__': Given(lambda x, y: x - y)}
        for x in (PartOf('Part'), Chain()):
            known['other'] = x
            F.gives('orient', f'Orient.{op} with {x}', m, m.raw, known, lambda g: isinstance(g, dict) and
                    (g['_position'], g['_rotation']) == (Text('p', sign, x), Text('r', sign, x)))
        if op == '__add__':
            known |= {'other': Frame('other', _position=Text('p2'), _rotation=Text('r2')), 'other._position': Text('p2'), 'other._rotation': Text('r2')}
            F.gives('orient', f'Orient.{op} with another', m, m.raw, known, lambda g: isinstance(g, dict) and
                    (g['_position'], g['_rotation']) == (Text('p', sign, Text('p2')), Text('r', sign, Text('r2'))))
    m = F.method('Orient', 'combine', opaque=E, steps=())
    F.gives('orient', 'Orient.combine', m, m.raw, {'self._position._stack': words('pq'), 'self._rotation._stack': words('rs'), **PARTS}, Chain(words('rspq')))
    m = F.method('Orient', '__contains__', 'value_name', opaque=E, steps=('Parts.__contains__',))
    for p, r in every((False, True), repeat=2):
        F.gives('orient', f'Orient.__contains__ with the name in the position: {p}, in the rotation: {r}', m, m.raw,
                {'self._position': ['n'] if p else [], 'self._rotation': ['n'] if r else [], 'value_name': 'n',
                 '__contains__': Given(lambda x, y: y in x)}, p or r)


class Text(tuple):
    """a sum or difference that is not worked out"""
    def __new__(cls, *x):
        return super().__new__(cls, x)

    def __add__(self, other):
        return Text(*self, '+', other)

    def __sub__(self, other):
        return Text(*self, '-', other)


class Frame(Thing):
    """an orientation, or with no name one that is not moved"""
    kinds = {'Orient'}

    def __init__(self, name, **fields):
        super().__init__(**fields)
        self.name = name

    def position(self):
        return Obj.named('Vector', f'{self.name}.position') if self.name else NOWHERE

    def rotation(self, which='axes'):
        r = Obj.named('Rotation', f'{self.name}.rotation') if self.name else EYE
        return r if which in (None, 'axes') else r.transposed()


def instances(F):
    m = F.method('Instance', '__post_init__', opaque=E + ('Orient', 'Vector', 'Angles'), steps=('Orient.from_dependent_orientations',))
    t = m.field('orientation')
    v, a = Obj.named('Vector', 'at'), Obj.named('Angles', 'rotated')
    plain = {'new:Vector': Given(lambda *x, **k: Obj('Vector', [*x, *k.values()])), 'new:Angles': Given(lambda *x, **k: Obj('Angles', [*x, *k.values()]))}
    for at, rot, mode, bare in every((True, False), (True, False), ('normal', 'minimal'), (True, False)):
        known = {'self.at_relative': (list(v) if bare else v, Thing(name='A', orientation='oA') if at else None), 'self.mode': mode,
                 'self.rotate_relative': (list(a) if bare else a, Thing(name='R', orientation='oR') if rot else None), 'self.orientation': None,
                 'Mode.minimal': 'minimal', **plain,
                 'from_dependent_orientations': Given(lambda cls, rel, at, rot, angles, degrees=True, copy=True: (rel, at, rot, angles, degrees, copy))}
        want = ('oA' if at else None, v, 'oR' if rot else None, a, True, True)
        F.gives('instance', f'AT {"RELATIVE" if at else "ABSOLUTE"} ROTATED {"RELATIVE" if rot else "ABSOLUTE"}, mode {mode}{", plain" if bare else ""}',
                m, t, known, None if mode == 'minimal' else want)
