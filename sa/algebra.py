"""Exact algebra of the expressions in a term: polynomials of the unknown numbers, and vectors and matrices of them"""
from __future__ import annotations
import math
from .reread import Thing, Given

PI = math.pi


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


class Poly(Thing):
    """{sorted names of the factors: coefficient}"""

    def __init__(self, terms=None):
        self.terms = {k: v for k, v in (terms or {}).items() if abs(v) > 1e-12}

    @classmethod
    def of(cls, x):
        return x if isinstance(x, Poly) else cls({(): x})

    @property
    def number(self):
        """its value, or None when it is not constant"""
        return self.terms.get((), 0) if set(self.terms) <= {()} else None

    @property
    def fields(self):
        n = self.number
        return dict(is_zero=not self.terms, is_constant=n is not None, has_value=n is not None, is_id=n is None and self.single(),
                    is_op=n is None and not self.single(), value=n if n is not None else self)

    def single(self):
        return len(self.terms) == 1 and all(len(k) == 1 and v == 1 for k, v in self.terms.items())

    def __add__(self, other):
        other = Poly.of(other)
        return Poly({k: self.terms.get(k, 0) + other.terms.get(k, 0) for k in {*self.terms, *other.terms}})

    def __sub__(self, other):
        return self + -Poly.of(other)

    def __neg__(self):
        return Poly({k: -v for k, v in self.terms.items()})

    def __mul__(self, other):
        if isinstance(other, Obj):
            raise TypeError
        out = {}
        for a, x in self.terms.items():
            for b, y in Poly.of(other).terms.items():
                k = tuple(sorted(a + b))
                out[k] = out.get(k, 0) + x * y
        return Poly(out)

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(self, other):
        return -self + other

    def __truediv__(self, other):
        other = Poly.of(other)
        if other.number is not None:
            return self * (1 / other.number)
        return self * Poly({(f'1/({other})',): 1})

    def __rtruediv__(self, other):
        return Poly.of(other) / self

    def __abs__(self):
        return Poly.of(abs(self.number)) if self.number is not None else Poly({(f'|{max(str(self), str(-self))}|',): 1})

    def __eq__(self, other):
        if not isinstance(other, (Poly, int, float)):
            return False
        other = Poly.of(other)
        return all(near(self.terms.get(k, 0), other.terms.get(k, 0)) for k in {*self.terms, *other.terms})

    __hash__ = None

    def __bool__(self):
        raise TypeError

    def __str__(self):
        return ' + '.join(f'{v:.12g}' + ''.join('·' + n for n in k) for k, v in sorted(self.terms.items())) or '0'

    __repr__ = __str__


def atom(name):
    return Poly({(name,): 1})


def function(name, x):
    """a function of an expression: sines and cosines of angles in radian"""
    x = Poly.of(x)
    if name in ('sin', 'cos'):
        if x.number is not None:
            return Poly.of(getattr(math, name)(x.number))
        if str(-x) < str(x):
            return -function(name, -x) if name == 'sin' else function(name, -x)
    return atom(f'{name}({x})')


FIELDS = {'Matrix': [a + b for a in 'xyz' for b in 'xyz'], 'Rotation': [a + b for a in 'xyz' for b in 'xyz'],
          'Vector': list('xyz'), 'Angles': list('xyz'), 'Seitz': [a + b for a in 'xyz' for b in 'xyzt']}


class Obj(Thing):
    """an object of one of the classes with three or more expressions"""

    def __init__(self, cls, items):
        self.cls, self.items = cls, [Poly.of(x) for x in items]
        if len(self.items) != len(FIELDS[cls]):
            raise TypeError

    @classmethod
    def named(cls, kind, name):
        return cls(kind, [atom(f'{name}.{f}') for f in FIELDS[kind]])

    @property
    def fields(self):
        return dict(zip(FIELDS[self.cls], self.items))

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def rows(self):
        n = len(self.items) // 3
        return [self.items[i * n:i * n + 3] for i in range(3)]

    def column(self):
        return [self.items[3], self.items[7], self.items[11]]

    def __mul__(self, other):
        if self.cls == 'Seitz' and isinstance(other, Obj) and other.cls == 'Seitz':
            r, t = product(self.rows(), other.rows()), applied(self.rows(), other.column())
            return Obj('Seitz', [x for i in range(3) for x in (*r[i], t[i] + self.column()[i])])
        if self.cls in ('Matrix', 'Rotation') and isinstance(other, Obj) and other.cls == 'Vector':
            return Obj('Vector', applied(self.rows(), other.items))
        if self.cls in ('Matrix', 'Rotation') and isinstance(other, Obj) and other.cls == self.cls:
            return Obj(self.cls, [x for row in product(self.rows(), other.rows()) for x in row])
        if self.cls == 'Vector' and isinstance(other, Obj) and other.cls in ('Matrix', 'Rotation'):
            return Obj('Vector', applied(list(zip(*other.rows())), self.items))
        if self.cls in ('Matrix', 'Vector', 'Angles') and isinstance(other, (Poly, int, float)):
            return Obj(self.cls, [x * other for x in self.items])
        raise TypeError

    def __truediv__(self, other):
        if self.cls == 'Vector' and isinstance(other, (Poly, int, float)):
            return Obj(self.cls, [x / other for x in self.items])
        raise TypeError

    def pairwise(self, other, f):
        if not isinstance(other, Obj) or other.cls != self.cls or self.cls == 'Seitz':
            raise TypeError
        return Obj('Matrix' if self.cls == 'Rotation' else self.cls, [f(a, b) for a, b in zip(self.items, other.items)])

    def __add__(self, other):
        if self.cls == 'Rotation':
            raise TypeError
        return self.pairwise(other, lambda a, b: a + b)

    def __sub__(self, other):
        return self.pairwise(other, lambda a, b: a - b)

    def __eq__(self, other):
        return isinstance(other, Obj) and self.cls == other.cls and all(a == b for a, b in zip(self.items, other.items))

    __hash__ = None

    def transposed(self):
        return Obj(self.cls, [x for row in zip(*self.rows()) for x in row])

    def inverted(self):
        """of a Seitz matrix of a rotation and a vector"""
        r = [list(x) for x in zip(*self.rows())]
        t = applied(r, self.column())
        return Obj('Seitz', [x for i in range(3) for x in (*r[i], -t[i])])

    def __repr__(self):
        return f'{self.cls}({", ".join(map(str, self.items))})'


def product(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), Poly()) for j in range(3)] for i in range(3)]


def applied(a, v):
    return [sum((a[i][k] * v[k] for k in range(3)), Poly()) for i in range(3)]


def seitz(rotation, vector):
    r = rotation.rows()
    return Obj('Seitz', [x for i in range(3) for x in (*r[i], vector[i])])


EYE = Obj('Rotation', [1, 0, 0, 0, 1, 0, 0, 0, 1])
NOWHERE = Obj('Vector', [0, 0, 0])


def about(axis, c, s):
    """the rotation of the axes around one of them, as McCode has it"""
    return Obj('Rotation', {'x': [1, 0, 0, 0, c, s, 0, -s, c], 'y': [c, 0, -s, 0, 1, 0, s, 0, c], 'z': [c, s, 0, -s, c, 0, 0, 0, 1]}[axis])


def turned(axis, angle, degrees):
    """about an axis by an angle in degrees or radian"""
    a = Poly.of(angle) * (PI / 180 if degrees else 1)
    return about(axis, function('cos', a), function('sin', a))


def default(text):
    import ast
    t = ast.parse(text, mode='eval').body
    if isinstance(t, ast.Call) and ast.unparse(t.func) in ('Expr.float', 'Expr.int') and len(t.args) == 1:
        return Poly.of(ast.literal_eval(t.args[0]))
    if isinstance(t, ast.Constant):
        return t.value
    if isinstance(t, ast.Call) and t.keywords and t.keywords[0].arg == 'default_factory':
        made = ast.unparse(t.keywords[0].value).removeprefix('lambda:').strip().removesuffix('()')
        zeros = {'Seitz': [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0], 'Vector': [0] * 3, 'Angles': [0] * 3}
        return Obj(made, zeros[made]) if made in zeros else ('default', made)
    raise TypeError


def made(kind):
    def make(**fields):
        return Obj(kind, [fields.pop(f) for f in FIELDS[kind]]) if set(fields) == set(FIELDS[kind]) else 1 / 0
    return Given(make)


def sine(name):
    def call(x, degrees=True):
        return function(name, Poly.of(x) * (PI / 180 if degrees is True else 1 if degrees is False else 1 / 0))
    return call


def unary(f, name, x):
    """what `unary_expr` gives: the name is what it is called in C, the function is what makes its value"""
    degrees = called(f, name)
    x = Poly.of(x)
    if name in ('sin', 'cos'):
        return function(name, x * (PI / 180 if degrees else 1))
    if x.number is not None:
        return Poly.of(getattr(math, name)(x.number)) * (180 / PI if degrees else 1)
    return function(name + ('_degree' if degrees else ''), x)


def binary(f, name, a, b):
    degrees = called(f, name)
    a, b = Poly.of(a), Poly.of(b)
    if a.number is not None and b.number is not None:
        return Poly.of(getattr(math, name)(a.number, b.number)) * (180 / PI if degrees else 1)
    return atom(f'{name}{"_degree" if degrees else ""}({a}, {b})')


def called(f, name):
    """is the function of this name the one for degrees"""
    f = getattr(f, 'name', f).split(':')[-1].split('.')[-1].strip('<>')
    if f not in (name, name + '_degree'):
        raise TypeError
    return f != name


def isinstance_of(x, *classes):
    names = {c for cs in classes for c in (cs if isinstance(cs, (list, tuple)) else [cs])}
    names = {str(c).replace('<class ', '').strip('<>').split('.')[-1] for c in names}
    kinds = {x.cls, 'tuple', 'NamedTuple'} if isinstance(x, Obj) else {'Expr'} if isinstance(x, Poly) else \
        {c for c in x.kinds} if hasattr(x, 'kinds') else {type(x).__name__}
    return bool(kinds & names)


def compared(op):
    def compare(a, b):
        a, b = Poly.of(a).number, Poly.of(b).number
        if a is None or b is None:
            raise TypeError
        return op(a, b)
    return compare


Poly.__gt__, Poly.__lt__ = compared(lambda a, b: a > b), compared(lambda a, b: a < b)
Poly.__ge__, Poly.__le__ = compared(lambda a, b: a >= b), compared(lambda a, b: a <= b)


def library(name):
    def call(*a):
        a = [Poly.of(x) for x in a]
        if all(x.number is not None for x in a):
            return Poly.of(getattr(math, name)(*[x.number for x in a]))
        return function(name, *a) if len(a) == 1 else atom(f'{name}({", ".join(map(str, a))})')
    g = Given(call)
    g.name = name
    return g


KNOWN = {**{n: n for n in ('tuple', 'list', 'str', 'dict')}, **{f'new:{k}': made(k) for k in FIELDS}, 'default': Given(default), 'isinstance': Given(isinstance_of),
         'float': Given(lambda *a: Poly.of(a[-1])), 'int': Given(lambda *a: Poly.of(a[-1])), 'Expr': 'Expr', 'math.pi': PI, **{f'math.{n}': library(n) for n in ('sin', 'cos', 'acos', 'atan2', 'sqrt')},
         'math.radians': Given(lambda x: Poly.of(x) * (PI / 180)), 'math.degrees': Given(lambda x: Poly.of(x) * (180 / PI)),
         'id': Given(lambda *a: Poly.of(PI) if a[-1] == 'PI' else atom(a[-1])),
         'is_value': Given(lambda x, y: x == y), 'deepcopy': Given(lambda x, *a: x), 'copy.deepcopy': Given(lambda x, *a: x),
         'unary_expr': Given(unary), 'binary_expr': Given(binary), 'function': Given(lambda name: name),
         'cos_value': Given(sine('cos')), 'sin_value': Given(sine('sin'))}
