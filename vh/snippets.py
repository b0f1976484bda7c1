"""Hand-written snippets of Python features, used as building blocks.

Each one is self-contained and prints what it computes. They are placed at
module level, in functions, in methods, in loops and in conditionals by the
transparency check, in random order and with random capture options.
"""
import textwrap

RAW = r'''
class A:
    def m(self): return 1
class B(A):
    def m(self): return super().m() + 1
print(B().m())
#---
class Meta(type):
    def __new__(m, n, b, d, **k):
        print('meta', n, sorted(k)); return super().__new__(m, n, b, d)
    def __init__(c, n, b, d, **k): super().__init__(n, b, d)
class C(metaclass=Meta, tag=1): x = 2
print(C.x, type(C).__name__)
#---
import enum
class Co(enum.Enum):
    A = 1
    B = 2
    def f(self): return self.value
print(list(Co), Co.A.f(), Co(2))
#---
reg = []
class Base:
    def __init_subclass__(cls, tag=None, **kw):
        super().__init_subclass__()
        reg.append((cls.__name__, tag, kw))
class S(Base, tag='x'): pass
class T(*[S], **{'tag': 'u'}): pass
class U(S, tag=1, mode=2, bases=3, definition=4, name=5): pass
print(reg)
#---
def deco(c):
    c.z = 3
    return c
def mk(n):
    @deco
    class K(dict, metaclass=type):
        "doc"
        q = n
        def m(self): return super().__len__() + n
        class In:
            w = n
    return K
k = mk(3)
print(k().m(), k.z, k.In.w, k.__doc__, k.q, sorted(x for x in vars(k) if not x.startswith('__')))
#---
def bad():
    class A(1/0): pass
try: bad()
except ZeroDivisionError: print('z')
class Q:
    try:
        class W(1/0): pass
    except ZeroDivisionError: r = 1
    class V: t = 2
print(Q.r, Q.V.t)
#---
class N:
    def __getitem__(self, i): return i
    def __setitem__(self, i, v): print(i, v)
    def __delitem__(self, i): print('del', i)
n = N()
print(n[-1], n[1:2], n[...], n[1,2], n[:, -1], n['a'])
n[-1] = 3
n[-2] += 5
del n[-3]
d = {-1: 5, 0: 7}
print(d[-1])
d[-1] = 8
print(d)
#---
class P:
    __p = 3
    def __init__(self): self.__x = 1
    def m(self): return self.__x + self.__p
    def __h(self): return 4
    def n(self):
        self.__x += 1
        self.__q = [self.__h()]
        return self.__q, self.__x
a = P()
print(a.m(), a.n(), sorted(a.__dict__))
#---
class S:
    __slots__ = ('x', 'y')
    def __init__(self): self.x = 1
class S2(S):
    __slots__ = ()
    z = 4
s = S2(); print(s.x, s.z)
s.x += 1
print(s.x)
try: s.w = 1
except AttributeError as e: print('ae')
try: s.y
except AttributeError as e: print('ae')
#---
class G:
    def __getattr__(self, n): return n.upper()
    def __setattr__(self, n, v): object.__setattr__(self, n, v * 2)
g = G()
print(g.foo)
g.x = 4
print(g.x)
g.x += 1
print(g.x)
#---
class P:
    def __init__(self): self._v = 1
    @property
    def v(self): return self._v
    @v.setter
    def v(self, x): self._v = x * 10
    @classmethod
    def c(cls): return cls.__name__
    @staticmethod
    def s(x): return x
p = P(); p.v = 3; print(p.v, p.c(), P.c(), p.s(1)); p.v += 1; print(p.v)
#---
class D:
    def __get__(self, o, t): return 'got' if o else self
    def __set__(self, o, v): print('set', v)
class X:
    d = D()
x = X(); print(x.d); x.d = 3
print(X.d is not None)
#---
class M:
    def __init__(self, v): self.v = v
    def __add__(s, o): return M(s.v + (o.v if isinstance(o, M) else o))
    def __radd__(s, o): return M(o + s.v)
    def __iadd__(s, o): s.v += o; return s
    def __mul__(s, o): return M(s.v * o)
    def __neg__(s): return M(-s.v)
    def __lt__(s, o): return s.v < o.v
    def __eq__(s, o): return isinstance(o, M) and s.v == o.v
    def __hash__(s): return hash(s.v)
    def __contains__(s, o): return o == s.v
    def __len__(s): return s.v
    def __getitem__(s, i): return s.v + i
    def __setitem__(s, i, v): s.v = v
    def __call__(s, *a, **k): return (s.v, a, k)
    def __iter__(s): return iter(range(s.v))
    def __enter__(s): return s
    def __exit__(s, *a): return True
    def __repr__(s): return 'M(%r)' % s.v
    def __str__(s): return 'm'
    def __bool__(s): return True
    def __format__(s, spec): return 'F' + spec
    def __int__(s): return s.v
    def __index__(s): return s.v
m = M(2)
n = m
m += 3
print(m, [m], m is n, m + 1, 1 + m, [m * 2, -m], m < M(9), m == M(5), 5 in m, len(m), m[1], m(1, a=2), list(m), int(m), f'{m:x}', f'{m!r}', [0]*m, [1,2,3,4,5,6][m])
m[0] = 1
print([m], sum([M(1), M(2)], M(0)), sorted([M(3), M(1)]), {m: 1}[M(1)], max(M(1), M(4)))
with m as k: raise ValueError
print(k is m)
#---
class V:
    def __eq__(self, o):
        print('eq'); return True
    def __bool__(self):
        print('bool'); return True
    def __hash__(self): return 1
def g():
    yield V()
for v in g(): pass
print([1 for x in [1] if v])
if v: print(1)
v if v else 2
while v: break
s = {v}
x, = [v]
v and 1
not v
#---
class It:
    def __getitem__(self, i):
        print('get', i)
        if i > 2: raise IndexError
        return i
for x in It(): print(x)
a, b, c = It()
a, *b = It()
print(a,b)
#---
class It:
    def __iter__(self):
        print('iter')
        return iter([1,2])
    def __len__(self):
        print('len'); return 2
for x in It(): print(x)
a, b = It()
a, *b = It()
print(a,b)
if It(): print(1)
[*It()]
list(It())
#---
print([1,*(i for i in 'ab'),*[3,4],5], (*[1],), sorted({*'77', '-1', '2', *[]}))
d = {'a':1}
print({**d, 'b':2, **{'c':3}})
def f(a,b,*c): print(a,b,c)
f(*[1,2],*(3,4))
f(**{'a':1,'b':2})
x,*y = [*[1,2],3]
print(x,y)
for i in *[1],2: print(i)
def g(): return 1, *[2,3]
print(g(), [*range(3)][1])
try: print([1, *5])
except TypeError as e: print('te')
try: print({**5})
except TypeError as e: print('te')
#---
s = {0,1}
for x in s: print(x)
t = s
for x in t: print(x)
a, b = s
print(a + b)
#---
a, *b = iter([1,2,3])
print(a,b)
a, *b = {1:2,3:4}
print(a,b)
(a,b),*c,d = (1,2),3,4
print(a,b,c,d)
(a,b),*c,(d,e) = (1,2),(3,4)
print(a,b,c,d,e)
x = [(1,2),(3,4)]
(a,b),*c,(d,e) = x
print(a,b,c,d,e)
#---
a, *b, c = 'ab'
print(a,b,c)
a, *b = {5}
print(a,b)
def g():
    yield 1
    yield 2
    yield 3
a, *b, c = g()
print(a,b,c)
a, *b = map(str, [1,2])
print(a,b)
for a, *b in [(1,2,3),'ab']: print(a,b)
print([b for a, *b in [(1,2,3),'ab']])
for a, *b in {1:2,3:4}.items(): print(a,b)
#---
a = b = c = [1]
print(a is c)
x, (y, z), *w = 1, (2, 3), 4, 5
print(x, y, z, w)
a, b = b, a
i = j = 0
i, j = j + 1, i + 2
print(i, j)
for i, (j, k) in enumerate([(1,2),(3,4)]): print(i, j, k)
else: print('else')
[p, q] = 'xy'
print(p, q)
l = [0, 0]
for l[0] in range(3): pass
print(l)
#---
def f(d, n):
    if n == 0:
        return [x*2 for x in d if x > 1], {x: 1 for x in d}, {x for x in d}, sum(x for x in d)
    return f(d, n-1)
print(f([1,2,3], 5))
#---
d = {1: 'a', 0: 'b'}
for k in d: print(k, d[k])
for i, k in enumerate(d): print(i,k)
a, b = d
print(a, b)
#---
x = y = []
x += [1]
print(x is y)
class C:
    x: int = 2
print(C.__annotations__)
#---
def f():
    try:
        return 1
    finally:
        print('fin')
def g():
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2: break
        finally: print('f', i)
print(f()); g()
try:
    try: 1/0
    except ZeroDivisionError as e:
        raise ValueError('x') from e
except ValueError as e:
    print(repr(e.__cause__), e)
import sys
try: raise KeyError
except (KeyError, ValueError): print(sys.exc_info()[0])
#---
def h():
    try: yield 1
    except GeneratorExit: print('close'); raise
    finally: print('hf')
k = h(); next(k); k.close()
k = h(); next(k)
try: k.throw(ValueError('t'))
except ValueError as e: print(e)
#---
def g():
    x = yield 1
    print('got', x)
    y = yield x
    return y
k = g()
print(next(k), k.send(5))
try: k.send(7)
except StopIteration as e: print(e.value)
def d():
    r = yield from g()
    print('r', r)
for z in d(): print(z)
#---
import asyncio
class CM:
    async def __aenter__(self): return 5
    async def __aexit__(self, *a): pass
async def a(x): return x + 1
async def ag():
    yield 1
    yield 2
async def b():
    y = await a(1)
    async with CM() as c:
        print(c)
    async for i in ag(): print(i)
    return y
print(asyncio.run(b()))
#---
def m(x):
    match x:
        case 1: return 'one'
        case [a, *b]: return a, b
        case {'k': v, **r}: return v, r
        case str(): return 's'
        case _ if x: return 'w'
        case _: return 'n'
for i in (1, [1,2], {'k':1,'z':2}, 'a', 5, None): print(m(i))
#---
lst = [1,2,3]
del lst[0]
xx = 1
del xx
print(lst)
assert 1, 'a'
try: assert 0, 'msg'
except AssertionError as e: print(e)
#---
print(f"{1:>{2}} {'a'!r} {3=}", rf'\d{1}', f"{ {'a':1}['a'] }")
print('a' 'b', b'x', 1j, 0x1f, 1_000, ..., 1.5e3)
#---
l = [1,2,3,4]
l[1:3] = [9]
l[0] += 5
l[-1:] *= 2
print(l, l[::-1], l[:2], l[slice(1,2)])
d = {}
d['a', 1] = 2
d.setdefault('z', []).append(3)
print(d)
class O: pass
o = O(); o.x = 1; o.x += 2; o.y = o.z = [o.x]
print(o.x, o.y is o.z)
i = 0
l[i], i = 3, 1
print(l, i)
def f():
    print('f'); return 0
l[f()] = f()
l[f()] += 2
print(l)
#---
import collections
o = collections.OrderedDict(a=1)
print(o.get('a'), o.items(), True.real, (1).imag)
c = collections.Counter('aab')
print(c.most_common(1), c.get('a'))
d = collections.defaultdict(list)
d['x'].append(1)
print(d.keys(), d.pop('x'))
x = True
print(x.real, x.numerator)
#---
import datetime, pathlib, io, re
p = pathlib.Path('a/b')
print(p.name, p.parent, p.suffix, (p / 'c').parts)
t = datetime.datetime(2020,1,2)
print(t.year, t.date(), t.isoformat())
m = re.match('(a)(?P<k>b)', 'ab')
print(m.group(1), m['k'], m[0])
s = io.StringIO(); s.write('x'); print(s.getvalue())
e = ValueError('x'); print(e.args, e.args[0])
class E2(ValueError): pass
e = E2('x'); print(e.args)
#---
from dataclasses import dataclass, field
@dataclass
class P:
    x: int
    y: list = field(default_factory=list)
    def n(self): return self.x + len(self.y)
p = P(3)
p.y.append(1)
print(p.n(), p == P(3, [1]), p.x)
#---
import typing, collections
class NT(typing.NamedTuple):
    a: int
    b: str = 'x'
print(NT(1), NT(1).b, NT(2)._replace(a=3))
T = collections.namedtuple('T', 'u v')
print(T(1,2), T(1,2).u)
#---
import abc
class B(abc.ABC):
    @abc.abstractmethod
    def z(self): ...
try: B()
except TypeError as e: print('te')
class BB(B):
    def z(self): return 1
print(BB().z())
#---
import functools
@functools.lru_cache(maxsize=None)
def fib(n): return n if n < 2 else fib(n-1) + fib(n-2)
print(fib(10))
@functools.wraps(fib)
def w(*a): return fib(*a)
print(w(3), functools.reduce(lambda a, b: a + b, [1,2,3]), functools.partial(w, 4)())
#---
import contextlib
@contextlib.contextmanager
def cm():
    print('in')
    try: yield 3
    finally: print('out')
with cm() as c: print(c)
with contextlib.suppress(KeyError): raise KeyError
try:
    with cm() as c: raise ValueError('q')
except ValueError as e: print(e)
with cm() as a, cm() as b: print(a + b)
with cm(): print('body')
#---
def outer():
    x = 1
    def inner():
        nonlocal x
        x += 1
        return x
    def other(): return x
    return inner, other
a, b = outer()
print(a(), a(), b())
fs = [lambda i=i: i for i in range(3)]
print([f() for f in fs])
fs = [lambda: i for i in range(3)]
print([f() for f in fs])
print((lambda *a, **k: (a, k))(1, *[2], z=3, **{'w': 4}))
print(sorted([3,1,2], key=lambda v: -v), list(map(str, filter(None, [0,1,2]))))
def va(a, /, b, *, c=1, **k): return a, b, c, k
print(va(1, b=2, c=3, d=4), va(1, 2))
#---
def f():
    try:
        print(x9)
        x9 = 1
    except UnboundLocalError as e: print('ule')
f()
try: undefined
except NameError as e: print(e)
try: [].foo
except AttributeError as e: print(e)
try: {}['a']
except KeyError as e: print(e)
try: [1][5]
except IndexError as e: print(e)
try: int('z')
except ValueError as e: print(e)
try: f(1,2)
except TypeError as e: print('te')
try: 1 + 'a'
except TypeError as e: print(e)
#---
def f(**k): return k
print(f(self=1, activation=2, args=3), '{self}'.format(self=4))
#---
x = (n := 3), 2
print(x, n)
if (m := n + 1) > 2: print(m)
print([y := 1, y ** 2], f"{(z := 5)}", z)
while (n := n - 1): print(n)
print([k for v in [1,2,3] if (k := v * 2) > 2], k)
def f(a=(q := 9)): return (r := a) + r
print(f(), q)
print((lambda: (w := 4) + w)())
d = {(a := 1): (b := 2)}
print(d, a, b)
l = [0]; l[(i := 0)] = 4
print(l, i)
#---
def rec(n):
    return 0 if n == 0 else 1 + rec(n - 1)
print(rec(30))
#---
with open('o.txt', 'w') as f:
    f.write('é')
    print('line', file=f)
print(open('o.txt').read(), open('o.txt', 'rb').read())
f = open('o.txt', 'a'); f.write('z'); f.close()
for line in open('o.txt'): print(line.rstrip())
with open('o.txt') as f, open('p.txt', 'w') as g: g.write(f.read())
import os
os.remove('p.txt')
print(os.path.exists('p.txt'))
#---
import os, io, pathlib
pathlib.Path('q.txt').write_text('qé')
print(io.open('q.txt').read() == pathlib.Path('q.txt').read_text())
fd = os.open('q.txt', os.O_RDONLY); print(os.read(fd, 3)); os.close(fd)
try: open('nope')
except FileNotFoundError as e: print(e)
with open('q.txt', mode='r+', encoding='utf8') as f: f.seek(0); f.truncate()
print(os.path.getsize('q.txt'))
#---
for i in range(2):
    for j in range(2):
        if j: break
        print(i, j)
    else: print('no')
while True:
    i += 1
    if i > 5: break
else: print('no')
print(i)
#---
print([x for x in range(3) for y in range(x) if y if x], {k: v for k, v in zip('ab', [1,2])}, {i % 2 for i in range(4)}, list(i for i in range(3)))
m = [[1,2],[3,4]]
print([[r[i] for r in m] for i in range(2)], [y for r in m for y in r])
print(any(x > 1 for x in [1,2]), all(x for x in []), sum(x*x for x in range(4)), max((x for x in [1,5]), default=0))
g = (i for i in range(3))
print(next(g), list(g), next(g, 'd'))
print([a if a else b for a, b in [(0,1),(2,3)]])
print({**{'a': 1}} | {'b': 2}, [*range(2)] * 2, (1,) + (2,))
#---
print(1 < 2 < 3, 1 < 3 < 2, not 1, 1 and 2 or 3, 5 // 2, -5 % 3, 2 ** -1, ~5, 1 << 3, 7 & 3 | 8 ^ 1, 'a' in 'abc', 1 is not None)
import operator as op
print(op.add(1,2), (lambda: (yield))().send(None))
#---
import json, random, itertools, copy
class Q:
    def __init__(s): s.a = [1]
q = Q(); r = copy.deepcopy(q); r.a.append(2); print(q.a, r.a)
print(json.loads(json.dumps({'a': [1, None]})))
random.seed(1); print(random.random(), random.choice([1,2,3]))
print(list(itertools.chain([1],[2])), list(zip(*[[1,2],[3,4]])))
#---
import inspect
def g(a, b=2, *c, d: int = 5, **e) -> str: pass
print(inspect.signature(g), inspect.signature(lambda a, b=2, *c, d, **e: 1))
#---
import threading
r = []
def f(n):
    for i in range(5): r.append(n)
for n in range(3):
    t = threading.Thread(target=f, args=(n,))
    t.start(); t.join()
print(len(r))
#---
try:
    raise ExceptionGroup('g', [ValueError(1), KeyError(2)])
except* ValueError as e: print('v', e.exceptions)
except* KeyError as e: print('k')
def gen[T](x: T) -> T: return x
print(gen(2))
class CC[T]: pass
print(CC.__name__)
#---
def f(x):
    """doc

    more"""
    return x
print(f.__doc__, f.__name__)
print((lambda: 1).__name__)
#---
import sys, os
sys.stdout.write('w\n')
print('err', file=sys.stderr)
print(os.path.basename(__file__), __name__, sys.argv[1:])
#---
out = []
def tree(n):
    if n <= 0: return None
    return (tree(n - 1), n, tree(n - 2))
def walk(t):
    if t is not None:
        yield from walk(t[0])
        yield t[1]
        yield from walk(t[2])
print(list(walk(tree(4))))
#---
class Stack(list):
    def push(self, v):
        self.append(v); return self
    def __getitem__(self, i): return super().__getitem__(i) * 2
s = Stack().push(1).push(2)
print(s, s[0], len(s), [x for x in s])
class DD(dict):
    def __missing__(self, k): self[k] = v = k * 2; return v
d = DD(); print(d['a'], d)
#---
def gen():
    for i in range(3):
        got = yield i
        if got: print('got', got)
g = gen()
print(next(g)); print(g.send('x')); print(list(g))
def chain(*its):
    for it in its:
        yield from it
print(list(chain([1], (x for x in (2, 3)), gen())))
#---
class P:
    def __init__(s, v): s.v = v
    def __add__(s, o): return P(s.v + o.v)
    def __eq__(s, o): return s.v == o.v
    def __len__(s): return len(s.v) if isinstance(s.v, (P, list)) else s.v
    def __getitem__(s, i): return s.v[i]
    def __call__(s, x): return s.v(x) if isinstance(s.v, P) else x + s.v
    def __repr__(s): return 'P(%r)' % (s.v,)
    def __lt__(s, o): return s.v < o.v
    def __hash__(s): return hash(s.v)
print(P(P(1)) + P(P(2)), P(P(3)) == P(P(3)), len(P(P([1, 2]))))
print(P(P([4, 5]))[1], P(P(2))(3), P([P(1), P([2])]), P(P(1)) < P(P(0)))
print([P(P(1)), 2] == [P(P(1)), 2], {P(P(1)): 3}[P(P(1))])
#---
def g():
    try:
        print(*5)
    except TypeError:
        pass
    return 4
def h(*a):
    return a
def k():
    try:
        repr(max(1, h(1/0)))
    except ZeroDivisionError:
        pass
    yield 1
z = h(g(), 2, list(k()))
class K:
    h(list(k()))
    try: h(1/0)
    except ZeroDivisionError: print(h(g()))
    x = h(5)
print(z, K.x)
#---
class M(type):
    @classmethod
    def __prepare__(m, *a): return dict()
    def __new__(m, n, b, d):
        print(sorted(d)); return type.__new__(m, n, b, d)
class K(metaclass=M):
    "doc"
    x = 1
    for i in range(2): y = i
    def f(self): pass
    def __repr__(self): return 'K'
print(sorted(set(vars(K)) - {'__static_attributes__', '__firstlineno__'}), K.__doc__)
class L:
    def __init_subclass__(c): print(sorted(vars(c)))
class N(L):
    x: int = 3
try:
    class Z:
        def f(self): return 1
        x = 1 / 0
except ZeroDivisionError as e: print(e)
print(len([N(), K()]))
#---
class A:
    n = 3
    m = n if n > 1 else 0
    k = (n, m)[1] if not n else [n and m]
def f():
    z = (w := 5) if True else 3
    return w
v = 1 if (u := 4) > 5 else u + 1
print(A.m, A.k, f(), v, u)
def g():
    x = (yield 1) if True else 2
    print(x)
    y = [(yield 3) if False else 4, (yield 7)]
    yield 5 if x else 6
    return y
it = g()
print(next(it), it.send(8), list(it))
def h(n):
    try: return 1 if [][n] else 2
    except IndexError: return [i for i in range(n) if i if not (1 / 0 if i > 2 else 0)]
print(h(2), (lambda q: q if q else h(q))(0))
try: print([1 / (2 - i) for i in range(4) if i])
except ZeroDivisionError: print(1 if h(1) else 2)
#---
class I:
    def __init__(s, v): s.v = v
    def __index__(s): return s.v
    def __hash__(s): return s.v
    def __eq__(s, o): return s.v == o.v
    def __format__(s, spec): print('format'); return 'F' + spec
    def __len__(s): print('len'); return 5
    def __getitem__(s, i): return i
class L(list):
    def __len__(s): print('len'); return 9
    def __getitem__(s, i): print('get', i); return list.__getitem__(s, i)
x = [1, 2, 3]
x[I(1)] = 5
d = {I(1): 2}
d[I(2)] = x[I(2)]
print(x, x[I(1)], d[I(1)], d[I(2)], I(3)[-2], I(3)[1:2], L(x)[-1], L(x)[0:2])
a, *b = L(x)
print(a, b, [*L(x)], {**d} == d)
'''

SNIPPETS = [part.strip("\n") for part in RAW.split("#---\n")]

# Python does not allow these inside functions or loops as they are
MODULE_ONLY = ()


def place(kind, number, src):
    """Place a snippet in a context."""
    body = textwrap.indent(src, "    ")
    if kind == "module":
        return src
    if kind == "function":
        return "def place{0}():\n{1}\nplace{0}()".format(number, body)
    if kind == "method":
        return ("class Place{0}:\n    def run(self):\n{1}\n"
                "Place{0}().run()".format(
                    number, textwrap.indent(src, "        ")))
    if kind == "loop":
        return "for place{0} in range(2):\n{1}".format(number, body)
    if kind == "while":
        return ("place{0} = 2\nwhile place{0}:\n    place{0} -= 1\n"
                "{1}".format(number, body))
    if kind == "if":
        return "if {0} >= 0:\n{1}\nelse:\n    print('else')".format(
            number, body)
    if kind == "try":
        return ("try:\n{1}\nfinally:\n    print('finally {0}')".format(
            number, body))
    if kind == "except":
        return ("try:\n    raise KeyError({0})\nexcept KeyError:\n"
                "{1}".format(number, body))
    if kind == "argument":
        return ("def place{0}():\n{1}\n    return {0}\n"
                "print(max(1, place{0}()), place{0}())".format(number, body))
    if kind == "generator":
        return ("def place{0}():\n{1}\n    yield {0}\n"
                "print(list(place{0}()))".format(number, body))
    raise ValueError(kind)


KINDS = ["module", "function", "method", "loop", "while", "if", "try",
         "except", "generator", "argument"]
