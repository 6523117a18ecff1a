"""Programs for the comparison of the generator with CPython (tools/selftest.py).

The annotations say which arguments are generated: str, int, bool, 'opt' (str or None), 'list' (of str), 'dict' (str to str).
"""
import re


class Base:
    LIMIT = 3
    names = []

    def __init__(self, title=None):
        self.title = title
        self._count = 0

    @property
    def count(self):
        return self._count

    @count.setter
    def count(self, value):
        if value < 0:
            raise ValueError('negative')
        self._count = value

    def label(self):
        return f'{self.title}-{self._count}'


class Derived(Base):

    def __init__(self, title, tags=None):
        super().__init__(title)
        self.tags = tags or []

    def label(self):
        return 'D' + super().label()


class Failure(Exception):
    pass


def branches(a: int, b: int):
    if a < b:
        r = a + 1
    elif a == b:
        r = a * b
    else:
        r = a - b
        if r > 2:
            return -r
    return r


def arithmetic(a: int, b: int):
    if b == 0:
        return None
    return (a // b, a % b, abs(a), min(a, b), max(a, b), -a)


def texts(s: str, t: str):
    return (s + t, s.startswith(t), s.endswith(t), t in s, len(s), s.find(t), s == t)


def slices(s: str, n: int):
    return (s[1:], s[:2], s[-1:], s[:-1], s[1:3], s[0:1])


def strips(s: str):
    return (s.strip(), s.lstrip(), s.rstrip(), s.strip(' '), bool(s))


def replace_all(s: str, t: str):
    return s.replace('a', t)


def cut(s: str):
    parts = s.split(',')
    return len(parts)


def formatted(s: str, n: int):
    return f'<{s}|{n}>' + '%' + str(n)


def number(s: str):
    try:
        return int(s)
    except ValueError:
        return -1


def optional(o: 'opt', s: str):
    if o is None:
        return s
    if o:
        return o + s
    return not o


def defaulted(o: 'opt', s: str):
    return o or s


def conditional(o: 'opt', s: str):
    return (o == s, o is None, o is not None and o < s, bool(o))


def collect(names: 'list'):
    result = []
    for n in names:
        if not n:
            continue
        if n in result:
            continue
        if len(result) >= 3:
            break
        result.append(n)
    else:
        result.append('end')
    return result


def counted(names: 'list'):
    i = 0
    total = 0
    while i < len(names):
        total += len(names[i])
        i += 1
    return total


def comprehension(names: 'list', s: str):
    return [n + s for n in names if n != s]


def joined(names: 'list', s: str):
    return s.join(names)


def enumerated(names: 'list'):
    out = []
    for i, n in enumerate(names, start=1):
        out.append((i, n))
    return out


def indexed(names: 'list', n: int):
    try:
        return names[n]
    except IndexError:
        return 'none'


def removed(names: 'list', s: str):
    try:
        names.remove(s)
    except ValueError:
        names.insert(0, s)
    return names


def lookup(d: 'dict', s: str):
    try:
        return d[s]
    except KeyError:
        return d.get(s, 'default')


def stored(d: 'dict', s: str):
    old = s in d
    d[s] = 'new'
    if 'a' in d:
        del d['a']
    return (old, len(d), d.get('a'), d.get(s))


def over_items(d: 'dict'):
    result = {}
    for k, v in d.items():
        result[v] = k
    return len(result)


def tried(s: str, n: int):
    done = []
    try:
        done.append('try')
        if n > 3:
            raise Failure(s)
        if n > 1:
            raise KeyError(s)
    except Failure as ex:
        done.append(str(ex))
    except KeyError:
        done.append('key')
    else:
        done.append('else')
    finally:
        done.append('finally')
    return done


def failing(s: str, n: int):
    if n > 2:
        raise Failure('big')
    if not s:
        raise ValueError
    return s[0]


def returned_in_finally(n: int):
    try:
        if n > 0:
            return 'body'
        raise Failure('x')
    except Failure:
        return 'handler'
    finally:
        n += 1


def objects(s: str, n: int):
    b = Base(s)
    d = Derived(s, ['t'])
    try:
        b.count = n
        d.count = n + 1
    except ValueError:
        return 'bad'
    return (b.label(), d.label(), d.count, b.LIMIT, isinstance(d, Base), isinstance(b, Derived), d.tags)


def shared(s: str):
    a = []
    b = a
    c = list(a)
    b.append(s)
    return (a, c, a is b, a == c)


def closures(s: str, n: int):
    def add(x):
        return x + s

    f = lambda y, k=n: add(y) + str(k)
    return f('p') + f('q', 7)


def starred(s: str, n: int):
    def inner(first, *rest, sep='-', **more):
        return (first, len(rest), sep, sorted(more))
    return inner(s, n, n, sep=s, z=1, a=2)


def generated(names: 'list'):
    def gen():
        for n in names:
            if n:
                yield n
        yield 'last'
    return list(gen())


def unpacked(s: str, n: int):
    a, (b, c) = s, (n, s)
    a, c = c + 'x', a
    x = y = n
    x += 1
    return (a, b, c, x, y)


def chained(a: int, b: int, n: int):
    return (a < b < n, a <= b != n, a < b or b < n and not a, (a or b), (a and b))


def walrus_like(s: str):
    n = len(s)
    while n > 0 and s[n - 1] == 'b':
        n -= 1
    return s[:n]


def alternating(names: 'list'):
    flag = False
    total = ''
    for n in names:
        flag = not flag
        total = total + n if flag else n + total
    return total


def nested(names: 'list'):
    pairs = []
    for a in names:
        for b in names:
            if a < b:
                pairs.append(a + b)
                break
    return pairs


def truthy(names: 'list', d: 'dict', o: 'opt', n: int):
    return [bool(names), bool(d), bool(o), bool(n), not names]
