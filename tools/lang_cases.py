"""control flow and data structures of the language, on concrete values (see vocab.py)"""
import itertools
import numpy as np

E = np.array([[-1.0, 0.5], [-0.25, 1.0]])
V = np.array([3.0, 1.0, 2.0, 5.0])


class Anchor:
    pass


class Acc:
    scale = 2.0

    def __init__(self, x, n=3):
        self.x = x
        self.n = n
        self.items = []

    def add(self, v):
        self.items.append(v * self.scale)
        return self

    @property
    def total(self):
        return sum(self.items)

    def __call__(self, y):
        return self.x * y + self.n

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)

    @staticmethod
    def twice(x):
        return 2 * x

    @classmethod
    def make(cls, x):
        return cls(x, n=7)


class Sub(Acc):
    scale = 3.0

    def add(self, v):
        super().add(v + 1)
        return self


def alloc_in_loop():
    t = 0
    for a, b in E:
        e = np.linspace(a, b, 3)
        s = np.zeros(len(e))
        for n, x in enumerate(e):
            s[n] = x * x
        t = t + np.sum(s) * b
    return t


def alloc_kept():
    out = []
    for a, b in E:
        s = np.zeros(2)
        s[0] = a
        s[1] += b
        out.append(s)
    return out


def alloc_alias():
    prev = None
    t = 0
    for k in range(3):
        s = np.zeros(2) + k
        if prev is not None:
            prev[0] = 10 * k
            t = t + prev.sum() + s.sum()
        prev = s
    return t, prev


def list_in_loop():
    out = []
    for k in range(3):
        row = []
        for j in range(k + 1):
            row.append(j * k)
        out.append(row)
    out[1].append(99)
    return out


def dict_in_loop():
    d = {}
    for k in range(3):
        d[k] = []
        d[k].append(k)
    d[1].append(5)
    return [d[k] for k in sorted(d)]


def objects_in_loop():
    xs = [Acc(k) for k in range(3)]
    xs[1].add(4.0)
    xs[2].add(1.0).add(2.0)
    return [x.total for x in xs], [x(2) for x in xs]


def object_methods():
    s = Sub(1.0)
    s.add(2.0)
    s.add(3.0)
    return s.total, s[1], len(s), Sub.twice(4), Sub.make(2.0)(3.0)


def while_loop():
    a, b, n = 0, 1, 0
    while b < 50:
        a, b = b, a + b
        n += 1
    return a, b, n


def while_else():
    i = 0
    while True:
        i += 1
        if i == 3:
            continue
        if i > 5:
            break
    else:
        i = 100
    return i


def for_else():
    r = []
    for t in (2, 7):
        for x in V:
            if x > t:
                r.append(x)
                break
        else:
            r.append(-1.0)
    return r


def nested_break():
    c = 0
    for i in range(4):
        for j in range(4):
            if j > i:
                break
            c += 10 * i + j
    return c


def early_return():
    def f(x):
        for i, v in enumerate(V):
            if v == x:
                return i
        return -1
    return [f(1.0), f(5.0), f(9.0)]


def closure_counter():
    n = 0

    def inc(k):
        nonlocal n
        n += k
        return n
    inc(2)
    inc(3)
    return n


def default_capture():
    fs = [lambda x, k=k: x * k for k in range(3)]
    return [f(5) for f in fs]


def late_capture():
    fs = [lambda x: x * k for k in range(3)]
    return [f(5) for f in fs]


def try_flow():
    out = []
    for k in (1, 0):
        try:
            if k == 0:
                raise ValueError("no")
            out.append(1.0)
        except ValueError:
            out.append(2.0)
        else:
            out.append(3.0)
        finally:
            out.append(4.0)
    return out


def star_args():
    def f(a, *b, c=1, **d):
        return a + sum(b) * c + d.get("z", 0)
    return [f(1), f(1, 2, 3), f(*[1, 2], c=3), f(1, **{"z": 9, "c": 2})]


def unpack():
    a, *b, c = [1, 2, 3, 4]
    (d, e), f = (5, 6), 7
    return [a, c, d, e, f] + b


def comprehension():
    return [[i * j for j in range(3) if j != i] for i in range(3)]


def dict_comp():
    d = {k: v for k, v in zip("abc", V)}
    return [d["a"], d["c"], len(d), sum(d.values())]


def set_ops():
    s = {1, 2, 3} | {4}
    return [len(s), 4 in s, len(s & {1, 9}), sorted(s - {2})]


def chained():
    x = 3
    return [1 < x < 5, 1 < x < 2, not x == 3, x if x > 5 else -x]


def string_ops():
    a = "a,b,c".split(",")
    return [len(a), "x{}".format(1) == "x1", "abc"[::-1] == "cba", "abc".index("c")]


def generator():
    def g(n):
        for i in range(n):
            if i % 2:
                yield i * i
    return list(g(6)), sum(x for x in g(6))


def zip_swap():
    a = [[1, 2], [3, 4], [5, 6]]
    t = list(zip(*a))
    return [list(x) for x in t], [list(x) for x in itertools.product((0, 1), (2, 3))]


def slices():
    l = list(range(6))
    l[1:3] = [9]
    del l[0]
    return l, l[::-1], l[-2:]


def aug_view():
    a = np.zeros((2, 3))
    for r in a:
        r += 1
    b = a[:, 1]
    b *= 5
    a[0][2] = 7
    return a


def aug_alias():
    a = np.zeros(3)
    b = a
    b += 1
    c = a
    c = c + 1
    return a, c


def list_alias():
    a = [1, 2]
    b = a
    b += [3]
    c = a + [4]
    return a, c


def tuple_accum():
    t = ()
    for i in range(3):
        t += (i,)
    return t


def reduce_matrix():
    m = np.eye(2)
    p = np.array([[1.0, 1.0], [0.0, 1.0]])
    for _ in range(5):
        m = m @ p
    return m


def rec():
    def f(n):
        return 1 if n <= 1 else n * f(n - 1)
    return f(6)


def sort_key():
    l = [(2, "b"), (1, "c"), (3, "a")]
    return [x[0] for x in sorted(l, key=lambda x: x[1])], max(l, key=lambda x: x[0])[0], [i for i in reversed([1, 2, 3])]


def index_of_min():
    best, arg = None, -1
    for i, v in enumerate(V):
        if best is None or v < best:
            best, arg = v, i
    return best, arg


def bool_mask_loop():
    out = np.zeros(4)
    for i in range(4):
        m = V > i
        out[m] += V[m]
    return out


def walrus():
    n = 0
    while (m := n * n) < 20:
        n += 1
    return n, m


def match_none():
    def f(a=None, b=None):
        a = a or 3
        if b is None:
            b = a
        return a * b
    return [f(), f(2), f(0, 5), f(b=4)]


def swap_rows():
    a = np.arange(6.0).reshape(3, 2)
    a[[0, 2]] = a[[2, 0]]
    x, y = a[0, 0], a[1, 1]
    a[0, 0], a[1, 1] = y, x
    return a


def loop_rebinding():
    x = np.zeros(2)
    for k in range(3):
        y = x
        x = np.zeros(2) + k
        y[0] = 100
    return x, y


def stack_machine():
    st = [1]
    seen = []
    while st:
        v = st.pop()
        seen.append(v)
        if v < 8:
            st.append(2 * v)
            st.append(2 * v + 1)
    return seen


def conditional_def():
    if len(V) > 2:
        def h(x):
            return x + 1
    else:
        def h(x):
            return x - 1
    return h(3)


def del_and_get():
    d = {"a": 1, "b": 2}
    del d["a"]
    return [len(d), d.get("a", 7), d.pop("b"), len(d), d.setdefault("q", 4), d["q"]]


def assert_flow():
    x = 3
    assert x == 3, "three"
    return x


def int_arith():
    return [7 // 2, -7 // 2, -7 % 3, 2 ** 10, 7 & 3, 5 | 8, 6 ^ 3, 1 << 4, divmod(17, 5)[1], abs(-3), round(2.5), round(3.5), int(-2.7), float(3)]


def nested_obj_array():
    a = Acc(np.zeros(2))
    b = Acc(a.x)
    b.x[0] = 5
    b.n += 2
    return a.x, a.n, b.n


def attr_swap():
    a, b = Acc(1), Acc(2)
    a.x, b.x = b.x, a.x
    return a.x, b.x


def with_ctx():
    import contextlib

    @contextlib.contextmanager
    def c(v):
        yield v + 1
    with c(3) as z:
        r = z * 2
    return r


def any_all():
    return [any(v > 4 for v in V), all(v > 4 for v in V), any([]), all([])]


def accumulate_dict():
    count = {}
    for x in [1, 2, 1, 3, 1]:
        count[x] = count.get(x, 0) + 1
    return [count[k] for k in (1, 2, 3)]


def enumerate_start():
    return [[i, v] for i, v in enumerate([5, 6], 3)]


def two_rets():
    def f(x):
        if x > 0:
            return x, 1
        return -x, 0
    a, s = f(-4)
    b, t = f(4)
    return a, s, b, t


def iter_tools():
    import functools
    return [list(itertools.chain([1, 2], (3,))), [list(x) for x in itertools.permutations([1, 2, 3], 2)], [list(x) for x in itertools.combinations(range(3), 2)],
            functools.reduce(lambda a, b: a * b, [1, 2, 3, 4]), functools.reduce(np.add, [V, V, V]), list(itertools.accumulate([1, 2, 3])), [list(x) for x in itertools.product((0, 1), repeat=2)]]


def next_idiom():
    return [next(i for i, v in enumerate(V) if v > 2.5), next((v for v in V if v > 7), -1), next(iter([4, 5]))]


def set_methods():
    s = set()
    s.add(3)
    s.add(3)
    s.update([1, 2])
    s.discard(1)
    s |= {9}
    return sorted(s), len(s), 3 in s, sorted(s.union([7])), sorted({x % 2 for x in range(5)})


def two_generators():
    def g(k):
        for i in range(3):
            yield i * k
    a, b = g(1), g(2)
    return [x + y for x, y in zip(a, b)]


def gen_yield_from():
    def inner(n):
        yield from range(n)

    def outer():
        for k in (1, 2):
            yield from inner(k)
            yield 9
    return list(outer())


def map_filter():
    return list(map(lambda x: x + 1, [1, 2])), [x for x in filter(lambda x: x > 1, [1, 2, 3])], list(map(lambda x, y: x * y, [1, 2], [3, 4]))


def partial_fn():
    import functools
    f = functools.partial(lambda a, b, c=0: a - b + c, 10, c=5)
    return f(3)


def sorted_argsort():
    k = np.array([3.0, 1.0, 2.0])
    idx = sorted(range(len(k)), key=lambda i: k[i])
    return idx, [k[i] for i in idx], sorted(V, reverse=True)


def pop_all():
    q = [1, 2, 3]
    out = []
    while len(q) > 0:
        out.append(q.pop(0))
    return out


def none_default_list(a=None):
    a = [] if a is None else a
    a.append(1)
    return a


def early_continue():
    out = []
    for i in range(5):
        if i % 2:
            continue
        out.append(i)
    return out


def ternary_chain():
    return [("a" if x < 2 else "b" if x < 4 else "c") == "b" for x in V]


def tuple_keys():
    d = {}
    for i, j in itertools.product(range(2), range(2)):
        d[(i, j)] = i - j
    return [d[(1, 0)], d[0, 1], len(d), (0, 0) in d, (5, 5) in d]


def list_mul():
    a = [0] * 3
    a[1] = 5
    b = [[0] * 2 for _ in range(2)]
    b[0][1] = 1
    return a, b


def string_build():
    t = ""
    for c in "xyz":
        t += c.upper()
    return [t == "XYZ", "-".join(["a", "b"]) == "a-b", f"{3}{'q'}" == "3q", "abc".startswith("ab"), "%d" % 3 == "3", "b" in "abc"]
