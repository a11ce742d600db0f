"""Programs on which the verifier's model of Python and numpy is compared with the real ones.
The defaults of the parameters describe the arguments (see pyvc/conform.py)."""
import numpy as np


# ---------------------------------------------------------------- element-wise

def elementwise(a="n,m", b="n,m"):
    return a + b, a - b, a * b, -a, a ** 2, abs(a), 2 * a, a - 1, 1 - a, +a


def divide(a="n,m", b="+n,m"):
    return a / b, np.divide(a, b), 1 / b, np.reciprocal(b), b / 2


def functions(a="+n", b="n"):
    return (np.sqrt(a), np.exp(b), np.log(a), np.square(b), np.sign(b), np.negative(b), np.sin(b), np.cos(b),
            np.abs(b), np.log1p(a), np.expm1(b))


def broadcast_rows(a="n,m", r="m", c="n,1"):
    return a + r, a * c, a - r[None, :], r + c, np.multiply(a, r), np.subtract(r, a)


def broadcast_scalar_array(a="n,m", s=""):
    return a * s, s - a, a / 2, a + np.array(s), np.full((2, 3), s)


def broadcast_mismatch(a="n,m", r="n"):
    return a + r


def maxmin(a="n,m", b="n,m", r="m"):
    return np.maximum(a, b), np.minimum(a, r), np.clip(a, -0.5, 0.5), np.maximum(a, 0)


def powers(a="+n"):
    return a ** 0.5, a ** -1, a ** 3, np.power(a, 2), a ** -0.5


def comparisons(a="n,m", b="n,m"):
    return a < b, a <= b, a > b, a >= b, a == a, a != b, (a < b) & (a > 0), (a < b) | (a > 0), ~(a < b)


def logic(a="?n", b="?n"):
    return a & b, a | b, ~a, np.logical_and(a, b), np.logical_or(a, b), np.logical_not(a), a * 1, a + b


def where(a="n,m", b="n,m"):
    return np.where(a < b, a, b), np.where(a > 0, 1, 0), np.where(a > 0, a, 0.0)


def rounding(a="n"):
    return np.floor(a), np.ceil(a), np.round(a, 1), np.round(a), a.astype(int)


def integers(k="!n"):
    return k // 2, k % 3, k * 2, k + 1, k / 2, k.astype(float) / 2, k == 0


def bool_arith(a="?n", x="n"):
    return a * x, a.sum(), a.mean(), a.astype(int), a.astype(float) + x, x[a].sum()


# ---------------------------------------------------------------- reductions

def sums(a="n,m"):
    return (np.sum(a), a.sum(axis=0), a.sum(axis=1), a.sum(axis=-1), a.sum(axis=0, keepdims=True),
            np.mean(a), a.mean(axis=0), a.mean(axis=1), np.mean(a, axis=1, keepdims=True))


def products(a="n,m"):
    return np.prod(a), a.prod(axis=0), np.prod(a, axis=1), np.prod(a, axis=-1)


def spread(a="n,m"):
    return np.std(a), np.std(a, axis=0), np.var(a, axis=1), a.std(axis=1), a.var()


def extremes(a="n,m"):
    return a.max(), a.min(), a.max(axis=0), np.amin(a, axis=1), np.argmax(a[0]), np.argmin(a[:, 0]), np.ptp(a[0])


def argmax_axis(a="n,m"):
    return np.argmax(a, axis=0), np.argmin(a, axis=1), a.argmax()


def weighted(a="n,m", w="+n"):
    return np.average(a, axis=0, weights=w), np.average(a[:, 0], weights=w), np.average(a)


def all_any(a="?n,m"):
    return np.all(a), np.any(a), a.all(axis=0), a.any(axis=1), np.count_nonzero(a), np.sum(a)


def reduce_ufuncs(a="n,m"):
    return np.add.reduce(a), np.multiply.reduce(a, axis=1), np.maximum.reduce(a), np.minimum.reduce(a, axis=1)


def norms(a="n,m", x="n"):
    return (np.linalg.norm(x), np.linalg.norm(a), np.linalg.norm(a, axis=0), np.linalg.norm(a, axis=1, keepdims=True),
            np.linalg.norm(a.ravel()), np.linalg.norm(a.reshape(-1)))


def flat_and_table_sums(a="n*m", b="n,m", u="n", v="m"):
    return (np.sum(a.reshape((-1, b.shape[1]))), np.sum(b.ravel() * a), np.sum(a.reshape(b.shape) * b),
            np.sum(a.reshape(b.shape).T), (a.reshape(b.shape) * u[:, None] * v).sum(),
            np.linalg.norm(a.reshape(b.shape)[::1]), (np.repeat(u, len(v)) * a).sum(), (np.tile(v, len(u)) * a).sum())


# ---------------------------------------------------------------- shapes

def reshapes(a="n,m,k"):
    n, m, k = a.shape
    return (a.reshape(n * m, k), a.reshape(n, m * k), a.reshape(-1), a.ravel(), a.flatten(), a.reshape(-1, k),
            a.reshape((m, n, k)), np.reshape(a, (k, -1)), a.reshape(n, -1), a.reshape(1, -1), a.reshape(-1, 1))


def reshape_order(a="n,m"):
    return a.reshape(-1, order="F"), a.T.ravel(), a.ravel("F"), a.reshape(a.shape[1], a.shape[0], order="F")


def reshape_back(a="n*m", d="n,m"):
    n, m = d.shape
    b = a.reshape(n, m)
    return b, b.T, b.T.reshape(-1), b.reshape(-1), b[:, 0], b[0]


def transposes(a="n,m,k"):
    return a.T, a.transpose(1, 0, 2), np.transpose(a, (2, 0, 1)), a.swapaxes(0, 2), np.moveaxis(a, 0, -1)


def squeezes(a="n,1,m", x="n"):
    return a.squeeze(axis=1), np.squeeze(a, 1), np.expand_dims(x, 0), np.expand_dims(x, -1), x[None], x[:, None]


def squeeze_all(a="n,m"):
    return np.squeeze(a), a.squeeze()


def at_least(x="n", s="", a="n,m"):
    return np.atleast_1d(s), np.atleast_2d(x), np.atleast_2d(a), np.atleast_1d(x), np.atleast_2d(s)


def sizes(a="n,m"):
    return a.shape, a.ndim, a.size, len(a), np.shape(a), np.ndim(a), np.size(a), a.shape[-1]


def dims_only(n="#n", m="#m"):
    return np.zeros(n), np.ones((n, m)), np.eye(n), np.zeros((m, 2)), np.full((n, 2), 3.0), np.arange(n), np.identity(m)


def aranges(n="#n"):
    return np.arange(n), np.arange(1, n + 1), np.arange(0, 2 * n, 2), np.arange(n) * 0.5, np.arange(n)[::-1]


def linspaces(n="#n"):
    return np.linspace(0, 1, n + 1), np.linspace(-1, 1, 5), np.linspace(0, 2, n + 1)[1:], np.linspace(0, 1, n)


# ---------------------------------------------------------------- indexing

def slices(a="n,m"):
    return a[0], a[-1], a[:, 0], a[:, -1], a[1:], a[:-1], a[:, 1:], a[::-1], a[:, ::-1], a[0, 0], a[-1, -1], a[...], a[:1]


def slice_dims(a="n+0,m" if False else "n,m", k="#k"):
    return a[:k], a[k:], a[:, :k], a[-k:], a[:-k]


def steps(a="n"):
    return a[::2], a[1::2], a[::-1][:2], a[-2:]


def out_of_range(a="n,m", k="#k"):
    return a[k]


def new_axes(a="n,m"):
    return a[None], a[:, None], a[..., None], a[None, :, None, :], a[:, None, :].shape


def index_arrays(a="n,m", i="@n:k", j="@m:k"):
    return a[i], a[:, j], a[i, j], a[i][:, j], np.take(a, i, axis=0)


def index_ixgrid(a="n,m", i="@n:k", j="@m:p"):
    return a[i[:, None], j[None, :]], a[i, :][:, j], a[i[:, None], j]


def masks(a="n,m", u="?n", v="?m"):
    return a[u], a[:, v], a[u][:, v], a[u].sum(axis=0), a[u].shape, u.sum(), a[u, 0]


def mask_lists(a="n", i="@n:k"):
    return a[[0]], a[list(i)] if False else a[i], a[[0, -1]]


def scalar_index(a="n,m", i="@n:k"):
    return a[i[0]], a[i[-1], 0], a[int(i[0])]


# ---------------------------------------------------------------- stores, views, aliases

def stores(a="n,m", r="m"):
    b = a.copy()
    b[0] = r
    b[:, 0] = 1.0
    b[-1, -1] = 7
    return a, b


def store_slices(a="n,m"):
    b = np.zeros(a.shape)
    b[1:] = a[1:]
    b[:, -1] += 1
    c = a.copy()
    c[:] = 0
    c[0, :] -= 3
    return b, c


def store_mask(a="n,m", u="?n", v="?m"):
    b = a.copy()
    b[u] = 0
    c = a.copy()
    c[:, v] *= 2
    return b, c


def store_condition(a="n,m"):
    b = a.copy()
    b[b < 0] = 0
    c = a.copy()
    c[c > 0] += 1
    return b, c


def store_indices(a="n,m", x="m"):
    b = a.copy()
    b[[0]] = x
    b[:, [0]] = 5
    return b


def views(a="n,m"):
    v = a[0]
    w = a.T
    f = a.reshape(-1)
    v += 1
    w[0] *= 2
    f[0] = 9
    return a, v, w, f


def view_chain(a="n,m"):
    v = a[:, ::-1]
    w = v.T
    w[0] = 4
    u = a[1:]
    u -= 1
    return a, v, w, u


def copies(a="n,m"):
    c = a.copy()
    f = a.flatten()
    d = np.array(a)
    e = np.asarray(a)
    c += 1
    f += 2
    d += 3
    e += 4
    return a, c, f, d, e


def ravel_shares(a="n,m"):
    r = a.ravel()
    r *= 2
    t = a.T.ravel()
    t *= 5
    return a, r, t


def inplace(a="n,m", b="n,m"):
    c = a
    c += b
    a = a * 2
    return a, c


def inplace_function(a="n,m", r="m"):
    def f(x):
        x -= r
        return x
    y = f(a)
    return a, y


def augmented_items(a="n"):
    d = {"k": a}
    d["k"] += 1
    l = [a, a]
    l[0] *= 2
    return a, d, l


def fill(a="n,m"):
    b = np.empty(a.shape)
    b.fill(3)
    c = np.empty_like(a)
    c[...] = a
    return b, c, np.full_like(a, 2), np.zeros_like(a), np.ones_like(a)


# ---------------------------------------------------------------- linear algebra

def matmuls(a="n,m", b="m,k", x="m", y="n"):
    return a @ b, a @ x, y @ a, a.dot(b), np.dot(a, x), np.matmul(a, b), a.T @ y, a.T @ a, y @ y, np.inner(x, x)


def mismatched(a="n,m", b="k,p"):
    return a @ b


def outers(x="n", y="m"):
    return np.outer(x, y), x[:, None] * y, np.multiply.outer(x, y), np.subtract.outer(x, y)


def einsums(a="n,m", b="m,k", x="m"):
    return (np.einsum("ij,jk->ik", a, b), np.einsum("ij,j->i", a, x), np.einsum("ij,ij->i", a, a),
            np.einsum("ij->ji", a), np.einsum("i,ij,j->", a[:, 0], a, x), np.einsum("ij,kj->ik", a, a))


def traces(a="n,n"):
    return np.trace(a), np.diag(a), a.diagonal(), np.diag(a[0]), np.diag(np.diag(a)), a.trace()


def inverses(s="sn,n", b="n,m"):
    return np.linalg.inv(s), np.linalg.inv(s) @ b, np.linalg.solve(s, b), b.T @ np.linalg.inv(s) @ b, np.linalg.pinv(s)


def inverse_scaled(s="sn,n"):
    return np.linalg.inv(2 * s), np.linalg.inv(s.T), np.linalg.inv(s) * 3, np.linalg.inv(s * 0.5) @ s


def inverse_general(a="n,n", b="n"):
    c = a + 5 * np.eye(a.shape[0])
    return np.linalg.inv(c), np.linalg.inv(c.T), np.linalg.solve(c, b), c @ np.linalg.inv(c)


def not_square(a="n,m"):
    return np.linalg.inv(a) if a.shape[0] != a.shape[1] else 0


def pseudo(a="n,m", b="n"):
    return np.linalg.pinv(a), np.linalg.pinv(a) @ b, np.linalg.pinv(a.T), np.linalg.pinv(2 * a)


def svds(a="n,m"):
    u, s, v = np.linalg.svd(a, full_matrices=False)
    return s, u.shape, v.shape, np.linalg.svd(a, compute_uv=False)


def svd_full(a="n,m"):
    u, s, v = np.linalg.svd(a)
    return u.shape, s, v.shape


def multi(a="n,m", b="m,k", c="k,p"):
    return np.linalg.multi_dot([a, b, c])


# ---------------------------------------------------------------- joining

def stacks(a="n,m", b="k,m", x="m", y="m"):
    return (np.vstack([a, b]), np.concatenate([a, b]), np.concatenate((a, b), axis=0), np.vstack((x, y)), np.stack([x, y]),
            np.hstack([x, y]), np.column_stack((x, y)), np.stack([x, y], axis=1), np.concatenate([x, y]))


def hstacks(a="n,m", b="n,k"):
    return np.hstack([a, b]), np.concatenate([a, b], axis=1), np.concatenate([a, b], axis=-1)


def stack_mismatch(a="n,m", b="k,p"):
    return np.vstack([a, b])


def repeats(x="n", a="n,m"):
    return np.repeat(x, 3), np.tile(x, 2), np.repeat(a, 2, axis=0), np.tile(a, (2, 1)), np.repeat(x, len(x))


def meshes(x="n", y="m"):
    X, Y = np.meshgrid(x, y)
    return X, Y, np.vstack([X.ravel(), Y.ravel()]).T


def arrays_from_lists(x="n", y="n", s=""):
    return np.array([x, y]), np.array([[1.0, s], [s, 2.0]]), np.array([s, 1, 2]), np.array((x,)), np.asarray([1, 2])


def diffs(x="n"):
    return np.diff(x), np.flip(x), x[1:] - x[:-1]


def tests(a="n,m", b="n,m", s=""):
    return np.array_equal(a, a), np.allclose(a, a), np.isnan(a), np.isfinite(a), np.isscalar(s), np.isclose(a, a)


def items(x="n"):
    return float(x[0]), x[0].item(), x[:1].item(), x.tolist()[0], int(3.7), float(x[-1]) * 2


# ---------------------------------------------------------------- python: loops, lists, comprehensions

def loop_sum(x="n"):
    s = 0
    for v in x:
        s += v
    return s


def loop_index_sum(a="n,m"):
    s = 0.0
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            s = s + a[i, j] * (i + 1)
    return s


def loop_rows(a="n,m"):
    t = np.zeros(a.shape[1])
    for row in a:
        t += row
    return t


def loop_store(x="n", y="n"):
    out = np.empty(len(x))
    for k in range(len(x)):
        out[k] = x[k] * y[k] + k
    return out


def loop_store_rows(a="n,m"):
    out = np.zeros(a.shape)
    for k, row in enumerate(a):
        out[k] = row * 2
        out[k, 0] += 1
    return out


def loop_store_columns(a="n,m"):
    out = np.ones(a.shape)
    for j in range(a.shape[1]):
        out[:, j] = a[:, j] - j
    return out


def loop_store_partial(x="n"):
    out = x.copy()
    for k in range(1, len(x)):
        out[k] = 10 * x[k - 1]
    return out


def loop_store_scaled(x="n", y="n"):
    out = x.copy()
    for k in range(len(x)):
        out[k] *= y[k]
    return out, x


def loop_product(a="n,m"):
    p = np.ones(a.shape[1])
    for row in a:
        p = p * row
    q = 2.0
    for v in a[0]:
        q *= v
    return p, q


def loop_product_inplace(a="n,m"):
    p = np.ones(a.shape[1])
    for i in range(len(a)):
        p *= a[i]
    return p


def loop_append(a="n,m"):
    out = []
    for row in a:
        out.append(row.sum())
    return out, np.array(out), len(out)


def loop_append_two(a="n,m"):
    u, v = [], []
    for i, row in enumerate(a):
        u.append(row * 2)
        v.append(i)
    return u, v, np.array(u), np.vstack(u)


def loop_append_pairs(x="n", y="n"):
    out = []
    for p, q in zip(x, y):
        out.append(p)
        out.append(q)
    return len(out), out


def loop_count(x="n"):
    c = 0
    for _ in x:
        c += 1
    return c, c + 1


def loop_last(x="n"):
    last = 0.0
    for v in x:
        last = v
    return last


def loop_previous(x="n"):
    prev, out = 0.0, []
    for v in x:
        out.append(v - prev)
        prev = v
    return out, prev


def loop_carried(x="n", s=""):
    c = s
    for v in x:
        c = 0.5 * c + v
    return c


def loop_carried_list(x="n", s=""):
    out = [s]
    for v in x:
        out.append(out[-1] * 0.5 + v)
    return out


def loop_until(x="n"):
    for i, v in enumerate(x):
        if v > 0:
            return i, v
    return -1, 0.0


def loop_raise(x="n"):
    for v in x:
        if v > 1:
            raise ValueError("too big")
    return x * 2


def loop_all_check(x="n"):
    ok = True
    for v in x:
        if not v > -1:
            raise TypeError("small")
    return ok


def loop_break(x="n"):
    k = 0
    for v in x:
        k = k + 1
        break
    return k


def loop_zip3(x="n", y="n", z="n"):
    return [a * b - c for a, b, c in zip(x, y, z)]


def comprehension(x="n"):
    return [v * 2 for v in x], [i for i in range(len(x))], np.array([v ** 2 for v in x]), [v for v in x][0]


def comprehension_nested(a="n,m"):
    return np.array([[v + 1 for v in row] for row in a]), [row.sum() for row in a], sum(r[0] for r in a)


def comprehension_table(a="n,m"):
    return np.array([[a[i, j] * i - j for j in range(a.shape[1])] for i in range(a.shape[0])])


def comprehension_cond(x="n"):
    return all(v < 10 for v in x), any(v > 0 for v in x), all([v < 10 for v in x])


def generators(x="n", y="n"):
    return sum(p * q for p, q in zip(x, y)), max(x), min(y), sum(x)


def list_ops(x="n"):
    l = [1, 2]
    l.append(3)
    l = l + [4]
    l[0] = 7
    l.extend([5, 6])
    return l, l[-1], l[1:3], len(l), 3 in l, l.index(4), list(reversed(l)), l * 2


def list_of_arrays(q="*3,n", w="*2,n"):
    return np.array(q), np.vstack(q), q[0] + q[1], len(q), np.concatenate(q), sum(q)


def many_arrays(q="*k,n,m"):
    return np.array(q), np.vstack(q), q[0], len(q), sum(x.sum() for x in q)


def many_arrays_loop(q="*k,n"):
    t = np.zeros(q[0].shape)
    out = []
    for i, x in enumerate(q):
        t = t + x * i
        out.append(x.max())
    return t, out


def dicts(x="n", s=""):
    d = {"a": x, "b": s}
    d["c"] = x * 2
    d.update({"b": 1})
    return d, list(d), d.get("z"), "a" in d, len(d), d.pop("b"), sorted(d)


def default_args(x="n"):
    def f(a, b=2, *c, d=1, **e):
        return a * b + d + len(c) + len(e)
    return f(x), f(x, 3), f(x, 3, 4, d=2), f(x, q=1)


def swaps(x="n", y="n"):
    x, y = y, x
    a, *b = [1, 2, 3]
    return x, y, a, b


def tries(x="n", k="#k"):
    try:
        v = x[k]
    except IndexError:
        return -1.0
    return v


def branches(n="#n", s=""):
    if n > 3:
        r = "many"
    elif n == 1:
        r = "one"
    else:
        r = "few"
    return r, 1 if s > 0 else -1, n > 2 and s < 0, n > 2 or s < 0, not n > 1


def integer_arith(n="#n", m="#m"):
    return n // 2, n % 2, n * m, n - m, abs(n - m), max(n, m), min(n, m), n / m, n ** 2, -n, divmod(n, 2)


def range_arith(n="#n", m="#m"):
    return list(range(n)), list(range(1, n + 1)), len(range(n, n + m)), [i * m for i in range(n)]


def enumerate_start(x="n"):
    return [i * v for i, v in enumerate(x, 1)]


def sort_small(s="", t=""):
    return sorted([3, 1, 2]), max([1, 2]), min(1, 2)


def while_loop(n="#n"):
    i = 3
    t = 0
    while i > 0:
        t += i * n
        i -= 1
    return t


def closures(x="n"):
    fs = [lambda v, k=k: v * k for k in range(3)]
    return [f(x) for f in fs]


def classes(x="n"):
    class A:
        total = 0

        def __init__(self, v):
            self.v = v

        @property
        def twice(self):
            return self.v * 2

        def add(self, w):
            self.v = self.v + w
            return self
    a = A(x)
    b = a.add(1)
    return a.v, b.twice, a is b, A.total, hasattr(a, "w"), getattr(a, "w", 3)


def strings(n="#n"):
    return "a" + "b", "x".join(["1", "2"]), "abc".startswith("a"), "q_{}".format(3), "A".lower(), f"{1 + 1}"


def isinstances(x="n", s="", n="#n"):
    return (isinstance(x, np.ndarray), isinstance(s, float), isinstance(n, int), isinstance([1], list),
            isinstance(x, (list, tuple)), isinstance((1,), tuple), callable(len))


def mixed_kinds(k="!n", x="n"):
    return k + x, k * 0.5, (k > 0) * x, k.sum() / 2, x * (k == 0)


def masked_average(a="n,m", u="?n"):
    if u.sum() == 0:
        return 0.0
    return a[u].mean(axis=0)


def double_mask(a="n,m", u="?n", v="?m", w="n*m"):
    b = w.reshape(a.shape)
    c = b[u, :][:, v]
    return c.ravel(), c.sum(), np.linalg.norm(c), (c * a[u][:, v]).sum(axis=1)


def idx_flat(a="n,m", i="@n:k"):
    c = a[i]
    return c.reshape(-1), c.ravel().sum(), np.linalg.norm(c), c.reshape(1, -1)


def centred(a="n,m"):
    mu = a.mean(axis=0)
    c = a - mu
    return c.T @ c / a.shape[0], c.sum(axis=0) + 1, (c ** 2).sum()


def quadratic(a="n,m", s="sm,m", x="n"):
    return np.einsum("ij,jk,ik->i", a, s, a), ((a @ s) * a).sum(axis=1), np.diag(a @ s @ a.T), a.T @ np.diag(x) @ a


def tile_and_reshape(x="m", n="#n"):
    return np.tile(x, n).reshape(n, -1), np.repeat(x, n).reshape(-1, n), np.ones((n, 1)) * x


def pairs_interleaved(x="n", y="n"):
    z = np.zeros(2 * len(x))
    z[::2] = x
    z[1::2] = y
    return z


def store_mask_values(a="n,m", u="?n", v="?m", x="m"):
    b = a.copy()
    b[u] = x
    c = a.copy()
    c[u, 1:] = 0
    d = a.copy()
    d[:, v] = a[:, v] * 3 - 1
    return b, c, d


def bool_inplace(u="?n", v="?n"):
    u &= v
    w = u.copy()
    w |= v
    return u, w


def bool_inplace_number(u="?n"):
    u += 1
    return u


def bool_subtract(u="?n", v="?n"):
    return u - v


def sums_of_bools(u="?n", v="?n"):
    return (u & v).sum(), (u + v).sum(), (u * v).mean(), u.astype(int) + v


# ---------------------------------------------------------------- scipy.stats, random numbers, copies

from scipy.stats import norm, uniform  # noqa: E402
from scipy import stats  # noqa: E402


def normal_density(x="n", m="", s="+"):
    return norm.pdf(x), norm(m, s).pdf(x), norm.pdf(x, loc=m, scale=s), stats.norm(loc=m, scale=s).pdf(x), norm(0, 1).pdf(x[0])


def normal_log(x="n", m="", s="+"):
    s = s + 1
    return norm.logpdf(x), norm(m, s).logpdf(x), np.log(norm.pdf(x, m, s)), norm(m, s).pdf(x) / norm(m, s).pdf(m)


def normal_others(x="n", m="", s="+"):
    d = norm(m, s)
    return d.mean(), d.std(), d.var(), d.cdf(m), d.ppf(0.5)


def uniform_density(x="n", m="", s="+"):
    return uniform.pdf(x), uniform(m, s).pdf(x), uniform(loc=m, scale=s).pdf(x), uniform(m, s).logpdf(x)


def uniform_others(m="", s="+"):
    d = uniform(m, s)
    return d.mean(), d.std(), d.ppf(0.25), d.cdf(m)


def density_columns(a="n,m", x="m"):
    p = norm(0, 2).pdf(a)
    return np.prod(p, axis=1), np.prod(norm.pdf(a, loc=x), axis=1), p.shape


def deep_copies(x="n"):
    import copy
    d = {"a": x, "l": [x, 1]}
    e = copy.deepcopy(d)
    f = copy.copy(d)
    e["a"] += 1
    f["l"].append(2)
    return d, e, f


def nested_loops(a="n,m", x="m"):
    out = np.zeros((a.shape[0], a.shape[1]))
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[i, j] = a[i, j] * x[j] - i
    return out


def nested_loop_product(a="n,m", b="m,k"):
    out = np.zeros((a.shape[0], b.shape[1]))
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = 0.0
            for l in range(a.shape[1]):
                s += a[i, l] * b[l, j]
            out[i, j] = s
    return out


def loop_accumulate_rows(a="n,m"):
    out = np.zeros(a.shape)
    t = np.zeros(a.shape[1])
    for i in range(len(a)):
        t = t + a[i]
        out[i] = t
    return out, t


def loop_max(x="n"):
    best = x[0]
    for v in x:
        best = max(best, v)
    return best


def loop_mean(a="n,m"):
    mu = np.zeros(a.shape[1])
    for row in a:
        mu += row / len(a)
    c = 0.0
    for row in a:
        c += ((row - mu) ** 2).sum()
    return mu, c / a.shape[0]


def loop_dict(q="*3,n"):
    d = {}
    for k, v in enumerate(q):
        d[k] = v.sum()
    for k in d:
        d[k] = d[k] * 2
    return d, sorted(d.items())[0], [v for v in d.values()]


def loop_in_place_rows(a="n,m", x="m"):
    for row in a:
        row -= x
    return a


def loop_reversed(x="n"):
    out = []
    for v in x[::-1]:
        out.append(v)
    for i in range(len(x) - 1, -1, -1):
        out.append(x[i])
    return out


def loop_step(x="2*n"):
    t = 0.0
    for i in range(0, len(x), 2):
        t += x[i] * x[i + 1]
    return t


def loop_condition(x="n"):
    t = 0.0
    for v in x:
        if v > 0:
            t += v
    return t


def loop_condition_value(x="n"):
    out = []
    for v in x:
        out.append(v if v > 0 else -v)
    return np.array(out)


def loop_weights(w="*k,n"):
    t = w[0]
    for v in w[1:]:
        t = t * v
    return t, w[0]


def list_mutations(x="n"):
    l = [x]
    m = l
    m.append(x * 2)
    k = list(l)
    k.append(1)
    l.insert(0, 5)
    l.pop()
    return len(l), len(m), len(k), l is m, k[-1]


def array_of_lists(x="n", y="n"):
    return np.array(list(zip(x, y))), np.array([[p, q] for p, q in zip(x, y)]), np.array([x, y]).T


def array_truth(x="n", s=""):
    return bool(x.any()), bool(s > 0), (x > 0).all() or s > 0, len(x) > 0 and x[0] > 0


def ellipses(a="n,m,k"):
    return a[..., 0], a[0, ...], a[..., None].shape, a[..., 1:], a[:, 0, :]


def strange_slices(a="n,m", i="@n:1"):
    k = int(i[0])
    return a[k:k + 1], a[k:], a[:k + 1], a[k, :], a[-1:], a[:, -1:]


def keepdims(a="n,m"):
    return a.max(axis=1, keepdims=True), a - a.mean(axis=1, keepdims=True), a / np.abs(a).sum(axis=0, keepdims=True)


def scalar_reductions(s=""):
    return np.sum(s), np.max(s), np.mean(s), np.prod(s), np.abs(s), np.sqrt(s * s), np.size(s), np.ndim(s)


def matrix_powers(s="sm,m", a="n,m"):
    return s @ s, a @ s @ a.T, (a @ s).T, s.T @ a.T, np.linalg.inv(s) @ s, np.linalg.inv(np.linalg.inv(s))


def solves(s="sm,m", x="m", a="n,m"):
    return np.linalg.solve(s, x), np.linalg.solve(s, a.T).T, x @ np.linalg.inv(s) @ x


def one_by_one(s="+", x="n"):
    a = np.array([[s]])
    return np.linalg.inv(a), np.linalg.pinv(a), a @ a, a.item(), np.linalg.inv(s * np.eye(len(x)))


def diag_inverse(x="+n"):
    return np.linalg.inv(np.diag(x)), np.diag(1 / x), np.diag(x) @ x, np.diag(x) @ np.diag(x), np.linalg.pinv(np.diag(x))


def row_and_column(x="n"):
    r, c = x.reshape(1, -1), x.reshape(-1, 1)
    return r @ c, c @ r, r.T @ r, (r @ c).item(), np.linalg.norm(c), c.T


def vector_outer_inverse(x="+n", s="+"):
    r = x.reshape(1, -1)
    return np.linalg.inv(r @ r.T + s), r / (r @ r.T), np.linalg.pinv(r), np.linalg.pinv(r.T)


def least_squares(a="n,m", b="n", c="n,k"):
    return np.linalg.lstsq(a, b, rcond=None)[0], np.linalg.lstsq(a, c, rcond=1e-15)[0]


def least_squares_bad(a="n,m", b="k"):
    return np.linalg.lstsq(a, b, rcond=None)[0]


def conj(a="n,m"):
    return np.conj(a), a.conj().T, np.conjugate(a[0])


def range_steps(x="n"):
    out = []
    for i in range(0, len(x), 3):
        out.append(x[i])
    return out, [x[i] for i in range(len(x) - 1, -1, -2)], list(range(1, len(x), 2))


# ---------------------------------------------------------------- recursions without closed form (self-test of the verifier)

def _horner(a, x):
    s = 0.0
    for v in a:
        s = s * x + v
    return s


def _horner_again(a, x):
    s, t = 0.0, 1.0
    for i in range(len(a)):
        t = t * x * x + s
        s = a[i] + x * s
    return s


def _horner_start(a, x):
    s = 1.0
    for v in a:
        s = s * x + v
    return s


def _horner_step(a, x):
    s, t = 0.0, 0.0
    for v in a:
        t = s * x + v
        s = t * x + v
    return s


# ---------------------------------------------------------------- further numpy

def cumulative(a="n,m", x="n"):
    return np.cumsum(x), np.cumsum(a, axis=0), np.cumsum(a, axis=1)[:, -1], np.cumprod(x), np.cumsum(a)


def cumulative_last(x="n"):
    return np.cumsum(x)[-1] - np.sum(x), x.cumsum()[0]


def where_true(x="n", b="?n"):
    return np.nonzero(b)[0], np.flatnonzero(x > 0), x[np.nonzero(x > 0)[0]], np.where(x > 0)[0]


def appended(x="n", y="m", a="n,m"):
    return np.append(x, y), np.append(a, y), np.append(a, y[None, :], axis=0), np.append(x, 3.0)


def deleted(x="n", a="n,m", i="@n:1"):
    j = i[0]
    return np.delete(x, int(j)), np.delete(a, 0, axis=1), np.delete(a, -1, axis=0)


def inserted(x="n", a="n,m"):
    return np.insert(x, 0, 2.0), np.insert(a, 0, 1.0, axis=1), np.insert(x, len(x), 5.0)


def rolled(x="n", a="n,m"):
    return np.roll(x, 1), np.roll(x, -2), np.roll(a, 1, axis=1)


def flipped(a="n,m"):
    return np.fliplr(a), np.flipud(a)


def triangles(a="n,m"):
    return np.tril(a), np.triu(a, 1), np.tril(a, -1)


def kronecker(a="n,m", b="k,p"):
    return np.kron(a, b)


def vdots(a="n,m", b="n,m", x="n", y="n"):
    return np.vdot(a, b), np.vdot(x, y), np.hypot(x, y)


def finite_checks(x="n"):
    return np.isinf(x), np.isnan(x), np.isfinite(x), np.nan_to_num(x), np.nansum(x), np.nanmax(x), np.nanmean(x)


def spread(x="m", a="n,1", n="#n"):
    return np.broadcast_to(x, (n, len(x))), np.broadcast_to(a, (n, 3)), np.swapaxes(a, 0, 1)


def spread_bad(x="m", n="#n"):
    return np.broadcast_to(x, (n, len(x) + 1))


def diagonal_filled(a="n,m"):
    np.fill_diagonal(a, 7.0)
    return a


def more_functions(x="n", s="+n"):
    return (np.exp2(x), np.log2(s), np.sinh(x), np.cosh(x), np.rint(x * 3), np.trunc(x * 3), np.positive(x), np.degrees(x),
            np.deg2rad(x), np.fmax(x, 0), np.fmin(x, s), np.not_equal(x, 0), np.bitwise_and(x > 0, s > 1))


def fewer_digits(x="n", a="n,m"):
    return (x * 1.1).astype(np.float32), np.array(a / 3, dtype="float32"), np.asarray(a / 7, dtype=np.float16), x.astype(np.float32) * 2
