"""Small programs run by tools/conformance.py both under the installed numpy and under the verifier's semantics.
Parameter names give the inputs: x, y float vectors of one length; m float matrix; k, j int vectors of that length (k has
repeats, j is strictly increasing); z complex vector; q bool vector; w float vector with NaN; n, a ints; e, f floats."""
import numpy as np


def s_arange1(n): return np.arange(n)
def s_arange2(n, a): return np.arange(a, n)
def s_arange3(n, a): return np.arange(a, n, 2)
def s_arange4(n, a): return np.arange(n, a, -1)
def s_arange_const(n): return np.arange(3) + n
def s_arange_float(n): return np.arange(n, dtype=float) / 2
def s_linspace(e, f): return np.linspace(e, f, 5)
def s_linspace_n(n): return np.linspace(0, 1, n + 2)
def s_zeros(n): return np.zeros((n, 2)) + 1
def s_zeros_like(k): return np.zeros_like(k)
def s_full(n, e): return np.full((n, 3), e)
def s_ones_like(z): return np.ones_like(z) * 2
def s_identity(n): return np.identity(n)
def s_real(z): return np.real(z)
def s_imag(z): return z.imag
def s_round(x): return np.round(x)
def s_rint(x): return np.rint(x * 2)
def s_floor(x): return np.floor(x)
def s_ceil(x): return np.ceil(x)
def s_fix(x): return np.fix(x)
def s_astype(x): return x.astype(np.int64)
def s_astype_b(x): return x.astype(bool)
def s_abs(z): return np.abs(z) ** 2
def s_absf(x): return np.abs(x)
def s_conj(z): return np.conj(z) * z
def s_sqrt(x): return np.sqrt(np.abs(x)) ** 2
def s_nan_to_num(w): return np.nan_to_num(w)
def s_isnan(w): return np.isnan(w)
def s_isfinite(w): return np.isfinite(w)
def s_maximum(x, y): return np.maximum(x, y)
def s_minimum(x, e): return np.minimum(x, e)
def s_clip(x): return np.clip(x, -1, 1)
def s_clip2(x, e): return x.clip(e, None) if False else np.clip(x, 0, e)
def s_logand(q, x): return np.logical_and(q, x > 0)
def s_logor(q, x): return q | (x > 0)
def s_lognot(q): return ~q
def s_sign(x): return np.sign(x)
def s_where3(q, x, y): return np.where(q, x, y)
def s_where3s(q, x): return np.where(q, x, 0)
def s_where1(q): return np.where(q)[0]
def s_where1size(q): return np.where(q)[0].size
def s_nonzero(k): return np.nonzero(k)[0]
def s_nonzero2(m): return np.nonzero(m > 0)
def s_where_index(q, x): return x[np.where(q)]
def s_where_sum(q, x): return np.sum(x[np.where(q)[0]])
def s_flatnonzero(q): return np.flatnonzero(q)
def s_count_nonzero(k): return np.count_nonzero(k)
def s_argwhere(q): return np.argwhere(q)
def s_sum(x): return np.sum(x)
def s_sum_int(k): return np.sum(k)
def s_sum_bool(q): return np.sum(q)
def s_sum_axis0(m): return np.sum(m, axis=0)
def s_sum_axis1(m): return m.sum(axis=1)
def s_sum_keep(m): return np.sum(m, axis=1, keepdims=True) + m
def s_sum_cplx(z): return np.sum(z)
def s_mean(x): return np.mean(x)
def s_mean_axis(m): return np.mean(m, axis=0)
def s_nanmean(w): return np.nansum(w)
def s_var(x): return np.var(x)
def s_max(x): return np.max(x)
def s_max_axis(m): return np.max(m, axis=1)
def s_min(k): return np.min(k)
def s_nanmax(w): return np.nanmax(np.where(np.isnan(w), 0.0, w))
def s_any(q): return np.any(q)
def s_all(x): return np.all(x > -2)
def s_any_axis(m): return np.any(m > 1, axis=0)
def s_cumsum(k): return np.cumsum(k)
def s_diff(x): return np.diff(x)
def s_dot(x, y): return np.dot(x, y)
def s_matvec(m, n): return np.dot(m, np.arange(m.shape[1]))
def s_matmul(m): return m @ m.T
def s_outer(x, y): return np.outer(x, y)
def s_size(m): return m.size + np.size(m, 0) * 10
def s_len(m): return len(m) + m.ndim
def s_reshape(m): return m.reshape(m.shape[1], m.shape[0])
def s_reshape1(m): return np.reshape(m, -1)
def s_reshape3(m): return m.reshape((m.shape[0], 1, m.shape[1]))[:, 0, 0]
def s_ravel_t(m): return m.T.ravel()
def s_flatten_F(m): return m.flatten("F")
def s_reshape_F(m): return np.reshape(m, (m.shape[1], m.shape[0]), order="F")
def s_reshape_F2(x): return np.reshape(x, (1, x.size), order="F")
def s_ravel_F(m): return m.ravel(order="F")
def s_transpose(m): return np.transpose(m)
def s_swapaxes(m): return np.swapaxes(m, 0, 1)
def s_squeeze(x): return np.squeeze(x[None, :])
def s_squeeze0(x): return np.squeeze(x[None, :, None], axis=(0,))
def s_squeeze_none(x): return np.squeeze(x[:, None], axis=())
def s_expand(x): return np.expand_dims(x, 0)
def s_newaxis(x, y): return x[:, np.newaxis] * y[np.newaxis, :]
def s_broadcast(x, n): return np.broadcast_to(x, (n, x.size))
def s_concat(x, y): return np.concatenate([x, y, x])
def s_hstack(x, k): return np.hstack([x, k])
def s_vstack(x, y): return np.vstack([x, y])
def s_stack(x, y): return np.stack([x, y], axis=1)
def s_append(x, e): return np.append(x, e)
def s_insert(x, e): return np.insert(x, 1, e)
def s_tile(x): return np.tile(x, 3)
def s_tile2(x): return np.tile(x, (2, 1))
def s_repeat(x): return np.repeat(x, 2)
def s_flip(x): return np.flip(x)
def s_flip2(m): return np.flip(m, 1)
def s_rev(x): return x[::-1]
def s_step(x): return x[::2]
def s_step2(x): return x[1::2]
def s_slice(x): return x[1:-1]
def s_slice_big(x): return x[2:100]
def s_slice_n(x, a): return x[a : a + 2]
def s_negidx(x): return x[-1]
def s_roll(x): return np.roll(x, 1)
def s_roll2(m): return np.roll(m, -1, axis=0)
def s_roll_n(x, n): return np.roll(x, n)
def s_meshgrid(x, k): return np.meshgrid(x, k)[0]
def s_pad(x): return np.pad(x, 1)
def s_array_equal(x, y): return np.array_equal(x, y)
def s_isin(k, j): return np.isin(k, j)
def s_fancy(x, k): return x[k % x.size]
def s_fancy2(m, k): return m[:, k % m.shape[1]]
def s_fancy_int(m, k): return m[k % m.shape[0], 0]
def s_fancy_split(m, k): return m[None][0, k % m.shape[0]]
def s_fancy_pair(m, k): return m[k % m.shape[0], k % m.shape[1]]
def s_boolidx(x, q): return x[q]
def s_boolidx2(m, n): return m[m > 0]
def s_ix_neg(x): return x[np.array([-1, 0])]


def s_set_slice(x, e):
    r = x.copy()
    r[1:] = e
    return r


def s_set_fancy(x, j, e):
    r = np.zeros(20)
    r[j] = x
    r[0] = e
    return r


def s_set_mask(x, q):
    r = x.copy()
    r[q] = 0
    return r


def s_set_where(x, y):
    r = x.copy()
    i = np.where(x > 0)
    r[i] = y[i] * 2
    return r


def s_aug_slice(m, e):
    r = m.copy()
    r[:, 0] += e
    return r


def s_aug_fancy(x, j):
    r = np.zeros(20)
    r[j] += x
    r[j] *= 2
    return r


def s_alias(x):
    r = x.copy()
    v = r[1:]
    v[0] = 7
    return r


def s_alias_t(m):
    r = m.copy()
    r.T[0] = 5
    return r


def s_alias_reshape(m):
    r = m.copy()
    r.reshape(-1)[1] = 9
    return r


def s_copy_sem(x):
    r = x
    t = r.copy()
    t[0] = 3
    return r[0] + t[0]


def s_set_broadcast(m, n):
    r = m.copy()
    r[:] = np.arange(m.shape[1])
    return r


def s_set_2d_fancy(m, e):
    r = m.copy()
    r[np.array([0, 1]), :] = e
    return r


def s_loop_sum(x):
    t = 0.0
    for i in range(x.size):
        t += x[i] * 2
    return t


def s_loop_fill(x):
    r = np.zeros(x.size)
    for i in range(x.size):
        r[i] = x[i] * i
    return r


def s_loop_rev(x):
    r = np.zeros(x.size)
    for i in range(x.size):
        r[x.size - 1 - i] = x[i]
    return r


def s_loop_nested(m):
    r = np.zeros(m.shape)
    for i in range(m.shape[0]):
        for k in range(m.shape[1]):
            r[i, k] = m[i, k] + i - k
    return r


def s_loop_if(x):
    r = np.zeros(x.size)
    for i in range(x.size):
        if x[i] > 0:
            r[i] = 1
        else:
            r[i] = -x[i]
    return r


def s_loop_const(x):
    t = 0
    for i in range(3):
        t = t * 2 + i
    return t + x[0]


def s_enum(x):
    r = np.zeros(x.size)
    for i, v in enumerate(x):
        r[i] = v + i
    return r


def s_loop_row(m):
    r = np.empty(m.shape[0])
    for i in range(m.shape[0]):
        r[i] = np.sum(m[i])
    return r


def s_loop_continue(x):
    r = np.zeros(x.size)
    for i in range(x.size):
        if x[i] < 0:
            continue
        r[i] = x[i]
    return r


def s_loop_aug(m):
    r = np.zeros(m.shape[1])
    for i in range(m.shape[0]):
        r += m[i]
    return r


def s_loop_start(x):
    r = np.zeros(x.size)
    for i in range(1, x.size):
        r[i] = x[i] - x[i - 1]
    return r


def s_floordiv(k, a): return k // (a + 1)
def s_mod(k, a): return (k - 3) % (a + 1)
def s_modf(x): return x % 2
def s_fdivf(x): return x // 1.5
def s_pow(x): return x**2 + x**3
def s_div(x, k): return x / (k + 1)
def s_cdiv(z): return 1 / (z + 10)
def s_cmp(x, y): return (x < y) & (x != 0)
def s_int_scalar(e): return int(e) + int(-e)
def s_ternary(e, f): return e if e > f else f
def s_chain(a, n): return 1 if 0 <= a < n else 2
def s_minmax(a, n): return min(a, n) * 10 + max(a, n)
def s_list(x): return np.array([x[0], x[-1], 3])
def s_list2(x, y): return np.array([x, y])
def s_boolarith(q): return q * 2 + 1
def s_imul(x):
    r = x.copy()
    r *= 2
    r -= 1
    r /= 4
    return r
def s_exp0(x): return np.exp(1j * 0 * x)
def s_trig(x): return np.sin(x) ** 2 + np.cos(x) ** 2
def s_isclose(x): return np.isclose(x, x)
def s_tuple(x):
    a, b = x[0], x[1]
    a, b = b, a
    return a * 10 + b
def s_dict(x):
    d = {"a": x}
    d["b"] = d["a"] * 2
    return d["b"]
def s_comp(x): return np.array([v * 2 for v in x])
def s_shape_unpack(m):
    r, c = m.shape
    return r * 10 + c
def s_unique(k): return np.unique(k)
def s_unique_size(k): return np.unique(k).size
def s_unique_f(x): return np.unique(x)
def s_unique_where(k): return np.where(k == np.unique(k)[0])[0]
def s_sort(x): return np.sort(x)
def s_argsort(k): return np.argsort(k, kind="stable")
def s_sort_fancy(k, x): return x[np.argsort(k, kind="stable")]


def s_append_loop(x):
    t = 0.5
    r = [1.0, 2.0]
    for v in x:
        t += v
        r.append(t * 2)
    return np.array(r)


def s_append_range(n):
    r = []
    for i in range(n):
        r.append(i * i)
    return np.array(r)


def s_count_into(k):
    r = np.zeros(4, dtype=np.int64)
    for i in range(k.size):
        r[k[i]] += 1
    return r


def s_count_cond(k, x):
    r = np.zeros(4)
    for i in range(k.size):
        if x[i] < 0:
            continue
        b = k[i]
        if b > 2:
            b = 2
        r[b] += x[i]
    return r


def s_loop_hist(k):
    h = np.zeros(9)
    for i in range(k.size):
        h[k[i]] += 1
    return h


def s_loop_rank(k):
    h = np.zeros(9, dtype=int)
    r = np.zeros(k.size, dtype=int)
    for i in range(k.size):
        r[i] = h[k[i]]
        h[k[i]] += 1
    return r


def s_loop_rank_cond(k, x):
    h = np.zeros(9)
    r = np.zeros(k.size)
    for i in range(k.size):
        if x[i] < 0:
            continue
        b = k[i]
        if b > 2:
            b = 2
        r[i] = h[b]
        h[b] += x[i]
    return r


def s_loop_scatter(k, x):
    r = np.zeros(9)
    for i in range(k.size):
        r[k[i]] = x[i]
    return r


def s_loop_scatter_rank(k):
    h = np.array([0, 10, 20, 30, 40, 50, 60, 70, 80])
    r = np.zeros(100)
    for i in range(k.size):
        r[h[k[i]]] = i + 1
        h[k[i]] += 1
    return r


def s_loop_cum(x):
    r = np.zeros(x.size + 1)
    for i in range(x.size):
        r[i + 1] = r[i] + x[i]
    return r


def s_loop_cum2(x):
    r = np.zeros(x.size)
    t = 0
    for i in range(x.size):
        t += x[i]
        r[i] = t
    return r


def s_loop_cum_other(x):
    r = np.zeros(x.size)
    t = 0
    for i in range(x.size):
        r[i] = t
        t = t + x[x.size - 1 - i]
    return r


def s_loop_last(x):
    t = -1
    for i in range(x.size):
        if x[i] > 0:
            t = i
    return t


def s_loop_prev(x):
    r = np.zeros(x.size)
    p = 7.0
    for i in range(x.size):
        r[i] = p
        p = x[i]
    return r


def s_loop_two(x):
    s = 0
    t = 0
    for i in range(x.size):
        s += x[i]
        t += s
    return t


def s_loop_nested_sum(m):
    t = 0
    for i in range(m.shape[0]):
        for k in range(m.shape[1]):
            t += m[i, k] * (i + 1)
    return t


def s_loop_nested_hist(m, k):
    h = np.zeros((m.shape[0], 9))
    for i in range(m.shape[0]):
        for p in range(k.size):
            h[i, k[p]] += m[i, 0]
    return h


def s_loop_tri(x):
    r = np.zeros(x.size)
    for i in range(x.size):
        for p in range(i):
            r[i] += x[p]
    return r


def s_loop_slice(m):
    r = np.zeros(m.shape)
    for i in range(m.shape[0]):
        r[i, :] = m[i, ::-1]
    return r


def s_loop_slice_aug(m):
    r = np.ones(m.shape)
    for i in range(m.shape[0]):
        r[i] *= m[m.shape[0] - 1 - i]
    return r


def s_loop_inplace(x):
    r = x.copy()
    for i in range(r.size - 1):
        r[i] = r[i + 1] * 2
    return r


def s_loop_swap(x):
    r = x.copy()
    for i in range(r.size // 2):
        r[i], r[r.size - 1 - i] = r[r.size - 1 - i], r[i]
    return r


def s_loop_bool(q):
    f = False
    for i in range(q.size):
        f = f or q[i]
    return f


def s_loop_max(x):
    t = x[0]
    for i in range(x.size):
        t = max(t, x[i])
    return t


def s_loop_flag_write(q, x):
    r = x.copy()
    for i in range(q.size):
        if q[i]:
            r[: i] = 0
    return r


def s_append_filter(x):
    r = []
    for v in x:
        r.append(v * 2)
    return np.array(r)


def s_append_prefix(k):
    r = [3]
    t = 3
    for v in k:
        t += v
        r.append(t)
    return np.array(r)


def s_append_slice(k):
    r = [0]
    t = 0
    for v in k:
        t += v
        r.append(t)
    a = np.zeros(k.size + 4, dtype=int)
    a[1 : k.size + 2] = r
    return a


def s_loop_where(q, x):
    idx = np.where(q)[0]
    r = np.zeros(x.size)
    for i in range(idx.size):
        r[idx[i]] = x[idx[i]] + i
    return r


def s_loop_col(m):
    r = np.zeros((m.shape[1], 2))
    for i in range(m.shape[1]):
        r[i, 0] = np.max(m[:, i])
        r[i, 1] = np.sum(m[:, i])
    return r
