"""Ragged containers hold the given arrays; ordered values are recognised."""
import numpy as np

from vlib import build, gen


def setup(ck):
    mp, root = build.load()
    ragged, ordered = mp.utils.ragged_array, mp.utils.is_pos_monotonic
    ck.rule = "Random lists of arrays (empty, equal and unequal lengths, of every numeric type and dimension, long) and random sequences (ordered, equal values, one pair swapped anywhere, one-ulp steps, infinities, undefined values, integers of every type, lists)."
    ck.need("containers", 800)
    ck.need("equal_lengths", 200)
    ck.need("unequal_lengths", 200)
    ck.need("empty_elements", 100)
    ck.need("ordered", 1000)
    ck.need("unordered", 800)
    ck.need("one_pair", 500)
    ck.need("constant", 50)

    def containers(c):
        rng = c.rng
        n = int(rng.integers(1, 30)) if rng.random() < .93 else int(rng.choice([1, 300, 3000]))
        k = rng.integers(0, 5)
        if k == 0:
            size = [int(rng.integers(0, 6))] * n
        elif k == 1:
            size = [n] * n if n < 100 else [2] * n
        else:
            size = [int(v) for v in rng.integers(0, 7, n)]
        t = str(rng.choice(["f8", "f8", "i8", "i4", "f4", "?", "u8", "c16", "U3"]))
        arrays = []
        for s in size:
            shape = (s,) if rng.random() < .9 or k < 2 else (s, 2)
            v = rng.normal(size=shape) * 50
            arrays.append(v.astype(t) if t not in ("u8", "U3") else np.abs(v).astype("u8").astype(t))
        if rng.random() < .2:
            arrays = [arrays[0]] * n                    # the same array throughout
        kept = [a.copy() for a in arrays]
        c.desc(sizes=size[:50], type=t)
        r = ragged(list(arrays) if rng.random() < .8 else tuple(arrays))
        c.ok(isinstance(r, np.ndarray) and r.shape == (n,), "one element per array", got=np.shape(r), want=(n,))
        c.ok(r.dtype == object, "the elements are the arrays", got=str(r.dtype))
        for i in range(n):
            c.ok(isinstance(r[i], np.ndarray) and r[i].dtype == kept[i].dtype and r[i].shape == kept[i].shape and r[i].tobytes() == kept[i].tobytes(),
                 "element %d holds the array given there" % i, got=r[i], want=kept[i])
            c.ok(arrays[i].tobytes() == kept[i].tobytes(), "the given array is unchanged")
        # indexing by lists and slices works as on any 1D array
        sel = rng.permutation(n)
        for a, i in zip(r[sel], sel):
            c.ok(a.tobytes() == kept[i].tobytes(), "elements can be selected")
        c.count("containers")
        c.count("equal_lengths", len(set(size)) == 1 and n > 1)
        c.count("unequal_lengths", len(set(size)) > 1)
        c.count("empty_elements", 0 in size)

    def monotonic(c):
        rng = c.rng
        for rep in range(8):
            n = int(rng.choice([1, 2, 3, 5, 17])) if rng.random() < .9 else int(rng.choice([200, 5000]))
            s = gen.scale(rng, 1e-3, 1e3, 1e-300, 1e300)
            k = rng.integers(0, 6)
            if k == 0:
                a = np.sort(rng.normal(size=n)) * s
            elif k == 1:
                a = np.sort(rng.integers(-5, 5, n)).astype(float) * s
            elif k == 2:
                a = np.full(n, rng.normal() * s)
                c.count("constant")
            elif k == 3:
                a = [rng.normal() * s]
                for _ in range(n - 1):
                    a.append(np.nextafter(a[-1], np.inf))
                a = np.array(a)
            elif k == 4:
                a = np.sort(rng.normal(size=n)) * s
                a[:int(rng.integers(0, n + 1))] = -np.inf
                a[int(rng.integers(0, n + 1)):] = np.inf
                a = np.sort(a)
            else:
                t = str(rng.choice(["i4", "u8", "u1", "i8", "u4"]))
                a = np.sort(rng.integers(0, 200, n)).astype(t)
            m = rng.integers(0, 4)
            if n > 1 and m == 0:
                i = int(rng.choice([0, n - 2, rng.integers(0, n - 1)]))
                a[i], a[i + 1] = a[i + 1].copy(), a[i].copy()
                c.count("one_pair")
            elif n > 1 and m == 1 and a.dtype.kind == "f":
                i = int(rng.choice([0, n - 1, rng.integers(0, n)]))
                a[i] = rng.choice([np.nan, -np.inf, np.inf, np.nextafter(a[i], -np.inf), np.nextafter(a[i], np.inf)])
            elif m == 2 and rng.random() < .3:
                a = a[::-1]
            v = a.tolist()
            want = all(v[i] <= v[i + 1] for i in range(n - 1))
            if rng.random() < .3:
                a = [list, tuple][rng.integers(0, 2)](v)
            c.desc(values=v[:60])
            got = ordered(a)
            c.ok(bool(got) == want, "true for values that never decrease, false otherwise", got=str(got), want=want)
            c.count("ordered" if want else "unordered")

    def long(c):
        """One place out of order, anywhere in a very long sequence."""
        rng = c.rng
        n = int(rng.integers(100001, 2000001))
        a = np.sort(rng.normal(size=n)) if rng.random() < .5 else np.cumsum(rng.integers(0, 2, n))
        c.desc(n=n, type=str(a.dtype))
        c.ok(bool(ordered(a)), "a long sequence that never decreases")
        for i in (0, n - 2, int(rng.integers(n - 2000, n - 1)), int(rng.integers(0, n - 1)), (n // 100000) * 100000 - 1, 65535, 99999):
            b = a.copy()
            b[i] = b[i + 1] + 1
            c.ok(not ordered(b), "one place out of order in a long sequence", place=i)
            c.count("long_places")

    ck.need("long_places", 150)
    ck.section("long", long, 24, 400)
    ck.section("containers", containers, 1500, 40000)
    ck.section("monotonic", monotonic, 600, 20000)
