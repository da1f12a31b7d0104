"""Progress reporting never changes results."""
import contextlib
import io
import os
import sys
import tempfile

import numpy as np

from checks.c34 import eq
from vlib import build, gen, kinds, maps

MARKS = [("#", "_", "|"), ("=", " ", "|"), ("*", ".", "!"), ("=>", "--", "||"), ("█", "░", "▏"), ("#", "#_", "|")]


@contextlib.contextmanager
def captured():
    """Everything written to standard output, by Python or below it."""
    box = io.StringIO()
    with tempfile.TemporaryFile() as t:
        sys.stdout.flush()
        keep = os.dup(1)
        os.dup2(t.fileno(), 1)
        out = [None]
        try:
            with contextlib.redirect_stdout(box):
                yield out
        finally:
            os.dup2(keep, 1)
            os.close(keep)
            t.seek(0)
            out[0] = box.getvalue() + t.read().decode(errors="replace")


def setup(ck):
    mp, root = build.load()
    bar = mp.utils.progress_bar
    K = kinds.all_kinds(mp)
    ck.rule = "Random loop lengths (1 to thousands), every or sampled indices, random markers, edges, lengths, refresh counts and messages; every class with and without progress output."
    ck.need("bars", 20000)
    ck.need("printed", 4000)
    ck.need("loops", 300)
    ck.need("defaults", 40)
    for k in K:
        ck.need("quiet_" + k.name, 20)
        ck.need("loud_" + k.name, 20)
    ck.assumptions = ["The filled part may differ from the exact proportion by one marker and the printed percentage by one."]

    def parse(c, line, i, n, o):
        """Checks one printed line (without carriage return and newline)."""
        if o["explanation"] is not None:
            head = o["explanation"] + " : "
            c.ok(line.startswith(head), "the message comes first", line=line)
            line = line[len(head):]
        L, R = (o["bar_edge_left"] or o["bar_edges"]), (o["bar_edge_right"] or o["bar_edges"])
        c.ok(line.startswith(L), "the left edge of the bar", line=line)
        rest = line[len(L):]
        done, un = o["marker_done"], o["marker_undone"]
        frac = (i + 1) / n
        hit = None
        for d in range(o["bar_length"] + 1):
            body = done * d + un * (o["bar_length"] - d) + R
            if rest.startswith(body) and abs(d - frac * o["bar_length"]) <= 1:
                hit = d, rest[len(body):]
        c.ok(hit is not None, "a bar of the requested length, filled in proportion to progress", line=line, fraction=frac)
        d, tail = hit
        if i + 1 == n:
            c.ok(d == o["bar_length"], "the last bar is full", line=line)
        else:
            c.ok(d < o["bar_length"], "only the last bar is full", line=line)
        num, _, after = tail.partition("%")
        c.ok(num.strip().isdigit() and abs(int(num) - 100 * frac) <= 1 and ((int(num) == 100) == (i + 1 == n)), "the percentage", line=line, fraction=frac)
        if o["indexing"]:
            c.ok(after.strip() == "[%d/%d]" % (i + 1, n), "the index", line=line)
        else:
            c.ok(after.strip() == "", "nothing after the percentage", line=line)

    def loop(c):
        rng = c.rng
        n = int(rng.choice([1, 2, 3, int(rng.integers(4, 60)), int(rng.integers(60, 500)), int(rng.integers(500, 4000))]))
        done, un, edge = MARKS[rng.integers(0, len(MARKS))]
        o = dict(explanation=None, indexing=False, num_refresh=50, marker_done="#", marker_undone="_", bar_edges="|", bar_edge_left=None, bar_edge_right=None, bar_length=50)
        kw = {}
        if rng.random() < .85:
            for key, v in (("explanation", [None, "Remapping", "", "a : b"][rng.integers(0, 4)]), ("indexing", bool(rng.random() < .5)),
                           ("num_refresh", int(rng.choice([1, 2, 7, 50, 100, 5000]))), ("bar_edges", edge),
                           ("bar_edge_left", [None, "["][rng.integers(0, 2)]), ("bar_edge_right", [None, "]"][rng.integers(0, 2)]),
                           ("bar_length", int(rng.choice([1, 2, 10, 33, 50, 120])))):
                if rng.random() < .7:
                    kw[key] = v
            if rng.random() < .7:
                kw["marker_done"], kw["marker_undone"] = done, un
        else:
            c.count("defaults")
        o.update(kw)
        c.desc(length=n, options=kw)
        shown = 0
        idx = range(n)
        if n > 200:
            idx = sorted(set(int(v) for v in rng.integers(0, n, 150)) | {0, n - 2, n - 1})
        for i in idx:
            with captured() as out:
                r = bar(i, n, **kw)
            s = out[0]
            c.ok(r is None, "nothing is returned")
            c.count("bars")
            if i + 1 == n:
                c.ok(s.endswith("\n") and s.count("\n") == 1, "a newline ends the last bar", printed=s)
                c.ok(s != "", "the last bar is always printed")
            else:
                c.ok("\n" not in s, "no newline before the end", printed=s, index=i)
            if s:
                shown += 1
                c.count("printed")
                lines = s.rstrip("\n").split("\r")
                c.ok(lines[0] == "" and len(lines) > 1, "the line is rewritten from its start", printed=s)
                for line in lines[1:]:
                    parse(c, line, i, n, o)
        if len(idx) == n:
            want = min(o["num_refresh"], n)
            c.ok(want <= shown <= 2 * want + 1, "the requested number of refreshes", shown=shown, wanted=want)
        c.count("loops")

    def classes(c):
        rng = c.rng
        k = K[c.index % len(K)]
        q = k.request(rng)
        if k.target != "shell" and rng.random() < .2:       # long loops
            maps.enlarge(rng, q["target"], {"ring": ("numr", "nump"), "cap": ("num_alpha", "num_beta")}.get(k.target, ("x_grid", "y_grid")), 1., 130)
        f, w = k.map(rng, q), k.weights(rng, q)
        if rng.random() < .2:
            f[tuple(rng.integers(0, n) for n in f.shape)] = np.nan
        P, sig = rng.normal(size=k.out_shape(q)), rng.uniform(.1, 1, k.out_shape(q))
        s = int(rng.integers(0, 2**31))
        c.desc(kind=k.name, request=q, seed=s)

        def run(verbose):
            """Results and what every step printed; None: the default."""
            v = {} if verbose is None else dict(verbose=verbose)
            res, txt = {}, {}
            o = k.cls()
            with captured() as t:
                k.setup_source(o, q)
                k.setup_target(o, q)
            txt["set-up"] = t

            def step(name, call):
                with captured() as t:
                    res[name] = call()
                txt[name] = t
            np.random.seed(s)
            if k.mc:
                step("get_weights", lambda: o.get_weights(12, **v))
            step("remap", lambda: o.remap(f, **v))
            if k.weighted:
                step("weighted remap", lambda: o.remap(f, w, **v))
            if k.mask:
                step("mask", lambda: (o.get_mask_in_bound(**v), np.copy(o.mask_in_bound))[1])
            if k.ring:
                step("profile", lambda: o.polar2radial(P, **v))
                if k.mask:
                    # a new object builds its mask inside the profile
                    k.setup_target(o, q)
                    np.random.seed(s)
                    if k.mc:
                        o.get_weights(12, verbose=False)
                step("profile with errors", lambda: o.polar2radial(P, sigma=sig, **v))
            res["state"] = np.random.get_state()[1].copy()
            return res, {n: t[0] for n, t in txt.items()}

        quiet, qt = run(False)
        for n, t in qt.items():
            c.ok(t == "", "%s prints with progress switched off" % n, printed=t)
        c.count("quiet_" + k.name)
        loud, lt = run(True)
        plain, pt = run(None)
        for n in quiet:
            c.ok(eq(quiet[n], loud[n]), "%s: %s differs with progress output" % (k.name, n), quiet=quiet[n], loud=loud[n])
            c.ok(eq(quiet[n], plain[n]), "%s: %s differs with the default progress setting" % (k.name, n))
        if k.mc:
            for n in ("get_weights", "remap", "weighted remap"):
                c.ok(lt[n].endswith("\n") and "100%" in lt[n], "%s reports progress to the end" % n, printed=lt[n])
                c.ok(pt[n].endswith("\n") and "100%" in pt[n], "%s reports progress by default" % n, printed=pt[n])
        if k.ring:
            c.ok(pt["profile"] == "" == pt["profile with errors"], "profiles are quiet by default", printed=pt)
        c.count("loud_" + k.name)

    def long(c):
        """Whole loops of any length, captured at once."""
        rng = c.rng
        n = int(gen.loguniform(rng, 200, 300000))
        edge = MARKS[rng.integers(0, len(MARKS))][2]
        o = dict(explanation=None, indexing=True, num_refresh=50, marker_done="#", marker_undone="_", bar_edges="|", bar_edge_left=None, bar_edge_right=None, bar_length=50)
        kw = dict(indexing=True)
        if rng.random() < .6:
            kw["num_refresh"] = int(rng.choice([1, 2, 7, 50, 100, 1000]))
        if rng.random() < .5:
            kw.update(bar_edges=edge, bar_length=int(rng.choice([1, 10, 50, 500])))
        o.update(kw)
        c.desc(length=n, options=kw)
        with captured() as out:
            for i in range(n):
                bar(i, n, **kw)
        s = out[0]
        c.ok(s.startswith("\r") and s.endswith("\n") and s.count("\n") == 1, "one newline, at the very end", printed=s[-200:])
        lines = s[1:-1].split("\r")
        seen = []
        for line in lines:
            i = int(line[line.rindex("[") + 1:line.rindex("/")]) - 1
            parse(c, line, i, n, o)
            seen.append(i)
        c.ok(all(a <= b for a, b in zip(seen, seen[1:])) and seen[-1] == n - 1, "progress only grows, up to the last index", seen=seen[-5:])
        shown = len(set(seen))
        want = min(o["num_refresh"], n)
        c.ok(want <= shown <= 2 * want + 1, "the requested number of refreshes", shown=shown, wanted=want)
        gaps = np.diff([-1] + sorted(set(seen)))
        c.ok(gaps.max() <= n / want + 1, "refreshes are spread over the loop", widest=int(gaps.max()))
        c.count("long_loops", n > 20000)

    ck.need("long_loops", 8)
    ck.section("loops", loop, 500, 48000)
    ck.section("long", long, 60, 8000)
    ck.section("classes", classes, 360, 60000)
