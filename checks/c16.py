"""Native remapping kernels are memory safe and use no undefined data."""
import os
import re
import shutil
import subprocess
import sys

from vlib import build

CHILD = os.path.join(build.os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "native_child.py")
# three builds: sanitizers with bounds checks; two that fill every local with different patterns
BUILDS = {
    "sanitized": ("-O1 -g -fno-omit-frame-pointer -fcheck=all -fsanitize=address,undefined -fno-sanitize-recover=all",
                  "-fsanitize=address,undefined"),
    "poison_a": ("-O0 -g -finit-integer=123456789 -finit-real=snan -finit-logical=true", ""),
    "poison_b": ("-O0 -g -finit-integer=-7 -finit-real=inf -finit-logical=false", ""),
    "plain": ("", ""),
}


def lib(name):
    p = subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True, env=build.ENV).stdout.strip()
    if not os.path.isabs(p):
        raise build.HarnessError("no " + name)
    return os.path.realpath(p)


def setup(ck):
    ck.rule = "Random remap requests (as C15) run in child processes on differently instrumented builds of the kernels."
    ck.need("sanitized_requests", 300)
    ck.need("poison_comparisons", 300)
    roots = {}
    for name in BUILDS:
        r = build.scratch()
        build.copy_package(r)
        roots[name] = r
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(len(BUILDS)) as pool:
        jobs = [pool.submit(build.build_fortran, roots[n], *BUILDS[n]) for n in BUILDS]
        for j in jobs:
            j.result()
    asan, ubsan = lib("libasan.so"), lib("libubsan.so")
    ck.assumptions = ["Address, undefined-behaviour and Fortran run-time checks are those of gfortran 13; uninitialised locals are looked for by filling them with two different patterns (and by valgrind in the thorough tier).",
                      "Requests need fewer than 2^31 old cells per axis and per new cell."]

    def child(name, seed, first, count, pattern, prefix=(), **env):
        e = dict(build.ENV, PYTHONMALLOC="malloc", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", **env)
        run = subprocess.run([*prefix, sys.executable, CHILD, roots[name], str(seed), str(first), str(count), pattern],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=600)
        return run

    def parse(c, run, count, what):
        recs = {}
        last = None
        for line in run.stdout.splitlines():
            w = line.split(" ", 2)
            if w[0] == "BEGIN":
                last = line[6:]
            elif w[0] == "END":
                k, sha, size, finite, kept = line.split()[1:]
                recs[int(k)] = (sha, int(size), int(finite), int(kept))
        if run.returncode != 0 or "DONE" not in run.stdout:
            rep = [l for l in run.stderr.splitlines() if re.search(r"ERROR: AddressSanitizer|runtime error|Fortran runtime error|SUMMARY|At line|Error:|Traceback", l)]
            if last is None:
                raise build.HarnessError("%s: no request was run: %s" % (what, run.stderr[-1500:]))
            c.fail("%s: the request was stopped: %s" % (what, " | ".join(rep)[:600] or "status %d %s" % (run.returncode, run.stderr[-300:])), request=last)
        c.ok(len(recs) == count, what + ": every request answered")
        return recs

    per = 60

    def sanitized(c):
        first = c.index * per
        c.desc(first=first, count=per, build="sanitized")
        run = child("sanitized", c.check.seed, first, per, "a5a5a5a5a5a5a5a5", LD_PRELOAD=asan + ":" + ubsan,
                    ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=165:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
                    UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=98")
        a = parse(c, run, per, "address/undefined-behaviour sanitizer and bounds checks")
        c.count("sanitized_requests", len(a))
        c.ok(all(v[2] for v in a.values()), "finite input, finite output", bad=[k for k, v in a.items() if not v[2]])

    def poison(c):
        first = 100000 + c.index * per
        c.desc(first=first, count=per, build="poison")
        pats = ("7ff0000000000001", "4024000000000000")
        a = parse(c, child("poison_a", c.check.seed, first, per, pats[0], MALLOC_PERTURB_="85"), per, "kernels with filled locals")
        b = parse(c, child("poison_b", c.check.seed, first, per, pats[1], MALLOC_PERTURB_="170"), per, "kernels with filled locals")
        p = parse(c, child("plain", c.check.seed, first, per, pats[1]), per, "kernels as built")
        for k in a:
            c.ok(a[k] == b[k], "results do not depend on what uninitialised memory holds", request=k, first_build=list(a[k]), second_build=list(b[k]))
            c.ok(a[k][2] == 1, "finite input, finite output", request=k)
            c.ok(p[k][2] == 1, "finite input, finite output of the usual build", request=k)
            c.count("poison_comparisons")

    def valgrind(c):
        first = 500000 + c.index * 40
        c.desc(first=first, count=40, build="plain, valgrind")
        log = os.path.join(roots["plain"], "vg.%d.log" % c.index)
        run = child("poison_free", c.check.seed, first, 40, "4024000000000000",
                    prefix=("valgrind", "--tool=memcheck", "--error-limit=no", "--num-callers=12", "--log-file=" + log))
        parse(c, run, 40, "memcheck")
        with open(log, errors="replace") as f:
            text = re.sub(r"==\d+== ?", "", f.read())
        reports = [b for b in re.split(r"\n\s*\n", text) if re.search(r"uninitialised|Invalid (read|write)", b)]
        ours = [b for b in reports if re.search(r"remap_[a-z0-9_]*\.f90|remap_\w+\.cpython|\bremap_\w+_\b|which_pix_|pix1dto", b)]
        c.ok(not ours, "memcheck report in a kernel", report=(ours or [""])[0][:900])
        c.count("memcheck_requests", 40)

    ck.section("sanitized", sanitized, 8, 384)
    ck.section("poison", poison, 8, 384)
    if ck.tier == "thorough":
        r = build.scratch()
        build.copy_package(r)
        build.build_fortran(r, "-O0 -g", "")
        roots["poison_free"] = r
        if shutil.which("valgrind"):
            ck.section("valgrind", valgrind, 0, 64)
            ck.need("memcheck_requests", 16)
