#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree. See DESIGN.md.

Exit 0: held on everything explored. Exit 1 and `VIOLATION property=<id> replay=<path>`: broken. Exit 2: no answer.
Environment: VERIF_SEED, VERIF_TIER (quick, thorough); VP_REPO another tree to check, VP_WORK where to build and write.
"""
import hashlib, json, os, re, shlex, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import hints

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
WORK = os.environ.get("VP_WORK", VERIF)
BUILD = os.path.join(WORK, "build")
EVIDENCE = os.path.join(WORK, "evidence")
REPLAYS = os.path.join(WORK, "replays")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
CPUS = len(os.sched_getaffinity(0))
STABLE = "stable-x86_64-unknown-linux-gnu"


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------------------------------
# builds

FUZZER_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer-x86_64.a"
# name: (cargo profile, features, what it is)
VARIANTS = {
    "rel": ("release", "std", "release, std"),
    "relno": ("release", "", "release, no_std"),
    "plain": ("plain", "std", "debug, std"),
    "plainno": ("plain", "", "debug, no_std"),
    "chk": ("checked", "", "optimised with debug assertions, overflow and unsafe-precondition checks, no_std"),
    "chkstd": ("checked", "std", "optimised with debug assertions, overflow and unsafe-precondition checks, std"),
    "fuel": ("release", "std,fuel", "release, std, executed edges counted"),
    "fuzz": ("release", "std,fuzz", "release, std, libFuzzer coverage"),
    "asan": ("release", "std", "release, std, AddressSanitizer"),
    "tsan": ("release", "std", "release, std, ThreadSanitizer"),
    "native": ("release", "std", "release, std, optimised for size and for this machine's processor"),
    "hop": ("release", "", "harness/hop, release, std"),
    "i686": ("release", "bare", "harness/other for a 32-bit target without std, optimised with debug assertions and overflow checks"),
    "miri": ("dev", "std", "harness/other in Miri, which detects undefined behaviour"),
    "s390x": ("dev", "", "harness/other in Miri for a big-endian target, no_std"),
    "elsewhere": ("dev", "std", "harness/other in Miri for a target that the sources name"),
    "weave": ("dev", "std", "harness/weave in Miri, which picks a schedule and a memory order anew for every seed"),
}
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
# what only the nightly compiler builds: target, flags for rustc, flags for cargo, variables for runs
ON_NIGHTLY = {
    "asan": (HOST, "-Zsanitizer=address", [], {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:allocator_may_return_null=1"}),
    "tsan": (HOST, "-Zsanitizer=thread --cfg vp_tsan", ["-Zbuild-std"], {"TSAN_OPTIONS": "die_after_fork=0:halt_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:report_signal_unsafe=0"}),
    "i686": (
        "i686-unknown-linux-gnu", "-C link-arg=-nostartfiles -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static",
        ["-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem"], {},
    ),
}
MIRI = {"miri": HOST, "s390x": "s390x-unknown-linux-gnu", "weave": HOST}


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p]
        if os.path.isdir(p):
            files = sorted(os.path.join(d, f) for d, ds, fs in os.walk(p) for f in fs if "/target/" not in d + "/")
        for f in files:
            if os.path.exists(f):
                h.update(f.encode() + b"\0" + hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()


def cargo_env(target, rustflags="", toolchain=STABLE):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    e.update(
        HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin", RUSTUP_TOOLCHAIN=toolchain,
        CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=target, RUSTFLAGS=rustflags,
    )
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path, "rb").read() != data:
        open(path, "wb").write(data)


def harness_copy():
    """The harness, copied out of the committed files so that a build never writes there."""
    dst = os.path.join(BUILD, "src")
    for top in ("harness", "refdata"):
        for d, ds, fs in os.walk(os.path.join(VERIF, top)):
            if "/target" in d:
                continue
            for f in fs:
                p = os.path.join(d, f)
                data = open(p, "rb").read()
                if f == "Cargo.toml":
                    data = data.replace(b'path = "/repo"', b'path = "%s"' % REPO.encode())
                write_if_changed(os.path.join(dst, os.path.relpath(p, VERIF)), data)
    return os.path.join(dst, "harness")


def build(name):
    """Path of the harness binary of one build variant, made from the current tree."""
    prof, feats, _ = VARIANTS[name]
    triple, nflags, nargs, _ = ON_NIGHTLY.get(name, ("", "", [], {}))
    h = os.path.join(BUILD, "src", "harness")
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "stamp")
    now = tree_hash([os.path.join(REPO, x) for x in ("src", "Cargo.toml", "build.rs")] + [h, os.path.join(BUILD, "src", "refdata"), os.path.abspath(__file__)])
    binary = {"fuzz": "vpfuzz", "i686": "vp-other", "hop": "vp-hop"}.get(name, "vp")
    out = os.path.join(target, triple, prof, binary)
    if os.path.exists(stamp) and open(stamp).read() == now and os.path.exists(out):
        return out
    if os.path.exists(stamp):
        os.remove(stamp)
    # cargo goes by modification times, which say nothing about a tree that was put back: forget what it built
    for d, ds, fs in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in ds:
                if x.startswith(("unicode-normalization", "vp-")):
                    shutil.rmtree(os.path.join(d, x))
            break
    flags = nflags
    if name == "native":
        flags = "-C target-cpu=native -C opt-level=s"
    if name == "fuel":
        o = os.path.join(target, "fuel_rt.o")
        subprocess.run(["gcc", "-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fPIC", "-c", os.path.join(h, "core", "src", "fuel_rt.c"), "-o", o], check=True)
        flags = f"-C link-arg={o} -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard"
    if name == "fuzz":
        flags = (
            f"-C link-arg={FUZZER_RT} -C link-arg=-lstdc++ -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=4 "
            "-C llvm-args=-sanitizer-coverage-inline-8bit-counters -C llvm-args=-sanitizer-coverage-pc-table -C llvm-args=-sanitizer-coverage-trace-compares "
            "-C codegen-units=1 -C link-dead-code=no"
        )
    cmd = ["cargo", "build", "--offline", "--bin", binary] + ([] if name == "hop" else ["--no-default-features"])
    cmd += ["--release"] if prof == "release" else ["--profile", prof]
    if feats:
        cmd += ["--features", feats]
    if triple:
        cmd += nargs + ["--target", triple]
    t = time.time()
    where = os.path.join(h, {"i686": "other", "hop": "hop"}.get(name, ""))
    r = subprocess.run(cmd, cwd=where, env=cargo_env(target, flags, NIGHTLY if triple else STABLE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer(f"build {name} failed:\n{r.stdout[-4000:]}")
    open(stamp, "w").write(now)
    log(f"built {name} in {time.time() - t:.1f}s")
    return out


def build_all(names):
    harness_copy()
    with ThreadPoolExecutor(4) as ex:
        fs = {n: ex.submit(build, n) for n in names}
        return {n: f.result() for n, f in fs.items()}


# aliasing and validity are for C20's runs in Miri; here a cheaper interpreter is a deeper search
WEAVING = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-preemption-rate=0.03"


def miri_command(name, triple=None):
    """A command that answers cases in Miri: a script, since the interpreter builds and runs in one."""
    triple = triple or MIRI[name]
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    env = cargo_env(target, "", NIGHTLY)
    ready = "/root/.cache/miri"
    if os.path.isdir(os.path.join(ready, "lib", "rustlib", triple)):
        env["MIRI_SYSROOT"] = ready
    else:
        env["XDG_CACHE_HOME"] = os.path.join(BUILD, "cache")
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + (WEAVING if name == "weave" else "-Zmiri-tree-borrows")
    feats = VARIANTS[name][1]
    args = ["--offline", "-q", "--target", triple]
    if name != "weave":
        args += ["--no-default-features"] + (["--features", feats] if feats else [])
    where = os.path.join(BUILD, "src", "harness", "weave" if name == "weave" else "other")
    for d, ds, fs in os.walk(target):
        if os.path.basename(d) == ".fingerprint":
            for x in ds:
                if x.startswith(("unicode-normalization", "vp-")):
                    shutil.rmtree(os.path.join(d, x))
    t = time.time()
    # an empty input: builds, starts and ends
    r = subprocess.run(["cargo", "miri", "run"] + args, cwd=where, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer(f"{name} did not start:\n{r.stdout[-3000:]}")
    log(f"built {name} in {time.time() - t:.1f}s")
    if name == "weave":
        return where, env, ["cargo", "miri", "run"] + args
    script = os.path.join(target, "run.sh")
    q = shlex.quote
    open(script, "w").write(f"#!/bin/sh\ncd {q(where)}\nexec env -i " + " ".join(f"{k}={q(v)}" for k, v in env.items()) + " cargo miri run " + " ".join(args) + "\n")
    os.chmod(script, 0o755)
    return script


# ---------------------------------------------------------------------------------------------------------------------
# one run of the harness


def vp(binary, *args, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run([binary, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=timeout)


def parse_case(text):
    parts = {"s": [], "t": [], "ops": []}
    head = []
    for l in text.splitlines():
        w = l.split(" ")
        if w[0] in parts:
            parts[w[0]] = [x for x in w[1:] if x]
        else:
            head.append(l)
    return head, parts


def case_text(head, parts):
    return "\n".join(head + [" ".join([k] + v) for k, v in parts.items()]) + "\n"


def shrink_outside(text, fails, seconds=60, tries=400):
    """Delta debugging where each attempt is a process of its own."""
    head, parts = parse_case(text)
    end = time.time() + seconds
    n = 0

    def bad(p):
        nonlocal n
        n += 1
        return n <= tries and time.time() < end and fails(case_text(head, p))

    changed = True
    while changed and n <= tries and time.time() < end:
        changed = False
        for k in ("ops", "t", "s"):
            size = max(1, len(parts[k]))
            while size >= 1 and parts[k]:
                i = 0
                while i < len(parts[k]):
                    p = dict(parts)
                    p[k] = parts[k][:i] + parts[k][i + size:]
                    if bad(p):
                        parts = p
                        changed = True
                    else:
                        i += size
                size //= 2
    return case_text(head, parts)


def replay_fails(binary, path_or_text, *args, env=None):
    p = path_or_text
    if "\n" in p:
        p = os.path.join(BUILD, f"try-{os.getpid()}.txt")
        open(p, "w").write(path_or_text)
    try:
        r = vp(binary, "replay", p, *args, env=env, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    return r.stdout.strip() if r.returncode in (1,) or r.returncode < 0 else ""


HANG = "the case does not end"


class Result:
    def __init__(self):
        self.parts = []  # evidence of each run
        self.violation = None  # replay path
        self.notes = []


def run_check(res, pid, binary, name, *, scale=100, only=None, digests=None, env=None, seed=None, tier=None):
    """One `vp check`; fills in res and returns whether the property held."""
    os.makedirs(REPLAYS, exist_ok=True)
    word = name.replace(" ", "-")
    ev = os.path.join(BUILD, f"ev-{pid}-{word}.json")
    rp = os.path.join(REPLAYS, f"{pid}-{word}.txt")
    env = dict(ON_NIGHTLY.get(name.split(" ")[0], ("", "", [], {}))[3], **(env or {}))
    for f in (ev, rp):
        if os.path.exists(f):
            os.remove(f)
    args = ["check", pid, "--tier", tier or TIER, "--seed", SEED if seed is None else seed, "--scale", scale, "--build", name, "--replay-out", rp, "--evidence-out", ev, "--threads", CPUS]
    if only:
        args += ["--only", only]
    if digests:
        args += ["--digests", digests]
    r = vp(binary, *args, env=env)
    sys.stderr.write(r.stderr[-6000:])
    if os.path.exists(ev):
        res.parts.append(json.load(open(ev)))
    if r.returncode == 0:
        return True
    if r.returncode == 1 and os.path.exists(rp):
        text = open(rp).read()
        if "FAILED abrupt" in r.stdout or "stage abrupt" in text:
            text = settle_abrupt(pid, binary, text, env)
            open(rp, "w").write(text)
        res.violation = rp
        return False
    raise NoAnswer(f"{name} run ended with {r.returncode}: {r.stderr[-1500:]}")


def settle_abrupt(pid, binary, text, env=None):
    """An abort, fault, memory or step overrun that ended the process: confirm it in a process of its own and shrink it."""
    found = re.search(r"^found (.*)$", text, re.M).group(1)
    if found == HANG:
        # time is no verdict: count executed steps instead
        fuel = build_all(["fuel"])["fuel"]
        for steps in (200_000_000, 20_000_000_000):
            got = replay_fails(fuel, text, "--fuel", steps, "--case-cpu", 100000)
            if got:
                break
        if not got:
            raise NoAnswer("a case used more than its processor time, but it ends")
        text = text.replace(f"found {HANG}", f"found {got} ({steps} steps)")
        if steps == 200_000_000:
            return shrink_outside(text, lambda t: replay_fails(fuel, t, "--fuel", steps, "--case-cpu", 100000))
        return text
    if replay_fails(binary, text, env=env):
        return shrink_outside(text, lambda t: replay_fails(binary, t, "--case-cpu", 20, env=env))
    return text + "# seen in the run above; not reproduced in a process of its own\n"


def fuzz_stage(pid, res, runs):
    """Coverage-guided search with the same oracle: a fixed number of executions on each core, from an empty corpus."""
    b = build_all(["fuzz", "rel"])
    work = os.path.join(BUILD, f"corpus-{pid}-{os.getpid()}")
    os.makedirs(REPLAYS, exist_ok=True)
    t = time.time()

    def one(k):
        d = os.path.join(work, str(k))
        os.makedirs(d)
        rp = os.path.join(d, "replay.txt")
        c = os.path.join(d, "corpus")
        os.makedirs(c)
        cmd = [b["fuzz"], f"-seed={SEED * 100 + k + 1}", f"-runs={runs}", f"-max_len={[64, 160, 400][k % 3]}", f"-use_value_profile={k % 2}", "-handle_segv=0", "-handle_abrt=0", "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0", "-rss_limit_mb=0", "-timeout=0", "-verbosity=0", "-print_final_stats=1", f"-artifact_prefix={d}/", c]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, VP_FUZZ_PROPERTY=pid, VP_FUZZ_REPLAY=rp))
        return k, r, rp

    try:
        cases = nontriv = units = 0
        with ThreadPoolExecutor(CPUS) as ex:
            done = list(ex.map(one, range(CPUS)))
        for k, r, rp in done:
            m = re.search(r"vpfuzz cases (\d+) nontrivial (\d+)", r.stderr)
            if m:
                cases += int(m.group(1))
                nontriv += int(m.group(2))
            m = re.search(r"new_units_added: *(\d+)", r.stderr)
            units += int(m.group(1)) if m else 0
        for k, r, rp in done:
            if r.returncode == 0:
                continue
            if r.returncode == 1 and os.path.exists(rp):
                text = open(rp).read()
                if "stage abrupt" in text:
                    text = settle_abrupt(pid, b["rel"], text)
                elif not replay_fails(b["rel"], text):
                    res.notes.append("a coverage-guided failure did not reproduce in a process of its own")
                out = os.path.join(REPLAYS, f"{pid}-fuzz.txt")
                open(out, "w").write(text)
                res.violation = out
                break
            raise NoAnswer(f"fuzzer ended with {r.returncode}: {r.stderr[-800:]}")
        res.parts.append({"build": "fuzz", "evaluations": cases, "distinct_nontrivial": 0, "nontrivial": nontriv, "inner_checks": 0, "rule": "", "labels": {}, "samples": [],
                          "stages": [{"stage": f"coverage-guided, {CPUS} processes", "kind": "libFuzzer", "cases": cases, "nontrivial": nontriv, "wall_s": round(time.time() - t, 2)}],
                          "more": {"fuzz_units_added": units}})
        log(f"[{pid} fuzz] {cases} executions, {nontriv} non-trivial, {units} inputs kept, {time.time() - t:.1f}s")
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------------
# properties

# percent of the harness's own counts of random cases, so that a quick check spends its time well
SCALE = {
    "C01": 500, "C02": 400, "C03": 400, "C04": 300, "C05": 700, "C06": 700, "C07": 800, "C08": 1000, "C09": 100, "C10": 2000, "C11": 2000,
    "C12": 3000, "C13": 2000, "C14": 2000, "C15": 400, "C16": 700, "C17": 500, "C18": 200, "C19": 400, "C23": 400,
}


# properties with a byte-driven generator, and executions per process
FUZZED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C15", "C16", "C17", "C18", "C19", "C21", "C23"}
FUZZ_RUNS = int(os.environ.get("VP_FUZZ_RUNS", "2000000" if TIER == "thorough" else "0"))


def plan(pid):
    """[(variant, percent of the random cases, which stages)]"""
    t = TIER == "thorough"
    if pid == "C20":
        return [("fuel", 500, None)]
    if pid == "C21":
        # a debug build uses stack for calls that an optimised one turns into jumps; under AddressSanitizer panics cost much
        return [("chkstd", 200, None), ("plain", 5, None if t else "mark runs|texts to"), ("asan", 20, "every |hangul|mark runs|texts to|plain text|random structured|random normalized|random runs|size hints"), ("asan", 1, "random panics"), ("miri", 100, "short texts")] + ([("chk", 100, None), ("rel", 100, None)] if t else [])
    if pid == "C23":
        return [("rel", SCALE[pid], None), ("tsan", 60 if t else 15, None)]
    s = SCALE.get(pid, 100)
    # 1.2 * 10^12 pairs once are enough
    return [("rel", s, None)] + ([("chk", s // 3, "the |every |random" if pid == "C12" else None)] if t else [])


def generic(pid, res):
    p = plan(pid)
    bins = build_all(list(dict.fromkeys("rel" if v in MIRI else v for v, _, _ in p)))
    for i, (v, scale, only) in enumerate(p):
        if v in MIRI:
            held = run_check(res, pid, bins["rel"], v, scale=scale, only=only, env={"VP_AGAINST": miri_command(v)})
        else:
            held = run_check(res, pid, bins[v], v if v not in [x for x, _, _ in p[:i]] else f"{v} {i}", scale=scale, only=only)
        if not held:
            return
    if pid in FUZZED and FUZZ_RUNS:
        fuzz_stage(pid, res, FUZZ_RUNS)


def c22(pid, res):
    """The same cases in five builds; the digests of everything the library answered must agree."""
    names = ["rel", "relno", "plain", "plainno", "native"]
    bins = {}
    harness_copy()
    failed = {}
    with ThreadPoolExecutor(5) as ex:
        for n, f in {n: ex.submit(build, n) for n in names + ["i686"]}.items():
            try:
                bins[n] = f.result()
            except NoAnswer as e:
                failed[n] = str(e)
    if "could not compile `unicode-normalization`" not in failed.get("i686", "could not compile `unicode-normalization`"):
        raise NoAnswer(failed["i686"])
    if failed:
        if "rel" in failed:
            raise NoAnswer(next(iter(failed.values())))
        # it builds in one configuration and not in another
        rp = os.path.join(REPLAYS, f"{pid}-build.txt")
        os.makedirs(REPLAYS, exist_ok=True)
        open(rp, "w").write(f"property {pid}\nfound builds as {sorted(bins)} but not as {sorted(failed)}\n" + "\n".join(failed.values()))
        res.violation = rp
        return
    others = [("i686", bins["i686"], None, 100), ("s390x", miri_command("s390x"), "short texts", 40)]
    others += [("miri", miri_command("miri"), "short texts", 40)] if TIER == "thorough" else []
    for triple in hints.targets(REPO)[:4]:
        try:
            others.append((f"elsewhere {triple}", miri_command("elsewhere", triple), "short texts", 120))
        except NoAnswer as e:
            # Miri cannot run it here; what can be run was
            log(e)
    for n, other, only, scale in others:
        if not run_check(res, pid, bins["rel"], n, scale=scale, only=only, env={"VP_AGAINST": other}):
            return
    dig = {}
    for n in names:
        d = os.path.join(BUILD, f"digests-{n}.txt")
        if not run_check(res, pid, bins[n], n, digests=d):
            return
        dig[n] = open(d).read().splitlines()
    res.notes.append(f"{len(dig['rel'])} digests of 512 cases each compared between {len(names)} builds")
    for n in names[1:]:
        if len(dig[n]) != len(dig["rel"]):
            raise NoAnswer("digest files differ in length")
        for a, b in zip(dig["rel"], dig[n]):
            if a != b:
                si, blk, _ = a.split()
                la, lb = (vp(bins[k], "block", pid, si, blk, "--tier", TIER, "--seed", SEED).stdout.splitlines() for k in ("rel", n))
                for x, y in zip(la, lb):
                    if x != y:
                        case = x.split(" ", 1)[1].replace("/", "\n") + "\n"
                        text = f"property {pid}\nbuild rel and {n}\nstage {si}\nfound the builds answer differently\n{case}"

                        def differ(t):
                            p = os.path.join(BUILD, f"try-{os.getpid()}.txt")
                            open(p, "w").write(t)
                            return vp(bins["rel"], "transcript", p).stdout != vp(bins[n], "transcript", p).stdout

                        if differ(text):
                            text = shrink_outside(text, differ)
                            p = os.path.join(BUILD, f"try-{os.getpid()}.txt")
                            open(p, "w").write(text)
                            ta, tb = (vp(bins[k], "transcript", p).stdout.splitlines() for k in ("rel", n))
                            text += "".join(f"# {n1}\n# {n2}\n" for n1, n2 in zip(ta, tb) if n1 != n2)
                        rp = os.path.join(REPLAYS, f"{pid}-{n}.txt")
                        os.makedirs(REPLAYS, exist_ok=True)
                        open(rp, "w").write(text)
                        res.violation = rp
                        return
                raise NoAnswer("a block's digests differ but none of its cases does")


def c23(pid, res):
    generic(pid, res)
    if res.violation:
        return
    t = TIER == "thorough"
    try:
        hop = build_all(["hop"])["hop"]
    except NoAnswer as e:
        if not re.search(r"cannot be (sent|shared) between threads", str(e)):
            raise
        # the same harness without this part was built and run above
        res.violation = os.path.join(REPLAYS, f"{pid}-hop.txt")
        open(res.violation, "w").write(f"property {pid}\nfound an adapter over a source that may change threads may not\n{e}\n")
        return
    if not run_check(res, pid, hop, "hop"):
        return
    bins = build_all(["rel", "tsan"])
    for name, cases in (("rel", 100000 if t else 6000), ("tsan", 20000 if t else 1500)):
        ev, rp = os.path.join(BUILD, f"ev-C23-cold-{name}.json"), os.path.join(REPLAYS, f"C23-cold-{name}.txt")
        for f in (ev, rp):
            if os.path.exists(f):
                os.remove(f)
        r = vp(bins[name], "cold", "--seed", SEED, "--cases", cases, "--replay-out", rp, "--evidence-out", ev, env=ON_NIGHTLY.get(name, (0, 0, 0, {}))[3])
        sys.stderr.write(r.stderr[-3000:])
        if os.path.exists(ev):
            part = json.load(open(ev))
            part["build"] = name
            if name != "rel":
                part.pop("more")
            res.parts.append(part)
        if r.returncode == 1 and os.path.exists(rp):
            res.violation = rp
            return
        if r.returncode:
            raise NoAnswer(f"first calls ended with {r.returncode}: {r.stderr[-1500:]}")
    c23_weave(pid, res, bins["rel"])


def weave_words(threads, rounds, own, texts):
    w = [threads, rounds, own, len(texts)]
    for cs, d in texts:
        w += [len(cs)] + cs + d
    return struct.pack(f"<{len(w)}I", *w)


def weave_read(path):
    b = open(path, "rb").read()
    w = struct.unpack(f"<{len(b) // 4}I", b)
    at, texts = 4, []
    for _ in range(w[3]):
        k = w[at]
        texts.append((list(w[at + 1 : at + 1 + k]), list(w[at + 1 + k : at + 3 + k])))
        at += 3 + k
    return w[0], w[1], w[2], texts


def c23_weave(pid, res, rel):
    """A few threads in Miri: each seed is another schedule and another choice of the values that relaxed loads may see."""
    where, env, cmd = miri_command("weave")
    files, seeds = (150, 32) if TIER == "thorough" else (12, 8)
    d = os.path.join(BUILD, "weave-cases")
    os.makedirs(d, exist_ok=True)
    t0 = time.time()

    def run(path, a, b, serial=False):
        e = dict(env, VP_WEAVE=path, MIRIFLAGS=env["MIRIFLAGS"] + f" -Zmiri-many-seeds={a}..{b}")
        if serial:
            e["VP_SERIAL"] = "1"
        try:
            r = subprocess.run(cmd, cwd=where, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            return "time", ""
        if r.returncode == 0:
            return None, ""
        for what, sign in (("a wrong answer", "WRONG thread"), ("undefined behaviour", "Undefined Behavior"), ("a deadlock", "deadlock"), ("a panic", "panicked at")):
            if sign in r.stdout:
                return what, "\n".join(l for l in r.stdout.splitlines() if sign in l)[:1500]
        return "other", r.stdout[-1500:]

    done, undecided, samples = 0, 0, []
    for k in range(files):
        path = os.path.join(d, f"{k}")
        r = vp(rel, "weave", "--seed", SEED * 1000 + k, "--out", path)
        if r.returncode:
            raise NoAnswer(f"vp weave ended with {r.returncode}: {r.stderr[-800:]}")
        case = weave_read(path)
        if len(samples) < 12:
            samples.append(f"{case[0]} threads, {case[1]} rounds, {'orders of their own' if case[2] else 'one order'}: " + " | ".join(" ".join(f"{c:04X}" for c in cs) for cs, _ in case[3]))
        a = (SEED * 100000 + k * seeds) % 1000000
        what, out = run(path, a, a + seeds)
        if what in ("time", "other"):
            undecided += 1
            log(f"weave {k}: {what} {out[-300:]}")
            continue
        if what and run(path, 0, 1, serial=True)[0]:
            # wrong with one thread too: not for this stage to judge
            undecided += 1
            continue
        done += seeds
        if not what:
            continue
        # fewer texts, fewer threads, one round, as long as some of the seeds still show it
        best, end, changed = case, time.time() + 60, True
        while changed and time.time() < end:
            changed = False
            th, ro, own, texts = best
            smaller = [(th, ro, own, texts[:i] + texts[i + 1 :]) for i in range(len(texts)) if len(texts) > 2] + ([(2, ro, own, texts)] if th > 2 else []) + ([(th, 1, own, texts)] if ro > 1 else [])
            for c in smaller:
                p = os.path.join(d, "smaller")
                open(p, "wb").write(weave_words(*c))
                if run(p, a, a + seeds)[0] == what and not run(p, 0, 1, serial=True)[0]:
                    best, changed = c, True
                    break
        p = os.path.join(d, "smallest")
        open(p, "wb").write(weave_words(*best))
        out = run(p, a, a + seeds)[1] or out
        res.violation = os.path.join(REPLAYS, f"{pid}-weave.txt")
        with open(res.violation, "w") as f:
            f.write(f"property {pid}\nstage threads in Miri\nfound {what} under some of the schedules {a}..{a + seeds}, none with one thread\n")
            f.write(f"threads {best[0]} rounds {best[1]} own-orders {best[2]}\n" + "".join("text " + " ".join(f"{c:04X}" for c in cs) + "\n" for cs, _ in best[3]))
            f.write("words " + open(p, "rb").read().hex() + "\n# the words, as bytes of a file that VP_WEAVE names, run by: cd harness/weave && MIRIFLAGS='")
            f.write(env["MIRIFLAGS"] + f" -Zmiri-many-seeds={a}..{a + seeds}' cargo +nightly miri run\n" + "".join(f"# {l}\n" for l in out.splitlines()[:20]))
        break
    log(f"weave: {done} schedules of {files} cases in {time.time() - t0:.0f}s")
    res.parts.append({
        "build": "weave", "evaluations": done, "distinct_nontrivial": done, "inner_checks": 0, "samples": [], "labels": {},
        "stages": [{"name": "threads in Miri", "evaluations": done, "seconds": round(time.time() - t0, 1)}],
        "more": {"threads in Miri": {"cases": files, "schedules of each": seeds, "schedules decided": done, "cases left undecided": undecided, "samples": samples}},
    })


def c24(pid, res):
    import c24 as m
    m.check(sys.modules[__name__], pid, res)


ASSUME = [
    "the reference data (refdata/ucd16.txt) is Unicode 16.0.0's normalization data; it was built from sources independent of the repository (see DESIGN.md)",
    "the reference algorithms in harness/core/src/refimpl.rs are UAX #15's; they are checked against independent implementations (see DESIGN.md)",
]


def write_evidence(pid, res, wall):
    main = res.parts[0] if res.parts else {}
    cov = {
        "evaluations": sum(p["evaluations"] for p in res.parts),
        "distinct_nontrivial": max([p["distinct_nontrivial"] for p in res.parts] or [0]),
        "rule": main.get("rule", "") + ". distinct_nontrivial counts one run only (the largest), so cases repeated in another build are not counted twice",
        "samples": [s for p in res.parts[:1] for s in p["samples"]][:24],
        "inner_checks": sum(p.get("inner_checks", 0) for p in res.parts),
        "builds": {p["build"]: VARIANTS.get(p["build"].split(" ")[0], ("", "", ""))[2] for p in res.parts},
        "stages": [dict(s, build=p["build"]) for p in res.parts for s in p["stages"]],
        "labels": main.get("labels", {}),
    }
    for p in res.parts:
        for k, v in p.get("more", {}).items():
            cov[k] = v
    if res.notes:
        cov["notes"] = res.notes
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov, "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": int(res.violation is not None)}
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open(os.path.join(EVIDENCE, f"{pid}.json"), "w"), indent=1)


def main():
    pid = sys.argv[1]
    if pid == "setup":
        build_all([v for v in VARIANTS if v not in ("chk", "elsewhere") and v not in MIRI])
        for v in MIRI:
            miri_command(v)
        return 0
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    res = Result()
    # literals of a changed tree, for the generators
    path = os.path.join(BUILD, "hints.txt")
    try:
        n = hints.write(REPO, path)
    except Exception as e:
        n = 0
        log(f"no hints: {e}")
    if n:
        os.environ["VP_HINTS"] = path
        res.notes.append(f"{n} literals of the sources that the pinned ones lack were given to the generators")
        log(f"{n} literals that the pinned sources lack")
    try:
        {"C22": c22, "C23": c23, "C24": c24}.get(pid, generic)(pid, res)
    except NoAnswer as e:
        log(f"no answer: {e}")
        write_evidence(pid, res, time.time() - t)
        return 2
    write_evidence(pid, res, time.time() - t)
    if res.violation:
        print(open(res.violation, errors="replace").read()[:1500])
        print(f"VIOLATION property={pid} replay={res.violation}", flush=True)
        return 1
    n = sum(p["evaluations"] for p in res.parts)
    print(f"{pid} held on {n} cases ({TIER}, seed {SEED}, {time.time() - t:.0f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
