"""Shared machinery: build the library from /repo, run drivers, run TLC."""
import concurrent.futures, hashlib, json, os, pickle, random, re, shutil
import subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, "build")
JAVA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
           "/opt/veriftools/tla/CommunityModules-deps.jar")

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


LOCK = threading.Lock()


class CheckError(Exception):
    """The machinery itself failed: no verdict."""


class Violation(Exception):
    def __init__(self, what, files=None):
        super().__init__(what)
        self.what = what
        self.files = files or {}


class Ctx:
    """One check run."""
    def __init__(self, prop):
        self.prop = prop
        self.tier = TIER
        self.seed = SEED
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.scratch = tempfile.mkdtemp(prefix="fsdyn-verif-")
        self.mc_states = 0
        self.mc_transitions = 0
        self.tv_states = 0
        self.tv_transitions = 0
        self.cases = 0
        self.events = 0
        self.samples = []
        self.capture = None     # collect scripts instead of running them
        self.notes = {}
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


# ---------------------------------------------------------------- building

def _tree_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "stage"))
        for f in sorted(files):
            if f == ".sconsign.dblite" or f.endswith("~"):
                continue
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            if os.path.islink(p):
                h.update(os.readlink(p).encode())
            else:
                with open(p, "rb") as fp:
                    h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()


VARIANTS = {
    "asan": ("-Wno-error -fsanitize=address -fsanitize-recover=address "
             "-fno-omit-frame-pointer", "-fsanitize=address"),
    "plain": ("-Wno-error", ""),
    # a call at every basic block, for the scheduler of harness/threads.c
    "threads": ("-Wno-error -O0 -fsanitize=address -fsanitize-recover=address "
                "-fno-omit-frame-pointer -fsanitize-coverage=trace-pc",
                "-fsanitize=address TRACE_STUB"),
}


def build_lib(variant="asan"):
    """Build libfsdyn.a from the current working tree of /repo.

    The tree is copied to a scratch folder and built there with the project's
    own SConstruct.  Finished libraries are kept in /verif/build, keyed by the
    content of the tree.
    """
    ccflags, linkflags = VARIANTS[variant]
    key = hashlib.sha256((_tree_hash() + variant + ccflags).encode()) \
                 .hexdigest()[:20]
    dest = os.path.join(CACHE, variant + "-" + key)
    if os.path.exists(os.path.join(dest, "libfsdyn.a")):
        os.utime(dest)
        return dest
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="fsdyn-build-")
    try:
        src = os.path.join(work, "repo")
        shutil.copytree(REPO, src, symlinks=True,
                        ignore=shutil.ignore_patterns(
                            ".git", "stage", ".sconsign.dblite", "*~"))
        if "TRACE_STUB" in linkflags:   # for the programs that are only built
            stub = os.path.join(work, "stub")
            with open(stub + ".c", "w") as f:
                f.write("void __sanitizer_cov_trace_pc(void) {}\n")
            subprocess.run(["gcc", "-c", stub + ".c", "-o", stub + ".o"],
                           check=True)
            linkflags = linkflags.replace("TRACE_STUB", stub + ".o")
        env = dict(os.environ, FSARCHS="linux64", FSCC="gcc",
                   FSCCFLAGS=ccflags, FSLINKFLAGS=linkflags,
                   ASAN_OPTIONS="detect_leaks=0:halt_on_error=0")
        target = "stage/linux64/build/src/libfsdyn.a"
        r = subprocess.run(["scons", "-j8", "-Q", target], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=600)
        lib = os.path.join(src, target)
        if r.returncode != 0 or not os.path.exists(lib):
            raise CheckError("library build failed (%s):\n%s" % (
                variant, r.stdout.decode(errors="replace")[-3000:]))
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=CACHE)
        os.chmod(tmp, 0o755)
        shutil.copy(lib, tmp)
        shutil.copytree(os.path.join(src, "include"),
                        os.path.join(tmp, "include"))
        try:
            os.rename(tmp, dest)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        _trim_cache()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dest


def _trim_cache(keep=8):
    """Old builds go; another run may be trimming at the same time."""
    ds = []
    for d in os.listdir(CACHE):
        p = os.path.join(CACHE, d)
        try:
            if os.path.isdir(p):
                ds.append((os.path.getmtime(p), p))
        except OSError:
            pass
    now = time.time()
    for t, p in sorted(ds)[:-keep]:
        if now - t > 900:
            shutil.rmtree(p, ignore_errors=True)


def build_driver(ctx, source, variant="asan", extra=(), cxx=False, tag=""):
    lib = build_lib(variant)
    exe = ctx.path(os.path.basename(source).rsplit(".", 1)[0] + "-" + variant + tag)
    if os.path.exists(exe):
        return exe
    cc = ["g++", "-std=c++17"] if cxx else ["gcc", "-std=gnu11"]
    san = ["-fsanitize=address"] if variant == "asan" else []
    _compile(cc + ["-g", "-O1", "-w", "-fno-builtin"] + san + [
        "-I", os.path.join(lib, "include"), "-I", HARNESS] + list(extra) + [
        os.path.join(HARNESS, source), os.path.join(lib, "libfsdyn.a"),
        "-lm", "-lpthread", "-ldl", "-o", exe])
    return exe


def _compile(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise CheckError("driver build failed: %s\n%s" % (
            " ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))


def build_threads(ctx, source, copies):
    """A program that runs copies of a driver at the same time, with
    harness/threads.c deciding at each basic block of the library whose turn
    it is."""
    lib = build_lib("threads")
    exe = ctx.path(source.rsplit(".", 1)[0] + "-threads")
    if os.path.exists(exe):
        return exe
    flags = ["-std=gnu11", "-g", "-O1", "-w", "-fno-builtin",
             "-fsanitize=address", "-DVERIF_THREADS",
             "-I", os.path.join(lib, "include"), "-I", HARNESS]
    objs = [exe + ".o", exe + "-driver.o"]
    _compile(["gcc"] + flags + ["-c", os.path.join(HARNESS, "threads.c"),
                                "-o", objs[0]])
    _compile(["gcc"] + flags + ["-c", os.path.join(HARNESS, source),
                                "-o", objs[1]])
    copied = []
    for k in range(copies):
        copied.append(exe + "-driver%d.o" % k)
        _compile(["objcopy", "--redefine-sym", "main=driver_%d" % k,
                  "--keep-global-symbol", "driver_%d" % k, objs[1], copied[-1]])
    _compile(["gcc", "-fsanitize=address", objs[0]] + copied + [
        os.path.join(lib, "libfsdyn.a"), "-lm", "-lpthread", "-ldl",
        "-o", exe])
    return exe


def run_driver(ctx, exe, script, name, timeout=120, args=(), reuse=False):
    """Feed the script to the driver; return its log as a list of JSON lines.
    With reuse, what is allocated next takes the place of what was just freed,
    as it is outside the sanitizer.

    If the driver dies or hangs, a final {"op": "Crash"} event is added, which
    no action of any specification explains.
    """
    lp = ctx.path(name + ".log")
    rc, err = _run(ctx, exe, script, name, lp, timeout, args, reuse)
    return _log(ctx, lp, rc, err)


def run_threads(ctx, exe, scripts, schedule, name, timeout=None):
    """Run copies of a driver at the same time, each with its script, taking
    turns as the schedule says: [(thread, basic blocks)].  Returns their logs,
    one after the other."""
    lp = ctx.path(name + ".log")
    rc, err = _run(ctx, exe, threads_script(scripts, schedule), name, lp,
                   timeout or ctx.pick(300, 1500), [str(len(scripts))],
                   logs=["%s.%d" % (lp, k) for k in range(len(scripts))])
    if rc == 0:
        with open(lp) as f:
            ctx.notes.setdefault("switches", {})[name] = int(f.read())
    return [l for k in range(len(scripts))
            for l in _log(ctx, "%s.%d" % (lp, k), rc, err)]


def threads_script(scripts, schedule):
    return "".join("turn %d %d\n" % turn for turn in schedule) + "".join(
        "script %d\n%s" % s for s in enumerate(scripts))


def _run(ctx, exe, script, name, lp, timeout, args, reuse=False, logs=()):
    sp = ctx.path(name + ".script")
    with open(sp, "w") as f:
        f.write(script)
    for p in (lp, *logs):
        if os.path.exists(p):
            os.unlink(p)
    # a local time that is not UTC; a stack that a recursion per element or
    # per character does not fit in
    env = dict(os.environ, TZ="XST-5:30XDT-6:30,M3.5.0,M10.5.0", LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:"
               "allocator_may_return_null=1:abort_on_error=0:"
               "detect_stack_use_after_return=1:strict_string_checks=0")
    if reuse:
        env["ASAN_OPTIONS"] += (":quarantine_size_mb=0:"
                                "thread_local_quarantine_size_kb=0")
    err = b""
    with open(sp) as fin:
        try:
            r = subprocess.run(["/bin/sh", "-c",
                                'ulimit -s 512; exec "$0" "$@"',
                                exe, lp] + list(args), stdin=fin, env=env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc = "timeout"
    if rc == 99:
        raise CheckError("driver rejected its script: " +
                         err.decode(errors="replace")[-500:])
    return rc, err


def _log(ctx, lp, rc, err):
    lines = []
    if os.path.exists(lp):
        with open(lp, "rb") as f:
            data = f.read().decode("latin-1")
        lines = data.split("\n")
        if lines and not lines[-1]:
            lines.pop()
        elif lines:
            lines.pop()             # partial line
    if rc != 0:
        m = re.search(rb"ERROR: AddressSanitizer: ([^\n]*)", err)
        why = m.group(1).decode(errors="replace") if m else \
            err.decode(errors="replace")[-200:]
        if not any(l.startswith('{"op":"case"') for l in lines):
            lines.insert(0, '{"op":"case"}')
        lines.append(json.dumps({"op": "Crash", "rc": str(rc),
                                 "why": re.sub(r"[^ -~]", "?", why)}))
        ctx.notes.setdefault("crash", why)
    return lines


# ---------------------------------------------------------------- TLC

class TlcResult:
    pass


def tlc(ctx, module, cfg=None, env=None, workers=8, timeout=600, extra=(),
        heap="6g", depth=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlc-", dir=ctx.scratch)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss512m",
           "-cp", JAVA_CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config",
           os.path.join(SPEC, cfg + ".cfg")] + list(extra) + [
               os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.rc = r.returncode
    res.out = r.stdout.decode(errors="replace")
    res.wall = time.time() - t
    res.generated = res.distinct = 0
    m = None
    for m in re.finditer(r"(\d+) states generated.*?, (\d+) distinct states",
                         res.out):
        pass
    if m:
        res.generated, res.distinct = int(m.group(1)), int(m.group(2))
    return res


def model_check(ctx, module, cfg=None, env=None, **kw):
    """Check a design-level model: any violation is an error of ours."""
    cache = os.environ.get("VERIF_MC_CACHE")    # for development only
    cached = cache and os.path.join(cache, (cfg or module) + ".pickle")
    if cached and os.path.exists(cached):
        with open(cached, "rb") as f:
            res = pickle.load(f)
    else:
        res = tlc(ctx, module, cfg, env, **kw)
        if cached and res.rc == 0:
            with open(cached, "wb") as f:
                pickle.dump(res, f)
    if res.rc != 0:
        raise CheckError("model checking %s/%s failed (rc %d):\n%s" % (
            module, cfg or module, res.rc, res.out[-4000:]))
    ctx.mc_states += res.distinct
    ctx.mc_transitions += max(res.generated - 1, 0)
    ctx.notes.setdefault("models", {})[cfg or module] = {
        "distinct_states": res.distinct, "states_generated": res.generated,
        "wall_s": round(res.wall, 1)}
    return res


def model_refute(ctx, module, cfg):
    """A variant of a model that must not hold: it tells that the invariants
    notice what they are there for."""
    res = tlc(ctx, module, cfg)
    if res.rc != 12:
        raise CheckError("TLC accepts %s (rc %d):\n%s" % (cfg, res.rc,
                                                         res.out[-2000:]))
    ctx.notes.setdefault("refuted", []).append(cfg)


def validate(ctx, lines, module, cfg=None, env=None, shard=150000,
             timeout=600, heap="12g", workers=8):
    """Check a log (many cases) against a trace specification.

    Each case starts with an event whose op is "case".  The trace
    specification consumes one event per step and deadlocks on an event it
    cannot explain.  Returns None, or (index into lines, TLC output).
    """
    starts = [i for i, l in enumerate(lines) if l.startswith('{"op":"case"')]
    if not starts or starts[0] != 0:
        raise CheckError("log does not start with a case")
    # shards at case boundaries
    shards, cur = [], 0
    for s in starts[1:]:
        if s - cur >= shard:
            shards.append((cur, s))
            cur = s
    shards.append((cur, len(lines)))
    for a, b in shards:
        fd, tp = tempfile.mkstemp("-trace.ndjson", dir=ctx.scratch)
        with open(fd, "w") as f:
            f.write("\n".join(lines[a:b]) + "\n")
        ncases = sum(1 for s in starts if a <= s < b)
        e = {"TRACE": tp}
        e.update(env or {})
        res = tlc(ctx, module, cfg, e, timeout=timeout, heap=heap,
                  workers=workers)
        os.unlink(tp)
        if res.rc == 0:
            if res.distinct != b - a:
                raise CheckError(
                    "trace validation of %s covered %d states, expected %d\n%s"
                    % (module, res.distinct, b - a, res.out[-3000:]))
            with LOCK:
                ctx.tv_states += res.distinct
                ctx.tv_transitions += b - a - ncases
                ctx.cases += ncases
                ctx.events += b - a
            continue
        if res.rc in (11, 12):
            ms = re.findall(r"^(?:/\\ )?l = (\d+)", res.out, re.M)
            if not ms:
                raise CheckError("cannot parse TLC rejection:\n" +
                                 res.out[-4000:])
            idx = a + int(ms[-1]) - 1
            if res.rc == 11:
                idx += 1
            return idx, res.out
        raise CheckError("TLC failed on %s (rc %d):\n%s\n...\n%s" % (
            module, res.rc, res.out[:1500], res.out[-3000:]))
    return None


def case_of(lines, idx):
    """The lines of the case that contains line idx, up to idx."""
    a = idx = min(idx, len(lines) - 1)
    while a > 0 and not lines[a].startswith('{"op":"case"'):
        a -= 1
    return a, idx


def project(lines, ops):
    """The cases of a log with only the events of one kind of container (what
    was taken from it and what no specification explains included)."""
    out, case, mine = [], [], False
    for l in lines + ['{"op":"case"']:
        if l.startswith('{"op":"case"'):
            if mine:
                out += case
            case, mine = [l], False
            continue
        if re.match(ops, l[7:]) or not re.match(r'\{"op":"(?!Crash")\w+"', l):
            mine = True
        elif not (ops[0] in "ah" and re.match(r'\{"op":"(loose|drop)"', l)):
            continue
        case.append(l)
    return out


def conform_parts(ctx, exe, script, name, parts, reuse=False, schedule=None):
    """Run a script that uses containers of all kinds and validate what was
    done with each kind by itself.  parts: (name, ops, module, cfg).  With a
    schedule, there is a script for each of some threads."""
    def run():
        if schedule:
            return run_threads(ctx, exe, script, schedule, name)
        return run_driver(ctx, exe, script, name, 120, (), reuse)
    lines = run()
    ctx.notes.setdefault("events", {})[name] = len(lines)
    ops = ctx.notes.setdefault("ops", {})
    for l in lines:
        m = re.match(r'\{"op":"([^"]*)"', l)
        if m:
            ops[m.group(1)] = ops.get(m.group(1), 0) + 1

    ctx.samples.append({"log": name, "events": [l[:300] for l in lines[:6]]})

    def check(part, log):
        mine = project(log, part[1])
        if not mine:
            raise CheckError("no events of " + part[0])
        return mine, validate(ctx, mine, part[2], part[3], heap="4g", workers=2)
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        found = list(pool.map(lambda p: check(p, lines)[1], parts))
    for part, bad in zip(parts, found):
        if bad is None:
            continue
        for _ in range(7):
            mine, bad = check(part, run())
            if bad is not None:
                break
        else:
            raise CheckError("rejection of %s was not reproducible" % name)
        a, b = case_of(mine, bad[0])
        excerpt = mine[a:b + 1]
        raise Violation("%s: event %d of the %s part (%s) is not a behaviour "
                        "of %s" % (name, bad[0] + 1, part[0],
                                   excerpt[-1][:400], part[2]), {
            "script.txt": threads_script(script, schedule) if schedule else script,
            "case.ndjson": "\n".join(excerpt) + "\n",
            "tlc.txt": bad[1][-20000:],
            "README.txt": "Driver script in script.txt; in case.ndjson what the "
            "rejected case did with one kind of container, the last line being "
            "the event that the specification does not allow; TLC's report in "
            "tlc.txt.\n"})


def conform(ctx, exe, script, name, module, cfg=None, env=None, timeout=120,
            args=(), describe="", tlc_timeout=600, ops_key="op", reuse=""):
    """Run the script on the real code and validate the log; raise Violation
    if the specification rejects it twice.  The script in reuse is another one,
    run where addresses are reused at once (True: so is the first)."""
    if reuse is True:
        script, reuse = "", script
    if ctx.capture is not None:
        ctx.capture.append((name, os.path.basename(exe), script + reuse,
                            list(args), reuse))
        return []

    def run():
        log = []
        if script:
            log += run_driver(ctx, exe, script, name, timeout, args)
        if reuse:
            log += run_driver(ctx, exe, reuse, name + "-reuse", timeout, args,
                              True)
        return log
    lines = run()
    if not lines:
        raise CheckError("driver produced no log")
    bad = validate(ctx, lines, module, cfg, env, timeout=tlc_timeout)
    if bad is None:
        if len(ctx.samples) < 6:
            a = 0
            n = next((i for i in range(1, len(lines))
                      if lines[i].startswith('{"op":"case"')), len(lines))
            ctx.samples.append({"log": name,
                                "events": [l[:300] for l in lines[a:min(n, a + 6)]]})
        ops = ctx.notes.setdefault("ops", {})
        for l in lines:
            m = re.match(r'\{"op":"([^"]*)"', l)
            if m:
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        return lines
    # confirm on a second run of the real code
    lines2 = run()
    bad2 = validate(ctx, lines2, module, cfg, env, timeout=tlc_timeout)
    for _ in range(6):
        # what depends on addresses or garbage need not show every time
        if bad2 is not None:
            break
        lines2 = run()
        bad2 = validate(ctx, lines2, module, cfg, env, timeout=tlc_timeout)
    if bad2 is None:
        raise CheckError("rejection of %s was not reproducible" % name)
    a, b = case_of(lines2, bad2[0])
    excerpt = lines2[a:b + 1]
    what = "%s: event %d (%s) is not a behaviour of %s" % (
        name, bad2[0] + 1, excerpt[-1][:400], module)
    raise Violation(what, {
        "script.txt": script + reuse, "case.ndjson": "\n".join(excerpt) + "\n",
        "tlc.txt": bad2[1][-20000:],
        "README.txt": "Driver script in script.txt; the rejected case, its "
        "last line being the event that the specification does not allow, in "
        "case.ndjson; TLC's report in tlc.txt.\n" + describe + "\n"})
