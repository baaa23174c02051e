"""Builds the library and the harnesses from the repository's working tree, runs
jobs, collects what the monitors saw and turns it into one verdict."""
import concurrent.futures as cf
import ctypes
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = 8

UBSAN = "-fsanitize=undefined -fno-sanitize=nonnull-attribute,alignment -fno-sanitize-recover=all"
FLAVOURS = {
    # name: (flags for the library, flags for the harness, link flags)
    "asan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address " + UBSAN,
             "-O1 -g -DHARNESS_ASAN", "-fsanitize=address,undefined"),
    "tsan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
             "-O1 -g -fsanitize=thread", "-fsanitize=thread"),
    # glibc's checked string functions see overflows inside one structure
    "fort": ("-O2 -g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=2", "-O1 -g", ""),
    # another compiler: optimises differently and knows other kinds of undefined behaviour
    "clang": ("-O2 -g -fno-omit-frame-pointer -fsanitize=address " + UBSAN,
              "-O1 -g -DHARNESS_ASAN", "-fsanitize=address,undefined"),
    "plain": ("-O1 -g -fno-omit-frame-pointer", "-O1 -g", ""),
}
def compilers(fl):
    return ("clang", "clang++") if fl == "clang" else ("gcc", "g++")

# Files of src/ that define main() of the project's own tests.
def library_sources():
    out = []
    for name in sorted(os.listdir(os.path.join(REPO, "src"))):
        path = os.path.join(REPO, "src", name)
        if name.endswith(".c") and not re.search(r"^\s*(int|void)\s+main\s*\(", open(path, errors="replace").read(), re.M):
            out.append(path)
    return out


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout


class Builder:
    def __init__(self, work):
        self.work = work
        self.inc = os.path.join(work, "include")
        shutil.copytree(os.path.join(REPO, "include"), self.inc)
        # C99 array qualifiers are not C++; no layout changes.
        for root, _, files in os.walk(self.inc):
            for f in files:
                p = os.path.join(root, f)
                s = open(p, errors="replace").read()
                s = re.sub(r"\[\s*(?:static|const)\b\s*([^\]]*)\]", r"[\1]", s)
                # forward declarations of what is also a typedef
                s = re.sub(r"^\s*struct\s+\w+\s*;\s*$", "", s, flags=re.M)
                open(p, "w").write(s)

    def build(self, targets):
        """targets: {(program, flavour): spec} -> compiles everything needed in parallel."""
        srcs = library_sources()
        jobs = []
        for fl in sorted({f for _, f in targets}):
            os.makedirs(os.path.join(self.work, fl), exist_ok=True)
            for s in srcs:
                o = os.path.join(self.work, fl, os.path.basename(s)[:-2] + ".o")
                jobs.append([compilers(fl)[0]] + FLAVOURS[fl][0].split() + ([] if "FORTIFY" in FLAVOURS[fl][0] else ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]) + ["-fPIC", "-pthread", "-w", "-I" + os.path.join(REPO, "include"), "-c", s, "-o", o])
        for (prog, fl), spec in targets.items():
            if spec.get("shared"):
                continue
            o = os.path.join(self.work, fl, prog + ".harness.o")
            jobs.append([compilers(fl)[1], "-std=c++20", "-fpermissive", "-Drestrict=__restrict__", "-D_Static_assert=static_assert", "-D_Noreturn=", "-D_Thread_local=thread_local"] + FLAVOURS[fl][1].split() + ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-pthread", "-w", "-I" + os.path.join(VERIF, "lib"), "-I" + self.inc,
                         "-c", os.path.join(VERIF, "harness", prog + ".cpp"), "-o", o])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(sh, jobs))
        links = []
        for (prog, fl), spec in targets.items():
            objs = [os.path.join(self.work, fl, os.path.basename(s)[:-2] + ".o") for s in srcs]
            if spec.get("shared"):
                links.append(["gcc", "-shared", "-pthread", "-Wl,-soname,lib38moths.so"] + FLAVOURS[fl][2].split() + objs +
                             ["-o", os.path.join(self.work, fl, "lib38moths.so"), "-lm", "-lrt"])
                continue
            links.append([compilers(fl)[1], "-pthread", "-rdynamic"] + FLAVOURS[fl][2].split() + [os.path.join(self.work, fl, prog + ".harness.o")] + objs +
                         ["-Wl,--wrap=" + w for w in spec.get("wrap", []) + (["regexec"] if fl == "tsan" else [])] + ["-o", os.path.join(self.work, fl, prog), "-lm", "-lrt"])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(sh, links))


def san_env():
    env = dict(os.environ)
    for k in list(env):
        if k.endswith("SAN_OPTIONS") or k.startswith("LD_"):
            del env[k]
    env["ASAN_OPTIONS"] = "exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=1500:quarantine_size_mb=64:handle_abort=0:handle_segv=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_thread_leaks=0:report_signal_unsafe=0:history_size=4"
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C.UTF-8"
    return env


def crash_key(rc, err):
    """A name for how a run died that does not depend on addresses, paths or seeds."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+(?: \S+)?) \S*?(?:/|\()([^\s/()]+?)(?::\d+)*\)? in (\S+)", err)
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2).split()[0], m.group(4))
    m = re.search(r"([\w.-]+\.[ch]):\d+:\d+: runtime error: (.*)", err)
    if m:
        return "UBSan:%s:%s" % (m.group(1), re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))[:80])
    m = re.search(r"SUMMARY: (\w+Sanitizer): (.*)", err)
    if m:
        return "%s:%s" % (m.group(1), re.sub(r"0x[0-9a-f]+|\d+|/\S+/", "", m.group(2))[:80])
    if "*** buffer overflow detected ***" in err:
        return "fortify:buffer-overflow"
    m = re.search(r"(\w[\w.]*\.c):\d+: (\w+): Assertion", err)
    if m:
        return "assertion:%s:%s" % (m.group(1), m.group(2))
    m = re.search(r"== (Invalid (?:read|write|free)|Conditional jump|Use of uninit|Syscall param \S+|Mismatched free|Source and destination overlap|Jump to the invalid)[^\n]*", err)
    if m:
        f = re.search(r"(?:at|by) 0x[0-9A-F]+: (\w+) \((\w+\.c):\d+\)", err[m.start():])
        return "valgrind:%s:%s" % (m.group(1).replace(" ", "-"), f.group(1) if f else "?")
    if rc == 77:
        return "endless-loop"
    if rc is not None and rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%s" % rc


def report_tail(err):
    for pat in (r"=+\n==\d+==ERROR", r"\S+: runtime error", r"WARNING: ThreadSanitizer", r"buffer overflow detected", r"Assertion", r"==\d+== (Invalid|Conditional|Use of|Syscall|Source)"):
        m = re.search(pat, err)
        if m:
            return err[max(0, m.start() - 200):m.start() + 3500]
    return err[-2500:]


class Result:
    def __init__(self):
        self.violations = []   # dicts: key, msg, case, job
        self.inconclusive = [] # strings
        self.stats = {}
        self.distinct = 0
        self.samples = []
        self.cases = 0
        self.jobs = []

    def add_stats(self, ev, prefix=""):
        for k, v in ev["stats"].items():
            if k == "cases":
                self.cases += v
            name = prefix + k
            self.stats[name] = self.stats.get(name, 0) + v
        self.distinct += ev["distinct"]
        self.samples += ev["samples"][: 2]


# Set as soon as one job has found something that is not a known finding.
enough = threading.Event()
stop_at = []
GRACE = 20


def kill_session(sid):
    """Ends every process of the session we started with `sid`."""
    for _ in range(3):
        found = False
        for d in os.listdir("/proc"):
            if not d.isdigit():
                continue
            try:
                st = open("/proc/%s/stat" % d).read()
            except OSError:
                continue
            f = st[st.rindex(")") + 2:].split()
            if int(f[3]) == sid and f[0] != "Z":
                try:
                    os.kill(int(d), signal.SIGKILL)
                    found = True
                except OSError:
                    pass
        if not found:
            return


def remove_queues(pid, cmd):
    """Message queues outlive their processes; removes what a killed harness left (t_srv names them by pid and case)."""
    start, n = (int(cmd[cmd.index(o) + 1]) for o in ("--start", "--cases"))
    if "--only" in cmd:
        start, n = int(cmd[cmd.index("--only") + 1]), 1
    try:
        unlink = ctypes.CDLL("librt.so.1").mq_unlink
    except (OSError, AttributeError):
        unlink = ctypes.CDLL(None).mq_unlink
    for case in range(start, start + n):
        for q in ("mothsaqueue", "mothshqueue"):
            unlink(("/m38verif.%d.%d.%s" % (pid, case % 100000, q)).encode())


class Job:
    """One harness process. cmd is the full argument vector without --out/--cur."""
    n = 0

    def __init__(self, name, cmd, timeout=150, env=None, runner=None, ok_codes=(0,), cwd=None, queues=False):
        Job.n += 1
        self.name, self.cmd, self.timeout, self.env, self.runner = name, cmd, timeout, env or {}, runner or []
        self.id = Job.n
        self.ok_codes = ok_codes
        self.cwd = cwd
        self.queues = queues

    def once(self, work, extra=()):
        base = os.path.join(work, "job%d-%d" % (self.id, int(time.time() * 1e6) % 10**9))
        out, cur, errp = base + ".out", base + ".cur", base + ".err"
        scratch = base + ".scratch"
        os.makedirs(scratch)
        env = san_env()
        env.update(self.env)
        cmd = list(self.runner) + [c.replace("@SCRATCH@", scratch) for c in self.cmd] + list(extra) + ["--out", out, "--cur", cur]
        t0 = time.time()
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, start_new_session=True,
                                 cwd=self.cwd or scratch)
            rc, abandoned = None, False
            while True:
                rc = p.poll()
                if rc is not None or time.time() - t0 > self.timeout:
                    break
                if enough.is_set():
                    # Somebody else has already decided; leave what is running a moment.
                    if not stop_at:
                        stop_at.append(time.time() + GRACE)
                    if time.time() > stop_at[0]:
                        abandoned = True
                        break
                time.sleep(0.01 if time.time() - t0 < 2 else 0.05)
            kill_session(p.pid)
            if self.queues:
                remove_queues(p.pid, cmd)
            if rc is None:
                p.wait()
            if abandoned:
                rc = "abandoned"
        err = open(errp, "rb").read()[-200000:].decode(errors="replace")
        events = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    events.append(json.loads(line))
                except ValueError:
                    pass
        kase, what = None, ""
        if os.path.exists(cur):
            raw = open(cur, "rb").read()
            if len(raw) >= 16:
                kase = int.from_bytes(raw[:8], "little")
                what = raw[16:].split(b"\0")[0].decode(errors="replace")
        shutil.rmtree(scratch, ignore_errors=True)
        for f in (out, cur, errp):
            if os.path.exists(f):
                os.unlink(f)
        return rc, events, err, kase, what, time.time() - t0

    def run(self, work, res_lock, res):
        tries = []
        for attempt in range(2):
            if enough.is_set() and stop_at and time.time() > stop_at[0]:
                return
            rc, events, err, kase, what, wall = self.once(work)
            tries.append((rc, kase))
            viol = [e for e in events if e["ev"] == "violation"]
            stats = [e for e in events if e["ev"] == "stats"]
            if viol or rc in self.ok_codes and stats:
                break
            if rc is None or rc == 70 or rc in (-9, 137):
                continue  # timed out, harness trouble or killed: once more
            break
        if rc == "abandoned":
            return
        with res_lock:
            res.jobs.append({"name": self.name, "rc": rc, "wall_s": round(wall, 1)})
            for e in stats:
                res.add_stats(e)
            for e in viol:
                res.violations.append({"key": e["key"], "msg": e["msg"], "case": e.get("case"), "job": self})
                if e["key"] not in self.known_keys:
                    enough.set()
            if viol:
                return
            if rc in self.ok_codes and stats:
                return
            if rc is None:
                # Both attempts were still busy with the same case long after everything else
                # of its kind was done: it blocks for ever.
                if len(tries) == 2 and tries[0] == tries[1] and kase is not None and self.blocks_are_violations:
                    res.violations.append({"key": "blocked", "msg": "two runs blocked for ever in the same case: " + what, "case": kase, "job": self})
                else:
                    res.inconclusive.append("%s: timed out after %d s (case %s: %s)" % (self.name, self.timeout, kase, what[:300]))
                return
            if rc in (-9, 137, 70, 127) or rc in self.ok_codes:
                res.inconclusive.append("%s: exit %s\n%s" % (self.name, rc, err[-1500:]))
                return
            key = crash_key(rc, err)
            if key not in self.known_keys:
                enough.set()
            res.violations.append({"key": key, "msg": "died with %s in case %s: %s\n%s" % (key, kase, what, report_tail(err)), "case": kase, "job": self})

    blocks_are_violations = True
    known_keys = frozenset()


def run_jobs(jobs, work, res, parallel=NPROC):
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(parallel) as ex:
        list(ex.map(lambda j: j.run(work, lock, res), jobs))


# ---- known findings --------------------------------------------------------

def known_findings():
    """Lines `known: property=<id> key=<key> <what>`; other lines are records."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out
