"""What is built and run for every property."""
import os
from driver import Job, NPROC

SEED_STEP = 1_000_003

def shards(ctx, prog, fl, mode, quick, thorough, n=NPROC, extra=(), name=None, first=0, **kw):
    total = thorough if ctx["thorough"] else quick
    per = max(1, total // n)
    exe = os.path.join(ctx["work"], fl, prog)
    if fl == "plain":
        kw["runner"] = VALGRIND
    out = []
    for i in range(n):
        out.append(Job("%s-%s-%d" % (name or mode, fl, i), [exe, mode, "--seed", str(ctx["seed"] * SEED_STEP), "--start", str(first + i * per), "--cases", str(per),
                       "--tier", ctx["tier"], *extra], timeout=kw.get("timeout", 400 if not ctx["thorough"] else 3000),
                       **{k: v for k, v in kw.items() if k != "timeout"}))
    return out

VALGRIND = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--num-callers=12", "--undef-value-errors=yes", "--max-stackframe=8000000"]

PLANS = {}

def simple(pid, prog, mode, quick, thorough, rule, need, extra=(), assumptions=()):
    PLANS[pid] = {
        "build": {(prog, "asan"): {}, (prog, "clang"): {}},
        "jobs": lambda ctx: shards(ctx, prog, "asan", mode, quick, thorough, extra=extra)
            + shards(ctx, prog, "clang", mode, quick // 4, thorough // 4, extra=extra, first=100_000_000),
        "rule": rule, "need": need, "assumptions": list(assumptions),
    }

simple("C14", "t_vector", "run", 40000, 2000000,
       "random item sizes, initial capacities and operation sequences compared item by item with a list; non-trivial: more than one item held; distinct by size, capacity and operation sequence",
       ["append", "append_ptr", "grew", "reverse", "reverse_twice", "oversize_refused", "ptr_refused", "leak_checked"])
simple("C12", "t_sparse", "dict", 12000, 300000,
       "random insert/overwrite/lookup sequences over seven key families (colliding slots, equal 64-bit hashes, prefixes, long, binary) compared with a map; non-trivial: more than one key; distinct by the sequence of keys",
       ["insertions", "overwrites", "lookups_present", "lookups_absent", "tables_grown", "leak_checked", "colliding_pairs"])
simple("C13", "t_sparse", "array", 30000, 1000000,
       "random store/read sequences in several orders and array sizes around group boundaries compared with a map; non-trivial: more than one position stored; distinct by size and positions",
       ["stores", "overwrites", "reads", "oversize_refused", "outside_refused", "leak_checked"])
simple("C11", "t_util", "decode", 600000, 30000000,
       "random byte strings encoded in random styles and decoded back, plus malformed strings, in exactly sized buffers; non-trivial: contains an escape or plus; distinct by input",
       ["valid", "malformed", "escapes"])
simple("C19", "t_util", "cookie", 60000, 4000000,
       "random cookie strings with nested and extended names; every name of the vocabulary looked up; non-trivial: malformed or at least two cookies; distinct by string",
       ["present", "wellformed", "malformed", "lookups"])
simple("C22", "t_util", "helper", 120000, 6000000,
       "random calls of the bounded search, suffix test, hash, range parser and file helpers against naive specifications; non-trivial: every search; distinct by haystack, needle and length",
       ["strnstr_found", "strnstr_absent", "endswith_true", "endswith_false", "hashes_long", "ranges", "files"], extra=("--scratch", "@SCRATCH@"))

REQ_WRAP = ["recv", "read", "recvfrom", "recvmsg", "send", "write", "sendto", "sendmsg", "writev", "close", "poll", "mmap", "mmap64", "munmap", "open", "open64"]

SRV_WRAP = ["mq_open", "mq_unlink", "mq_send", "mq_timedsend", "mq_receive", "mq_timedreceive", "accept", "accept4", "listen", "close", "open", "open64", "recv", "read", "send", "write"]

def srv_jobs(ctx, mode, fl, quick, thorough):
    return shards(ctx, "t_srv", fl, mode, quick, thorough, extra=("--scratch", "@SCRATCH@"), name="srv-" + mode, queues=True)

def req(pid, quick, thorough, rule, need, assumptions=(), valgrind=0, server=None, fort=0):
    build = {("t_req", "asan"): {"wrap": REQ_WRAP}, ("t_req", "clang"): {"wrap": REQ_WRAP}}
    if fort:
        build[("t_req", "fort")] = {"wrap": REQ_WRAP}
    if server:
        build[("t_srv", "asan")] = {"wrap": SRV_WRAP}
    if valgrind:
        build[("t_req", "plain")] = {"wrap": REQ_WRAP}
    def jobs(ctx):
        out = srv_jobs(ctx, pid, "asan", *server) if server else []
        out += shards(ctx, "t_req", "asan", pid, quick, thorough, extra=("--scratch", "@SCRATCH@"))
        out += shards(ctx, "t_req", "clang", pid, quick // 6, thorough // 6, n=4, first=100_000_000, extra=("--scratch", "@SCRATCH@"))
        if fort:
            out += shards(ctx, "t_req", "fort", pid, fort, fort * 50, n=4, first=200_000_000, extra=("--scratch", "@SCRATCH@"))
        if valgrind:
            out += shards(ctx, "t_req", "plain", pid, valgrind, valgrind * 50, extra=("--scratch", "@SCRATCH@"))
        return out
    PLANS[pid] = {
        "build": build,
        "jobs": jobs,
        "rule": rule, "need": need, "assumptions": list(assumptions),
    }

req("C01", 20000, 2000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan, and with the C library's checked string functions; random, mutated and truncated request bytes, after which a well-formed probe must be answered; the same under valgrind memcheck for uninitialised reads; plus running servers with hostile and stalling clients; non-trivial: every hostile input; distinct by bytes and script", ["hostile_answered", "hostile_refused", "probes", "end_stall", "end_reset", "end_close", "end_shutdown", "stalling_clients", "hostile_clients", "answered"], valgrind=1600, server=(64, 3000), fort=8000)
req("C02", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; what the handler saw (method, path, header text, body, header lookups in several spellings, absent and look-alike names) compared with the generated request; non-trivial: every request; distinct by request and segmentation", ["requests_compared", "header_lookups", "segments"], fort=3000)
req("C03", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; the client's bytes parsed and compared with what the handler produced; also under valgrind so that uninitialised bytes cannot be sent unnoticed; non-trivial: every response; distinct by response and script", ["responses_compared", "with_custom_headers", "kind_static", "kind_heap", "kind_raw", "kind_file", "kind_rendered", "kind_none"], valgrind=800, fort=4000)
req("C04", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; random route tables; the handler called and its capture positions compared with an independent first-match over regexec; non-trivial: every request; distinct by table and request", ["routed", "unrouted", "declined"], fort=3000)
req("C05", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; random bodies and Range values; the answer must be the bytes, positions and size it says; non-trivial: every request with a range; distinct by range, body size and code", ["range_satisfied", "range_full_200"])
req("C06", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; clean-up calls (status, body, order) logged per route for every outcome, descriptors and live heap compared before and after; plus running servers with hostile clients over three identical rounds; non-trivial: every case; distinct by case", ["cleanups", "send_failures", "files_missing", "hostile_clients", "cleanup_calls"], server=(40, 2400))
req("C09", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; random files (sizes around pages, all extensions and letter cases, missing, directories, unreadable kinds) served or rendered and compared; non-trivial: every file; distinct by size, name and mode", ["files_served", "files_rendered", "files_missing"])
req("C10", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan; random form fields and encodings, well-formed and damaged pairs, every name and absent names looked up; non-trivial: every form; distinct by body", ["form_fields", "form_absent"])
req("C24", 12000, 1000000, "each case is one connection to the real request path (m38_generate_response, m38_send_response) over a socket pair with scripted kernel behaviour (segments, short, interrupted and failing transfers, clean or reset ends) under ASan+UBSan, with standard output read back after it; the access record compared with the request sent and the answer received, records counted for answered and refused requests, and line ends, control sequences and whole records put into the values that are logged; plus running servers with several workers and hostile clients, whose whole log is matched with the requests; non-trivial: every answered request; distinct by request and script", ["access_records", "access_compared", "injections", "control_bytes", "hostile_refused", "answered", "log_lines"], server=(32, 1600))

def tmpl(pid, quick, thorough, rule, need, data=False, tsan=False, assumptions=()):
    build = {("t_tmpl", "asan"): {}, ("t_tmpl", "clang"): {}}
    if pid != "C18":
        build[("t_tmpl", "fort")] = {}
    if tsan:
        build[("t_tmpl", "tsan")] = {}
    def jobs(ctx):
        out = shards(ctx, "t_tmpl", "asan", pid, quick, thorough, extra=("--scratch", "@SCRATCH@"))
        out += shards(ctx, "t_tmpl", "clang", pid, quick // 8, thorough // 8, n=4, first=100_000_000, extra=("--scratch", "@SCRATCH@"))
        if pid != "C18":
            out += shards(ctx, "t_tmpl", "fort", pid, quick // 4, thorough // 4, n=4, first=200_000_000, extra=("--scratch", "@SCRATCH@"))
        if tsan:
            out += shards(ctx, "t_tmpl", "tsan", "threads", quick // 20, thorough // 20, extra=("--scratch", "@SCRATCH@"))
        if data:
            out += shards(ctx, "t_tmpl", "asan", pid + "data", 1, 1, n=1, extra=("--scratch", "@SCRATCH@"))
        return out
    PLANS[pid] = {"build": build, "jobs": jobs, "rule": rule, "need": need, "assumptions": list(assumptions)}

tmpl("C15", 12000, 600000, "random contexts and templates of text, decoys and references compared byte for byte with a reference interpreter; non-trivial: at least one reference; distinct by template and rendering", ["renders", "variables", "big_template"], data=True)
tmpl("C16", 12000, 600000, "the same with loops and conditionals; non-trivial: at least one directive; distinct by template and rendering", ["renders", "loops", "conditionals", "complement_yes", "complement_no", "complement_member"])
tmpl("C17", 12000, 600000, "the same with includes and filters, the log of filter calls and clean-ups compared as well; non-trivial: at least one directive; distinct by template and rendering", ["renders", "includes", "filter_calls"], data=True)
tmpl("C18", 2600, 300000, "repeated and reordered renders of generated templates from one context with heap deltas and a digest of the context, and the same from several threads under ThreadSanitizer; non-trivial: more than one render; distinct by templates", ["renders", "contexts", "never_rendered", "concurrent_renders", "pure_conditionals"], tsan=True)

def srv(pid, asan, tsan, rule, need):
    build = {("t_srv", "asan"): {"wrap": SRV_WRAP}}
    if tsan:
        build[("t_srv", "tsan")] = {"wrap": SRV_WRAP}
    def jobs(ctx):
        out = []
        if tsan:
            out += srv_jobs(ctx, pid, "tsan", *tsan)
        if asan:
            out += srv_jobs(ctx, pid, "asan", *asan)
        return out
    PLANS[pid] = {"build": build, "jobs": jobs, "rule": rule, "need": need}

srv("C07", (80, 4000), (80, 4000), "one case = one real server process with 1-8 workers and 2-24 concurrent client connections sending token-carrying requests, some hostile, with random delays around every queue operation, accept, transfer and close; the client compares each answer with the one for its own token, handler calls are counted per request, descriptors of connections are watched for double use, once under ThreadSanitizer and once under ASan+UBSan; non-trivial: more than one worker or client; distinct by the hash of the observed order of queue, accept and close events", ["answered", "delays", "handler_calls"])
srv("C08", (96, 6000), (48, 1200), "as C07, in six scenarios: responses much larger than the chunk and the socket buffers with few workers, failing accepts, interrupted calls, mostly hostile clients, hardly any free descriptors, slow readers on many workers; bounded progress: every well-behaved client, late ones included, has its complete answer within 75 s (the slowest normally takes well under 1 s); non-trivial and distinct as C07", ["answered", "accept_faults", "interrupted_calls"])

LOG_WRAP = ["gettimeofday", "time", "clock_gettime", "fputs", "fputc", "putc", "fwrite", "fprintf", "vfprintf", "fflush", "write"]
PLANS["C21"] = {
    "build": {("t_log", "asan"): {"wrap": LOG_WRAP}, ("t_log", "tsan"): {"wrap": LOG_WRAP}},
    "jobs": lambda ctx: shards(ctx, "t_log", "asan", "one", 16000, 1600000, extra=("--scratch", "@SCRATCH@"))
        + shards(ctx, "t_log", "asan", "threads", 800, 60000, extra=("--scratch", "@SCRATCH@"))
        + shards(ctx, "t_log", "tsan", "threads", 800, 60000, extra=("--scratch", "@SCRATCH@")),
    "rule": "one thread: random levels, formats, lengths around the buffer size, clocks and time zones, the stream read back after every call; many threads: unique messages on files and small pipes with slow readers, all lines parsed, matched with the calls and counted (also under ThreadSanitizer); non-trivial: more than one record; distinct by the streams' content or the order of the threads in them", "need": ["records", "cut", "to_stderr", "to_stdout", "concurrent_records", "on_pipes", "on_files"],
}

def py_jobs(ctx):
    import subprocess, driver
    out = []
    libasan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    gen = os.path.join(ctx["work"], "plain", "t_tmpl")
    def add(name, fl, mode, total, n, env):
        per = max(1, total // n)
        for i in range(n):
            e = {"LD_LIBRARY_PATH": os.path.join(ctx["work"], fl), **env}
            if fl == "asan":
                e["LD_PRELOAD"] = libasan
            out.append(Job("%s-%d" % (name, i), ["/usr/bin/python3", os.path.join(driver.VERIF, "harness", "t_py.py"), mode, "--seed", str(ctx["seed"] * SEED_STEP + len(out)),
                "--start", str(i * per), "--cases", str(per), "--scratch", "@SCRATCH@", "--gen", gen, "--repo", ctx["repo"],
                "--lib", os.path.join(ctx["work"], fl, "lib38moths.so")], timeout=400 if not ctx["thorough"] else 3000, env=e))
    k = 60 if ctx["thorough"] else 1
    add("asan", "asan", "run", 2400 * k, 4, {"PYTHONMALLOC": "malloc"})
    add("plain", "plain", "run", 3000 * k, 2, {})
    add("mmap", "plain", "run", 600 * k, 2, {"PYTHONMALLOC": "malloc", "MALLOC_MMAP_THRESHOLD_": "64", "MALLOC_MMAP_MAX_": "60000", "MALLOC_PERTURB_": "165"})
    add("perturb", "plain", "run", 1200 * k, 2, {"PYTHONMALLOC": "malloc_debug", "MALLOC_PERTURB_": "85"})
    add("threads", "plain", "threads", 1200 * k, 2, {})
    add("threads-asan", "asan", "threads", 600 * k, 2, {"PYTHONMALLOC": "malloc"})
    return out

PLANS["C20"] = {
    "build": {("t_tmpl", "plain"): {}, ("lib", "plain"): {"shared": True}, ("lib", "asan"): {"shared": True}},
    "jobs": py_jobs, "rule": "generated contexts and templates (non-ASCII text, nested dicts, lists, filters) rendered through the repository's Python classes and compared with the reference interpreter, the log of filter calls too; plain, under ASan, with every C allocation in its own mapping, with poisoned freed memory, from several threads; non-trivial: every case; distinct by template",
    "need": ["renders", "threaded_renders", "filter_calls", "non_ascii", "nested", "lists", "contexts_above_4g"],
}

PLANS["C23"] = {
    "build": {("t_srv", "asan"): {"wrap": SRV_WRAP}},
    "jobs": lambda ctx: srv_jobs(ctx, "C23", "asan", 720, 24000),
    "rule": "up to three servers killed with SIGKILL at a chosen event (any queue operation, accept, listen, transfer or close) or time with requests in every stage, then a port held by somebody else, then a server that has to serve with up to four rivals trying to start on its port; monitors: every client of the last server answered, requests handled once, no message received that was not sent, no descriptor used that is not held, failed starts return failure; non-trivial: every case; distinct by the sequence of runs, kill points and messages left", "need": ["servers_killed", "killed_at_event", "killed_by_time", "refused_starts", "rivals_refused", "answered"],
}

# ---- how each is decided, for the manifest ------------------------------------------
_SAN = "runtime monitoring: "
TECH = {
    "C01": _SAN + "ASan/UBSan/memcheck on the request path with scripted kernel behaviour, running server with hostile clients",
    "C02": _SAN + "handler-side recorder compared with the generated request",
    "C03": _SAN + "client-side response parser compared with the handler's output under scripted short/interrupted sends",
    "C04": _SAN + "independent first-match routing model",
    "C05": _SAN + "range oracle over the bytes the client received",
    "C06": _SAN + "clean-up log, descriptor table and live-heap accounting (in-process and running server)",
    "C07": _SAN + "ThreadSanitizer and unique-token cross-talk monitor on the running server with injected delays",
    "C08": _SAN + "bounded-progress monitor on the running server with injected faults",
    "C09": _SAN + "file content and extension-table oracle",
    "C10": _SAN + "form decoder model",
    "C24": _SAN + "access record oracle over the recorded standard output",
    "C11": _SAN + "encode/decode round trip in exactly sized ASan buffers",
    "C12": _SAN + "map model, adversarial keys, ASan and heap accounting",
    "C13": _SAN + "indexed-store model, ASan and heap accounting",
    "C14": _SAN + "list model, ASan and heap accounting",
    "C15": _SAN + "reference template interpreter",
    "C16": _SAN + "reference template interpreter",
    "C17": _SAN + "reference template interpreter and filter call/clean-up log",
    "C18": _SAN + "context digest, heap accounting and ThreadSanitizer over repeated and concurrent renders",
    "C19": _SAN + "cookie parser model in exactly sized ASan buffers",
    "C20": _SAN + "reference interpreter against the real Python binding under several allocators and ASan",
    "C21": _SAN + "stream monitor with unique messages, ThreadSanitizer",
    "C22": _SAN + "naive specifications in exactly sized ASan buffers",
    "C23": _SAN + "kill -9 at chosen events, leftover-message and answer monitors on successor servers and rivals",
}
for _p, _t in TECH.items():
    PLANS[_p]["technique"] = _t
