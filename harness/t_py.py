"""C20: the Python classes of the repository against the reference interpreter's
renderings (emitted by `t_tmpl emit`), with the interpreter's objects placed by
different allocators, under ASan, and from several Python threads."""
import sys
sys.dont_write_bytecode = True
import argparse, ctypes, gc, hashlib, json, mmap, os, random, struct, subprocess, threading, warnings
warnings.simplefilter("ignore")

ap = argparse.ArgumentParser()
ap.add_argument("mode")
for o in ("seed", "start", "cases", "tier", "out", "cur", "scratch", "gen", "repo", "lib", "only"):
    ap.add_argument("--" + o)
A = ap.parse_args()
if A.only is not None:
    A.start, A.cases = A.only, "1"
out = open(A.out, "a")
fd = os.open(A.cur, os.O_RDWR | os.O_CREAT, 0o600)
os.ftruncate(fd, 4096)
cur = mmap.mmap(fd, 4096)

def note(kase, what):
    b = what.encode("utf-8", "replace")[:3900]
    cur[0:16] = struct.pack("<QQ", kase, 0)
    cur[16:16 + len(b) + 1] = b + b"\0"

def violation(key, kase, msg):
    out.write(json.dumps({"ev": "violation", "key": key, "case": kase, "msg": msg[:3500]}) + "\n")
    out.flush()

# the cases
env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONMALLOC") and not k.startswith("MALLOC_")}
emitted = os.path.join(A.scratch, "cases.jsonl")
subprocess.run([A.gen, "emit", "--seed", A.seed, "--start", A.start, "--cases", A.cases, "--scratch", A.scratch, "--emit", emitted,
                "--out", "/dev/null", "--cur", os.path.join(A.scratch, "gen.cur")], env=env, check=True)
os.chdir(A.scratch)

note(int(A.start), "importing the binding")
sys.path.insert(0, os.path.join(A.repo, "python"))
import greshunkel as G
mapped = open("/proc/self/maps").read()
if A.lib not in mapped:
    print("HARNESS: the library under test is not the one loaded", file=sys.stderr)
    sys.exit(70)

M = (1 << 64) - 1
def hash64(b):
    h = 1469598103934665603
    for c in b:
        h = ((h ^ c) * 1099511628211) & M
    h ^= h >> 29
    h = (h * 0xBF58476D1CE4E5B9) & M
    return h ^ (h >> 32)

def apply(fn, arg):
    has, a = arg is not None, arg or b""
    if fn == 0:
        return bytes(a.upper()).replace(b"X", b"Q") if has else b"NOARG"
    if fn == 2:
        return b"<b>" + a + b"</b>" + b"!" * (len(a) % 7) if has else b"<b/>"
    if fn == 3:
        return b"fixed"
    if fn == 4:
        return b"%d:%08x" % (len(a), hash64(a) & 0xffffffff) if has else b"-"
    return b""

tls = threading.local()
def make_filter(fn):
    def f(arg):
        tls.calls.append([fn, 0 if arg is None else 1, (arg or b"").hex()])
        return apply(fn, arg)
    return G.GshklFilterFunc(f)

def text(h):
    return bytes.fromhex(h).decode()

def value(v):
    if "s" in v:
        return text(v["s"])
    if "i" in v:
        return v["i"]
    if "l" in v:
        return [value(x) for x in v["l"]]
    return {text(k): value(x) for k, x in v["d"]}

stats = {}
lock = threading.Lock()
def stat(k, n=1):
    with lock:
        stats[k] = stats.get(k, 0) + n

def build(c, rnd, ctx="ctx"):
    items = [(text(k), value(v)) for k, v in c[ctx]] + [(text(k), make_filter(fn)) for k, fn in c["filters"]]
    rnd.shuffle(items)
    return G.Context(dict(items))

high = 0
def render(c, ctx, when, template=None, which=""):
    tls.calls = []
    got = (template or G.Template(text(c["text"]))).render(ctx)
    want = text(c["want" + which])
    stat("renders")
    if type(got) is not str:
        violation("py-type", c["case"], "%s: render returned %r" % (when, type(got)))
        return False
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        violation("py-render", c["case"], "%s: template %r: first difference at %d: want ...%r, got ...%r" % (when, text(c["text"])[:1200], i, want[max(0, i - 30):i + 60], got[max(0, i - 30):i + 60]))
        return False
    if tls.calls != c["calls" + which]:
        violation("py-filter-calls", c["case"], "%s: template %r: want calls %r, saw %r" % (when, text(c["text"])[:1200], c["calls" + which][:20], tls.calls[:20]))
        return False
    return True

def stir(rnd):
    # Reuses whatever was freed too early.
    gc.collect()
    return [bytes([rnd.randrange(256)]) * rnd.randrange(1, 600) for _ in range(rnd.randrange(60))]

distinct, samples, bad, n = set(), [], 0, 0
cases = [json.loads(l) for l in open(emitted)]
for c in cases:
    rnd = random.Random(c["case"] * 7919 + int(A.seed))
    n += 1
    note(c["case"], "template " + ascii(text(c["text"])))
    for p, d in c["files"]:
        p = text(p)
        os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
        open(p, "wb").write(bytes.fromhex(d))
    ok = True
    if A.mode == "threads":
        shared = build(c, rnd) if rnd.random() < 0.5 else None
        junk = stir(rnd)
        def work(seed):
            r = random.Random(seed)
            try:
                for i in range(r.randrange(1, 4)):
                    render(c, shared or build(c, r), "in a thread")
                    stat("threaded_renders")
            except Exception as e:
                violation("py-exception", c["case"], "in a thread: template %r: %r" % (text(c["text"])[:1200], e))
        ts = [threading.Thread(target=work, args=(rnd.random(),)) for _ in range(rnd.randrange(2, 6))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    else:
        try:
            ctx = build(c, rnd)
            high += ctx.gshkl_ctext > 0xffffffff
            junk = stir(rnd)
            ok = render(c, ctx, "first render")
            if ok and rnd.random() < 0.3:
                junk = stir(rnd)
                other = build(c, rnd)
                ok = render(c, ctx, "second render") and render(c, other, "from another context")
            if ok and rnd.random() < 0.3:
                # one Template object, contexts with other values that come and go
                t = G.Template(text(c["text"]))
                for i in range(3):
                    which = rnd.choice(("", "2"))
                    x = build(c, rnd, "ctx" + which)
                    ok = ok and render(c, x, "from a reused Template", t, which)
                    del x
                stat("reused_templates")
            if ok and rnd.random() < 0.05:
                # texts without directives that look alike, as Templates side by side
                base = "".join(rnd.choice("abc \u00e9<>&") for _ in range(rnd.choice((10, 70, 300, 3000))))
                plain = [base + "1", base + "2", "w" + base, base + "1", base[:len(base) // 2] + "q" + base[len(base) // 2:]]
                ts = [G.Template(x) for x in plain]
                for i in [rnd.randrange(5) for _ in range(8)]:
                    got = ts[i].render(ctx)
                    if got != plain[i]:
                        violation("py-plain", c["case"], "a text without directives, %r, became %r" % (plain[i][-60:], got[-60:]))
                        ok = False
                        break
                stat("look_alikes")
        except Exception as e:
            violation("py-exception", c["case"], "template %r: %r" % (text(c["text"])[:1200], e))
            ok = False
    for p, d in c["files"]:
        os.unlink(text(p))
    stat("filter_calls", len(c["calls"]))
    stat("non_ascii", any(ord(x) > 127 for x in text(c["want"])))
    stat("nested", any("d" in v for k, v in c["ctx"]))
    stat("lists", any("l" in v for k, v in c["ctx"]))
    distinct.add(c["text"])
    if len(samples) < 2:
        samples.append(ascii(text(c["text"])[:200]) + " -> " + ascii(text(c["want"])[:200]))
    bad += not ok
    if bad >= 3:
        break
stat("contexts_above_4g", high)
stat("cases", n)
out.write(json.dumps({"ev": "stats", "mode": A.mode, "stats": {k: int(v) for k, v in stats.items()}, "distinct": len(distinct), "samples": samples}) + "\n")
out.flush()
sys.stderr.flush()
os._exit(0)
