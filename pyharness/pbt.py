"""Property-based testing engine for the Python layer (same tape format, options and result file as harness/pbt.cpp).

A case is a function of a tape of integers. During generation the tape is drawn from a seeded generator and recorded in
shared memory, so that a crash of the process (every case runs in a forked worker) leaves the tape behind. A failing tape
is minimized by deleting, zeroing and halving entries, each attempt in a process of its own, and confirmed by two replays.
Reading past the end of a tape gives 0.
"""
import argparse, gc, hashlib, json, mmap, os, random, shutil, signal, struct, sys, tempfile, time, traceback

LIMIT = 20000  # entries of a tape


class Failure(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


class Discard(Exception):
    pass


class Shared:
    """State of one worker that survives its death: number of the case, tape."""
    def __init__(self):
        self.m = mmap.mmap(-1, 16 + 8 * LIMIT)

    def begin(self, number):
        self.m[0:16] = struct.pack("<QQ", number, 0)

    def put(self, n, v):
        struct.pack_into("<Q", self.m, 16 + 8 * n, v)
        struct.pack_into("<Q", self.m, 8, n + 1)

    def number(self):
        return struct.unpack_from("<Q", self.m, 0)[0]

    def tape(self):
        n = struct.unpack_from("<Q", self.m, 8)[0]
        return list(struct.unpack_from("<%dQ" % n, self.m, 16))


class Case:
    def __init__(self, tape=None, rng=None, shared=None):
        self.given, self.rng, self.shared = tape, rng, shared
        self.tape = []
        self.classes, self.counts, self.maxima = [], {}, {}
        self.nontrivial, self.note_text = False, ""
        self.dir = None

    # -- draws
    def draw(self, n):
        """Integer in [0, n)."""
        k = len(self.tape)
        if k >= LIMIT:
            raise Discard()
        if self.given is not None:
            v = self.given[k] % n if k < len(self.given) else 0
        else:
            v = self.rng.randrange(n)
        if self.shared is not None:
            self.shared.put(k, v)
        self.tape.append(v)
        return v

    def range(self, lo, hi):
        """Integer in [lo, hi]; 0 on the tape is lo."""
        return lo + self.draw(hi - lo + 1)

    def bool(self, percent=50):
        return self.draw(100) >= 100 - percent

    def real(self, lo, hi):
        """Real number in [lo, hi]; often a round one."""
        return lo + (hi - lo) * (self.draw(1000001) / 1000000.0 if self.draw(4) else self.draw(5) / 4.0)

    def log(self, lo, hi):
        import math
        return math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * self.draw(100001) / 100000.0)

    def pick(self, items):
        return items[self.draw(len(items))]

    def shuffle(self, items):
        items = list(items)
        for i in range(len(items) - 1):
            j = i + self.draw(len(items) - i)
            items[i], items[j] = items[j], items[i]
        return items

    # -- reports
    def check(self, cond, kind, msg):
        if not cond:
            raise Failure(kind, msg() if callable(msg) else msg)

    def known(self, key, kind, msg):
        """A listed finding is counted, anything else is a failure."""
        if key not in os.environ.get("PBT_KNOWN", "").split(","):
            raise Failure(kind, msg() if callable(msg) else msg)
        self.count("known:" + key)

    def label(self, name):
        if name not in self.classes:
            self.classes.append(name)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maximum(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, v), v)

    def note(self, text):
        self.note_text += text + " "


SUBS = []


def sub(prop, name, rule, quick, thorough, timeout=60):
    def deco(f):
        SUBS.append(dict(prop=prop, name=name, rule=rule, quick=quick, thorough=thorough, timeout=timeout, f=f))
        return f
    return deco


def quiet(path="/dev/null"):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def run_case(s, case, scratch):
    """One case in this process: (kind, message) of the failure or None."""
    case.dir = tempfile.mkdtemp(dir=scratch)
    os.chdir(case.dir)
    signal.alarm(s["timeout"])
    try:
        s["f"](case)
        gc.collect()
        return None
    except Discard:
        return ("discard", "")
    except Failure as e:
        return (e.kind, str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return ("exception", "%s: %s at %s" % (type(e).__name__, str(e)[:600], where))
    finally:
        signal.alarm(0)
        os.chdir(scratch)
        shutil.rmtree(case.dir, ignore_errors=True)


def isolated(s, tape, scratch, err=None):
    """Replays a tape in a process of its own: (kind, message, recorded tape)."""
    sh = Shared()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        quiet(err or "/dev/null")
        sh.begin(0)
        c = Case(tape=tape, shared=sh)
        res = run_case(s, c, scratch)
        os.write(w, json.dumps([res, c.note_text[:2000]]).encode()[:60000])
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if data:
        res, note = json.loads(data)
        return (res[0], res[1], sh.tape(), note) if res else (None, "", sh.tape(), note)
    return died(status) + (sh.tape(), "")


def died(status):
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        return ("hang", "the case did not end in time")
    if os.WIFSIGNALED(status):
        return ("crash", "the process died by signal %d" % os.WTERMSIG(status))
    if os.WEXITSTATUS(status) == 66:
        return ("sanitizer", "AddressSanitizer report")
    return ("crash", "the process ended with status %d" % os.WEXITSTATUS(status))


def shrink(s, tape, kind, scratch, deadline):
    def fails(t):
        return isolated(s, t, scratch)[0] == kind
    best = list(tape)
    while best and best[-1] == 0:
        best.pop()
    step = max(1, len(best) // 2)
    while step >= 1 and time.time() < deadline:
        i = 0
        while i < len(best) and time.time() < deadline:
            t = best[:i] + best[i + step:]
            if len(t) < len(best) and fails(t):
                best = t
                continue
            if any(best[i:i + step]):
                t = best[:i] + [0] * len(best[i:i + step]) + best[i + step:]
                if fails(t):
                    best = t
            i += step
        step //= 2
    for i in range(len(best)):
        while best[i] > 0 and time.time() < deadline:
            for v in (best[i] // 2, best[i] - 1):
                t = best[:i] + [v] + best[i + 1:]
                if fails(t):
                    best = t
                    break
            else:
                break
    while best and best[-1] == 0:
        best.pop()
    return best


def write_replay(path, s, kind, tape):
    with open(path, "w") as f:
        f.write("property %s\nsub %s\nkind %s\ntape %s\n" % (s["prop"], s["name"], kind, " ".join(map(str, tape))))


def read_replay(path):
    d = {}
    for line in open(path):
        k, _, v = line.strip().partition(" ")
        d[k] = v
    return d.get("property"), d.get("sub"), [int(x) for x in d.get("tape", "").split()]


def worker(s, seed, index, workers, n, deadline, scratch, sh, out, start):
    """Runs its share of the cases, appends one JSON line per case to the file `out`."""
    quiet()
    f = open(out, "a")
    for i in range(start, n):
        if i % workers != index:
            continue
        if time.time() > deadline:
            break
        sh.begin(i)
        c = Case(rng=random.Random("%s/%s/%d/%d" % (s["prop"], s["name"], seed, i)), shared=sh)
        res = run_case(s, c, scratch)
        rec = dict(i=i, nt=c.nontrivial, cl=c.classes, co=c.counts, mx=c.maxima, ln=len(c.tape))
        rec["h"] = hashlib.sha1(repr(c.tape).encode()).hexdigest()[:16]
        if c.note_text and i < 200:
            rec["note"] = c.note_text[:300]
        if res:
            rec["res"] = res
            if res[0] != "discard":
                rec["tape"] = c.tape
        f.write(json.dumps(rec) + "\n")
        f.flush()
        if res and res[0] != "discard":
            break
    f.close()
    os._exit(0)


def run(a):
    import QuESoPythonModule  # before the forks (no thread of the library is started by the import)
    try:
        import numpy, scipy.interpolate
    except ImportError:
        pass
    scratch = tempfile.mkdtemp(prefix="pypbt")
    subs = [s for s in SUBS if s["prop"] == a.prop and (not a.sub or s["name"] == a.sub)]
    res = dict(evaluations=0, discarded=0, nontrivial=0, distinct_nontrivial=0, regression_tapes=0, classes={}, known_excluded={},
               counts={}, maxima={}, subs={}, samples=[], failures=[])
    try:
        os.makedirs(a.failures, exist_ok=True)
        failed = []
        if a.regress and os.path.isdir(a.regress):
            for name in sorted(os.listdir(a.regress)):
                p, sn, tape = read_replay(os.path.join(a.regress, name))
                for s in subs:
                    if p == s["prop"] and sn == s["name"]:
                        res["regression_tapes"] += 1
                        k = isolated(s, tape, scratch)
                        if k[0] not in (None, "discard"):
                            failed.append((s, k[0], k[1], k[2]))
        share = a.cap / max(1, len(subs))
        for s in subs:
            if failed:
                break
            n = max(1, int((s["quick"] if a.tier == "quick" else s["thorough"]) * a.scale))
            deadline = time.time() + share
            t0 = time.time()
            outs, procs = [], {}
            w = a.workers
            for k in range(w):
                sh, out = Shared(), os.path.join(scratch, "w%d" % k)
                if os.path.exists(out):
                    os.remove(out)
                outs.append(out)
                pid = os.fork()
                if pid == 0:
                    worker(s, a.seed, k, w, n, deadline, scratch, sh, out, 0)
                procs[pid] = sh
            while procs:
                pid, status = os.wait()
                if pid not in procs:
                    continue
                sh = procs.pop(pid)
                if status != 0:
                    kind, msg = died(status)
                    failed.append((s, kind, "%s (case %d)" % (msg, sh.number()), sh.tape()))
                    deadline = 0
            seen, cases = set(), 0
            st = dict(cases=0, rule=s["rule"], nontrivial=0, discarded=0)
            for out in outs:
                if not os.path.exists(out):
                    continue
                for line in open(out):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    st["cases"] += 1
                    res["evaluations"] += 1
                    for cl in r["cl"]:
                        res["classes"][s["name"] + "/" + cl] = res["classes"].get(s["name"] + "/" + cl, 0) + 1
                    for k, v in r["co"].items():
                        if k.startswith("known:"):
                            res["known_excluded"][k[6:]] = res["known_excluded"].get(k[6:], 0) + v
                            continue
                        res["counts"][k] = res["counts"].get(k, 0) + v
                    for k, v in r["mx"].items():
                        res["maxima"][k] = max(res["maxima"].get(k, v), v)
                    rs = r.get("res")
                    if rs and rs[0] == "discard":
                        st["discarded"] += 1
                        res["discarded"] += 1
                    elif rs:
                        failed.append((s, rs[0], rs[1], r["tape"]))
                    elif r["nt"]:
                        st["nontrivial"] += 1
                        res["nontrivial"] += 1
                        seen.add(r["h"])
                        if r.get("note") and sum(1 for x in res["samples"] if x.startswith(s["name"])) < 5:
                            res["samples"].append("%s: %s" % (s["name"], r["note"]))
            st["distinct_nontrivial"] = len(seen)
            st["wall_s"] = round(time.time() - t0, 2)
            res["distinct_nontrivial"] += len(seen)
            res["subs"][s["name"]] = st
        done = set()
        for s, kind, msg, tape in failed:
            if (s["name"], kind) in done or len(done) >= 3:
                continue
            done.add((s["name"], kind))
            path = os.path.join(a.failures, "%s_%s_%s_%d.tape" % (s["prop"], s["name"], kind, a.seed))
            again = isolated(s, tape, scratch)
            ok = again[0] not in (None, "discard")
            if ok:
                kind = again[0]
                small = shrink(s, tape, kind, scratch, time.time() + a.shrink)
                final = isolated(s, small, scratch, path + ".log")
                ok = final[0] == kind and isolated(s, small, scratch)[0] == kind
                if ok:
                    tape, msg = small, final[1] + (" [" + final[3][:500] + "]" if final[3] else "")
                    if kind in ("crash", "sanitizer") and os.path.exists(path + ".log"):
                        text = open(path + ".log", errors="replace").read()
                        j = text.find("ERROR: AddressSanitizer")
                        if j >= 0:
                            msg += " " + text[j:j + 700]
            if os.path.exists(path + ".log"):
                os.remove(path + ".log")
            write_replay(path, s, kind, tape)
            res["failures"].append(dict(sub=s["name"], kind=kind, msg=msg, confirmed=bool(ok), replay=path))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    with open(a.out, "w") as f:
        json.dump(res, f)
    return 1 if any(x["confirmed"] for x in res["failures"]) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run", "replay"])
    ap.add_argument("file", nargs="?")
    for o, t, d in (("prop", str, ""), ("seed", int, 1), ("tier", str, "quick"), ("workers", int, 8), ("cap", float, 60),
                    ("scale", float, 1), ("shrink", float, 40), ("out", str, "/dev/null"), ("failures", str, "/tmp"),
                    ("regress", str, ""), ("sub", str, "")):
        ap.add_argument("--" + o, type=t, default=d)
    a = ap.parse_args()
    if "QUESO_PY" in os.environ:
        sys.path.insert(0, os.environ["QUESO_PY"])
    if "libasan" not in os.environ.get("LD_PRELOAD", "") and os.environ.get("PY_ASAN", "1") == "1":
        import subprocess
        lib = [subprocess.run(["gcc", "-print-file-name=" + x], capture_output=True, text=True).stdout.strip()
               for x in ("libasan.so", "libstdc++.so")]
        env = dict(os.environ, LD_PRELOAD=" ".join(os.path.realpath(x) for x in lib), PYTHONMALLOC="malloc", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=66:allocator_may_return_null=1:detect_odr_violation=0:abort_on_error=0:"
                                "max_allocation_size_mb=2000:quarantine_size_mb=64")
        os.execvpe(sys.executable, [sys.executable] + sys.argv, env)
    if a.cmd == "replay":
        import QuESoPythonModule
        p, sn, tape = read_replay(a.file)
        s = [x for x in SUBS if x["prop"] == p and x["name"] == sn][0]
        scratch = tempfile.mkdtemp(prefix="pypbt")
        err = os.path.join(scratch, "err")
        r = isolated(s, tape, scratch, err)
        if os.environ.get("PBT_STDERR"):
            print(open(err, errors="replace").read()[-6000:])
        shutil.rmtree(scratch, ignore_errors=True)
        print("property %s sub %s: %s %s %s" % (p, sn, r[0] or "held", r[1], r[3]))
        sys.exit(0 if r[0] in (None, "discard") else 1)
    sys.exit(run(a))
