"""Shared supervisor pieces: paths, compilation, replay, shrinking, evidence, reporting."""
import hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CEST_REPO", "/repo")          # the tree under test
HARNESS = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
CXX = shutil.which("clang++-18") or shutil.which("clang++") or "clang++"
BASE = ["-std=c++2a", "-DCONSTEXPR_CEST=1", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# float-cast etc. are part of undefined; leaks are judged by the harness's own ledger
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:malloc_fill_byte=202:max_malloc_fill_size=4096:symbolize=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=43:second_deadlock_stack=0:history_size=4", UBSAN_OPTIONS="halt_on_error=1:exitcode=43:print_stacktrace=1", LC_ALL="C")
JOBS = max(2, os.cpu_count() or 4)
CASE_CPU = 30          # seconds of CPU after which one case (milliseconds normally) counts as not terminating


class HarnessError(Exception):
    pass


class Run:
    """One execution of a check: working directory, evidence and verdict."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.violations = 0
        self.level = "exploration"

    def save_replay(self, data, text, suffix=".bin"):
        h = hashlib.sha1(data).hexdigest()[:12]
        path = os.path.join(self.replays, "%s-%s%s" % (self.pid, h, suffix))
        with open(path, "wb") as f:
            f.write(data)
        if text:
            with open(path + ".txt", "w") as f:
                f.write(text)
        return path

    def violation(self, path, why):
        self.violations += 1
        print(why.strip()[:3000])
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        shutil.rmtree(self.dir, ignore_errors=True)
        if not self.violations:
            print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
                self.pid, self.cov["evaluations"], self.cov["distinct_nontrivial"], time.time() - self.t0))
        return 1 if self.violations else 0


def sh(cmd, timeout=600, cpu=None, **kw):
    """Runs a command; returns (rc, output). rc is negative for a signal, 'timeout' on wall limit."""
    def pre():
        os.setpgid(0, 0)
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         preexec_fn=pre, env=ENV, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return "timeout", out.decode("utf-8", "replace")


PUBLIC = [h for h in sorted(os.listdir(os.path.join(REPO, "include", "cest"))) if h.endswith(".hpp")] \
    if os.path.isdir(os.path.join(REPO, "include", "cest")) else []


def compile_cpp(run, src, out, flags):
    """Returns None on success, else the compiler's output."""
    units = [f for f in flags if f.startswith("units=")]
    if units:
        return compile_units(int(units[0][6:]), src, out, [f for f in flags if not f.startswith("units=")])
    rc, log = sh([CXX] + BASE + flags + [src, "-o", out], timeout=800)
    if rc == 0:
        return None
    return log


def compile_units(n, src, out, flags):
    """One source file compiled n times in parallel with VF_UNIT=0..n-1, and linked."""
    from concurrent.futures import ThreadPoolExecutor
    objs = ["%s.%d.o" % (out, i) for i in range(n)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda i: sh([CXX] + BASE + flags + ["-DVF_UNIT=%d" % i, "-c", src, "-o", objs[i]], timeout=800), range(n)))
    for rc, log in res:
        if rc != 0:
            return log
    rc, log = sh([CXX] + BASE + flags + objs + ["-o", out], timeout=800)
    return None if rc == 0 else log


def compile_or_report(run, src, out, flags):
    """Compiles a harness. If it does not compile although the library's own test program's
    view of the headers does, the interface the property speaks about is gone or ill-formed:
    that is a violation with the compiler log as its replay file."""
    log = compile_cpp(run, src, out, flags)
    if log is None:
        return True
    probe = os.path.join(run.dir, "probe.cpp")
    with open(probe, "w") as f:
        for h in ("vector", "string", "deque", "list", "forward_list", "set", "map", "queue", "memory",
                  "functional", "sstream", "iostream", "cstdio", "cmath", "cctype", "complex",
                  "algorithm", "numeric", "swap"):
            f.write('#include "cest/%s.hpp"\n' % h)
        f.write("int main() {}\n")
    plog = compile_cpp(run, probe, probe + ".out", ["-O0"])
    if plog is not None:
        raise HarnessError("the library's headers do not compile:\n" + plog[:3000])
    path = run.save_replay(log.encode(), None, ".compile.log")
    run.violation(path, "the property's harness no longer compiles against the library:\n" + log[:2000])
    return False


def outcome(binary, path, cpu=CASE_CPU):
    """Replays one case. Returns (kind, text): 'held' or the kind of failure."""
    rc, out = sh([binary, "replay", path], timeout=cpu * 20, cpu=cpu)
    if rc == 0:
        return "held", out
    if rc == 42:
        return "mismatch", out
    if rc == 43:
        return "sanitizer", out
    if rc in (98, 99):
        raise HarnessError("harness error %s on %s:\n%s" % (rc, path, out[:2000]))
    if rc == "timeout":
        raise HarnessError("wall-clock timeout replaying %s" % path)
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        return "no termination within %d s of CPU" % cpu, out
    return "crash (%s)" % rc, out


def shrink(run, binary, data, shape, budget_s=60, attempts=600):
    header, rec, nops = shape
    tmp = os.path.join(run.dir, "shrink.bin")
    t_end = time.time() + budget_s
    tries = [0]

    def bad(d):
        if tries[0] >= attempts or time.time() > t_end:
            return False
        tries[0] += 1
        with open(tmp, "wb") as f:
            f.write(d)
        return outcome(binary, tmp, cpu=CASE_CPU)[0] != "held"

    rec = max(1, rec)
    # whole records first, halving the chunk
    def records(d):
        body = d[header:]
        return [body[i:i + rec] for i in range(0, len(body), rec)]
    rs = records(data)
    head = data[:header]
    # failing prefix
    lo, hi = 0, len(rs)
    while lo + 1 < hi:
        mid = (lo + hi) // 2
        if bad(head + b"".join(rs[:mid])):
            hi = mid
        else:
            lo = mid
        if time.time() > t_end:
            break
    if hi < len(rs) and bad(head + b"".join(rs[:hi])):
        rs = rs[:hi]
    n = max(1, len(rs) // 2)
    while n >= 1:
        i = 0
        while i < len(rs):
            cand = rs[:i] + rs[i + n:]
            if bad(head + b"".join(cand)):
                rs = cand
            else:
                i += n
        if n == 1:
            break
        n //= 2
    data = bytearray(head + b"".join(rs))
    if rec == 1:
        pass
    for i in range(len(data)):
        if data[i] == 0:
            continue
        for v in (0, 1, data[i] // 2, data[i] - 1):
            if v < data[i]:
                old = data[i]
                data[i] = v
                if bad(bytes(data)):
                    break
                data[i] = old
        if tries[0] >= attempts or time.time() > t_end:
            break
    return bytes(data)


def read_cur(path):
    with open(path, "rb") as f:
        idx, n = struct.unpack("<QQ", f.read(16))
        return idx, f.read(n)


def confirm(run, binary, data, times=3):
    p = os.path.join(run.dir, "confirm.bin")
    with open(p, "wb") as f:
        f.write(data)
    kinds = []
    text = ""
    for _ in range(times):
        for _ in range(RETRY):
            k, t = outcome(binary, p)
            if k != "held":
                break
        kinds.append(k)
        if k != "held":
            text = t
    return kinds, text


def report_case(run, binary, data, shape):
    """Confirms, shrinks and reports one failing case. Returns True if reported."""
    kinds, text = confirm(run, binary, data)
    if "held" in kinds:
        return False
    small = shrink(run, binary, data, shape)
    kinds2, text2 = confirm(run, binary, small)
    if "held" in kinds2:
        small, kinds2, text2 = data, kinds, text
    path = run.save_replay(small, None)
    rc, out = sh([binary, "replay", path, "-v"], timeout=600, cpu=CASE_CPU)
    why = "%s: %s\n%s" % (run.pid, kinds2[0], out[:6000] or text2[:6000])
    with open(path + ".txt", "w") as f:
        f.write(why + "\n\nReplay: python3 %s/vlib/check.py %s --replay %s\n" % (VERIF, run.pid, path))
    run.violation(path, why)
    return True


RETRY = 1              # replays among which one failing is enough: more than one where threads are scheduled


def run_generated(run, src, quick, thorough, flags=None, fuzz_s=120, extra=None, label=None, threads=False):
    """The standard check: build the harness, run `quick` or `thorough` generated cases on all
    cores, recover and shrink the first failure, merge the statistics into the evidence."""
    global RETRY
    RETRY = 5 if threads else 1
    flags = (flags if flags is not None else SAN) + (extra or [])
    src = os.path.join(HARNESS, src)
    binary = os.path.join(run.dir, "harness" + (label or ""))
    if not compile_or_report(run, src, binary, flags):
        return
    rc, out = sh([binary, "shape"])
    if rc != 0:
        raise HarnessError("shape failed: " + out)
    l1, rule = out.split("\n")[:2]
    shape = tuple(int(x) for x in l1.split())
    total = thorough if TIER == "thorough" else quick
    workers = []
    for w in range(JOBS):
        cur = os.path.join(run.dir, "cur%s.%d" % (label or "", w))
        st = os.path.join(run.dir, "stats%s.%d" % (label or "", w))
        log = open(os.path.join(run.dir, "log%s.%d" % (label or "", w)), "wb")

        def pre():
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        cmd = [binary, "run", str(SEED), str(w), str(total), str(JOBS), cur, st]
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=pre, env=ENV)
        workers.append({"p": p, "cur": cur, "st": st, "last": None, "since": time.time(), "cmd": cmd, "log": log.name})
    failed = []
    live = set(range(JOBS))
    deadline = time.time() + (700 if TIER != "thorough" else 7200)
    while live:
        time.sleep(0.05)
        for w in list(live):
            W = workers[w]
            rc = W["p"].poll()
            if rc is not None:
                live.discard(w)
                if rc != 0:
                    failed.append((w, rc))
                continue
            try:
                idx = read_cur(W["cur"])[0]
            except Exception:
                idx = None
            if idx != W["last"]:
                W["last"], W["since"] = idx, time.time()
            elif time.time() - W["since"] > CASE_CPU + 15:
                # suspected hang: judged below by CPU time in an isolated replay
                os.killpg(W["p"].pid, signal.SIGKILL)
                W["p"].wait()
                live.discard(w)
                failed.append((w, "hang"))
        if failed or time.time() > deadline:
            for w in live:
                try:
                    os.killpg(workers[w]["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                workers[w]["p"].wait()
            if not failed:
                raise HarnessError("ran out of time before all cases were done")
            live = set()
    # merge statistics
    distinct = set()
    cov = run.cov
    cov["rule"] = (cov["rule"] + " " if cov["rule"] else "") + rule
    for W in workers:
        try:
            st = json.load(open(W["st"]))
        except Exception:
            continue
        cov["evaluations"] += st["evaluations"]
        for k, v in st["labels"].items():
            cov.setdefault("labels", {})
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        if len(cov["samples"]) < 6:
            cov["samples"] += st["samples"][:1]
        try:
            raw = open(W["st"] + ".hashes", "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except Exception:
            pass
    cov["distinct_nontrivial"] += len(distinct)
    for w, rc in failed:
        W = workers[w]
        if rc in (98, 99):
            raise HarnessError("worker failed with %s:\n%s" % (rc, open(W["log"], errors="replace").read()[-3000:]))
        idx, data = read_cur(W["cur"])
        if report_case(run, binary, data, shape):
            return
        report = open(W["log"], errors="replace").read()
        if threads and "WARNING: ThreadSanitizer: data race" in report and "/include/cest/" in report:
            # the detector reports no race that is not one; but this schedule did not come again
            path = run.save_replay(data, report)
            run.violation(path, "%s: a data race\n%s" % (run.pid, report[-3000:]))
            return
        # depends on what the process did before: rerun the worker up to that case
        agree = 0
        text = ""
        for _ in range(3):
            cmd = list(W["cmd"])
            cmd[4] = str(idx + 1)
            rc2, out = sh(cmd, timeout=1200)
            if rc2 not in (0, "timeout", 98, 99) and read_cur(W["cur"])[0] == idx:
                agree += 1
                text = out
        if agree == 3:
            path = run.save_replay((" ".join([os.path.basename(src)] + cmd[1:6]) + "\n" + text).encode(), None, ".range.txt")
            run.violation(path, "%s: fails only after the preceding cases of the same process\n%s" % (run.pid, text[-3000:]))
            return
        raise HarnessError("failure of case %d (%s) could not be reproduced:\n%s" % (
            idx, rc, open(W["log"], errors="replace").read()[-3000:]))
    if cov["evaluations"] == 0:
        raise HarnessError("no cases were run")
    if TIER == "thorough" and fuzz_s:
        fuzz(run, src, flags, shape, binary, fuzz_s, label or "")


def fuzz(run, src, flags, shape, binary, seconds, label):
    """Coverage-guided search with the same target and oracle (thorough tier)."""
    fb = os.path.join(run.dir, "fuzz" + label)
    log = compile_cpp(run, src, fb, flags + ["-DVF_FUZZ", "-fsanitize=fuzzer"])
    if log is not None:
        raise HarnessError("fuzz target does not compile:\n" + log[:2000])
    procs = []
    for j in range(JOBS):
        d = os.path.join(run.dir, "corpus%s.%d" % (label, j))
        os.makedirs(d)
        art = os.path.join(run.dir, "art%s.%d-" % (label, j))
        cmd = [fb, d, "-seed=%d" % (SEED * 100 + j + 1), "-max_total_time=%d" % seconds, "-max_len=1500", "-len_control=20",
               "-timeout=120", "-rss_limit_mb=3000", "-artifact_prefix=" + art, "-print_final_stats=1", "-verbosity=0"]
        env = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":handle_abort=1")
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=run.dir), art))
    units = 0
    for p, art in procs:
        out = p.communicate()[0].decode("utf-8", "replace")
        for line in out.splitlines():
            if "stat::number_of_executed_units" in line:
                units += int(line.split(":")[-1])
    run.cov["libfuzzer_executions"] = run.cov.get("libfuzzer_executions", 0) + units
    for name in sorted(os.listdir(run.dir)):
        if name.startswith("art" + label + ".") and ("crash" in name or "timeout" in name):
            data = open(os.path.join(run.dir, name), "rb").read()
            if report_case(run, binary, data, shape):
                return
