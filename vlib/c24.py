"""Compile-time evaluation: generated programs as constant expressions, against run time and std."""
import math, os, random, re, struct, time
from concurrent.futures import ThreadPoolExecutor
import common
from common import sh, CXX, BASE, HARNESS, JOBS, SEED, TIER, HarnessError

# group -> list of (name, header bytes, record bytes, operations, most operations, has a std counterpart)
GROUPS = [
    [("vector<int>", 0, 6, 24, 30, 1), ("vector<Own>", 0, 6, 24, 22, 1), ("vector<vector<int>>", 0, 6, 24, 16, 1), ("vector<Wide>", 0, 6, 24, 18, 1), ("vector<Pod>", 0, 6, 24, 18, 1)],
    [("string", 0, 8, 24, 24, 1), ("wstring", 0, 8, 24, 20, 1)],
    [("deque<int>", 0, 6, 20, 24, 1), ("deque<Own>", 0, 6, 20, 18, 1), ("queue<int>", 0, 5, 14, 20, 1), ("queue<Own,list>", 0, 5, 14, 18, 1), ("deque<int> of several chunks", 0, 6, 20, 6, 1)],
    [("list<int>", 0, 5, 22, 24, 1), ("list<Own>", 0, 5, 22, 20, 1), ("forward_list<int>", 0, 5, 16, 24, 1), ("forward_list<Own>", 0, 5, 16, 20, 1)],
    [("set<int>", 1, 5, 16, 22, 1), ("set<Tagged,ByKDown>", 1, 5, 16, 18, 1), ("map<int,int>", 1, 5, 16, 20, 1), ("map<Own,Own>", 1, 5, 16, 14, 1)],
    [("unique_ptr", 0, 4, 16, 30, 1), ("shared_ptr", 1, 4, 16, 26, 1), ("shared_ptr<T[]>", 1, 4, 16, 24, 1), ("function", 0, 4, 14, 28, 1), ("function returning nothing", 0, 4, 14, 28, 1), ("unique_ptr chains", 0, 4, 16, 26, 1), ("shared_ptr chains", 0, 4, 16, 26, 1), ("shared_ptr to wholes and parts", 0, 4, 22, 30, 1)],
    [("istringstream", 3, 6, 16, 20, 1), ("stringstream", 3, 6, 16, 20, 1), ("wistringstream", 3, 6, 16, 16, 1), ("fmemopen", 0, 5, 8, 16, 1)],
    [("cmath", 0, 18, 13, 20, 0), ("complex<double>", 0, 5, 27, 30, 0), ("complex<float>", 0, 5, 27, 30, 0), ("cctype and swap", 0, 2, 8, 30, 1)],
    [("mixed", 0, 4, 16, 24, 1)],
]
FLAGS = ["-O1", "-w", "-fconstexpr-steps=60000000", "-fconstexpr-depth=4096", "-ferror-limit=0", "-fconstexpr-backtrace-limit=6", "-ftemplate-backtrace-limit=3"]
RULE = ("A program is a byte string decoded into a history of operations on one component (every container, string, smart pointer, function, stream, file in memory, "
        "mathematical and complex function, character class, n-ary swap) or on all of them together; its digest is computed by the compiler in a constant expression over cest, "
        "at run time over cest, and (except for approximations) at run time over std; it is non-trivial if it has at least 4 operations.")


def double_bytes(r, f):
    sign = -1.0 if r.random() < 0.5 else 1.0
    special = [0.0, 1.0, 2.0, 0.5, 1.5, 10.0, 100.0, 0.1, math.pi, math.pi / 2, math.e, math.sqrt(3), 2 - math.sqrt(3), math.pi / 6, 1e-10, 1e10, 20.0]
    if r.random() < 0.3:
        x = r.choice(special)
        if r.random() < 0.4:
            x = math.nextafter(x, r.choice([-math.inf, math.inf]))
    elif r.random() < 0.5:
        x = r.uniform(0, 20)
    else:
        x = math.exp(r.uniform(-30, 30))
    x *= sign
    if f in (0, 2):                                                       # sqrt, log
        x = abs(x)
        if f == 2 and x == 0:
            x = 1.0
    if f in (1, 7, 8):
        x = math.fmod(x, 700)
    if f in (3, 4):
        x = math.fmod(x, 1e4)
    if f in (9, 10):
        x = math.fmod(x, 2e9)
    if f >= 11:
        x = sign * (1 + r.uniform(-0.9, 3))
    return x + 0.0 if x != 0 else 0.0


def program(r, g, kind):
    name, header, rec, ops, most, ref = GROUPS[g][kind]
    m = r.random()
    n = r.randint(1, 5) if m < 0.2 else r.randint(3, most) if m < 0.8 else most
    out = bytearray(r.randrange(256) for _ in range(header))
    pick = [o for o in range(ops) if r.random() < 0.6] or list(range(ops))
    if r.random() < 0.3:
        pick = list(range(ops))
    mode = r.randrange(4)
    for _ in range(n):
        if name == "cmath":
            f = r.choice(pick)
            y = double_bytes(r, 5)
            if f == 6 and y == 0:
                y = 1.0
            out += bytes([f]) + struct.pack("<dd", double_bytes(r, f), y) + bytes([r.randrange(256)])
            continue
        out.append(r.choice(pick))
        for _ in range(rec - 1):
            v = r.randrange(256)
            if mode == 1 and r.random() < 0.7:
                v %= 8
            elif mode == 2 and r.random() < 0.5:
                v = r.choice([0, 255])
            elif mode == 3:
                v %= 64
            out.append(v)
    return bytes(out)


def source(group, progs):
    o = ["#define VF_GROUP %d" % group, '#include "c24_rt.hpp"', "using namespace vf;", "namespace {"]
    for i, (kind, data) in enumerate(progs):
        o.append("constexpr u8 p_%d[] = {%s};" % (i, ",".join(map(str, data or b"\0"))))
        o.append("static constexpr u64 ct_%d = digest<%d, true>(p_%d, %d);" % (i, kind, i, len(data)))
    o.append("const Row rows[] = {")
    for i, (kind, data) in enumerate(progs):
        o.append("  {%d, ct_%d, digest<%d, true>, %s, p_%d, %d}," % (i, i, kind, "digest<%d, false>" % kind if GROUPS[group][kind][5] else "nullptr", i, len(data)))
    o.append("};\n}\nint main() { return judge(rows, sizeof rows / sizeof *rows); }")
    return "\n".join(o) + "\n"


def evaluate(d, tag, group, progs):
    """Returns {index: reason} for the failing programs."""
    src = os.path.join(d, tag + ".cpp")
    exe = os.path.join(d, tag + ".bin")
    with open(src, "w") as f:
        f.write(source(group, progs))
    rc, log = sh([CXX] + BASE + FLAGS + [src, "-o", exe], timeout=800)
    bad = {}
    if rc != 0:
        cur = None
        for line in log.splitlines():
            m = re.search(r"error: constexpr variable 'ct_(\d+)'", line)
            if m:
                cur = int(m.group(1))
                bad[cur] = "not a constant expression: "
            elif cur is not None and "note:" in line and len(bad[cur]) < 1500:
                bad[cur] += "\n  " + line.strip()
        other = [l for l in log.splitlines() if re.search(r"\berror:", l) and not re.search(r"error: constexpr variable 'ct_\d+'", l)]
        if bad and not other:
            return bad
        return {"compile": log[-6000:] if rc != "timeout" else "compilation timed out"}
    rc, log = sh([exe], timeout=400, cpu=120)
    try:
        os.remove(exe)
    except OSError:
        pass
    at = None
    for line in log.splitlines():
        if line.startswith("AT "):
            at = int(line[3:])
        if line.startswith("FAIL "):
            bad[int(line.split()[1])] = line.split(" ", 2)[2]
    if rc not in (0, 42) and at is not None:
        bad[at] = "the run-time evaluation ended with %s" % rc
    elif rc != 0 and not bad:
        raise HarnessError("C24 program failed: %s %s" % (rc, log[-500:]))
    return bad


def shrink(run, group, kind, data):
    """Deletes records while the program still fails, many candidates to a compilation."""
    name, header, rec = GROUPS[group][kind][:3]
    best, why = data, None
    t_end = time.time() + 120
    rounds = 0
    while time.time() < t_end and rounds < 12:
        rounds += 1
        head, recs = best[:header], [best[header:][i:i + rec] for i in range(0, len(best) - header, rec)]
        n = len(recs)
        cands = []
        for q in range(1, n):
            cands.append(recs[:q])
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                cands.append(recs[:i] + recs[i + size:])
            if size == 1:
                break
            size //= 2
        cands = [head + b"".join(c) for c in cands if c]
        if not cands:
            break
        parts = [cands[i::JOBS] for i in range(JOBS) if cands[i::JOBS]]
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda t: evaluate(run.dir, "shrink%d" % t[0], group, [(kind, c) for c in t[1]]), enumerate(parts)))
        fails = []
        for part, r in zip(parts, res):
            fails += [(part[i], w) for i, w in r.items() if isinstance(i, int)]
        if not fails:
            break
        small, w = min(fails, key=lambda f: len(f[0]))
        if len(small) >= len(best):
            break
        best, why = small, w
    return best, why


def save(run, group, kind, data, why):
    text = "// C24 %s: %s\n" % (GROUPS[group][kind][0], why.replace("\n", "\n//   "))
    text += "// Build: %s %s FILE -o x && ./x\n" % (CXX, " ".join(BASE + FLAGS))
    return run.save_replay((text + source(group, [(kind, data)])).encode(), None, ".cpp")


def check(run):
    per = 36
    reps = 1 if TIER != "thorough" else 24
    units = []
    for rep in range(reps):
        for g, kinds in enumerate(GROUPS):
            for half in range(2):
                r = random.Random("C24 %d %d %d %d" % (SEED, rep, g, half))
                progs = []
                for k in range(len(kinds)):
                    m = per * (3 if len(kinds) == 1 else 1) * (2 if g == 1 else 1)
                    progs += [(k, program(r, g, k)) for _ in range(m)]
                units.append((g, progs))
    labels, distinct, found = {}, set(), []

    def one(t):
        i, (g, progs) = t
        if found:
            return None
        r = evaluate(run.dir, "u%d" % i, g, progs)
        if r:
            found.append((i, g, progs, r))
        return len(progs)
    with ThreadPoolExecutor(JOBS) as ex:
        done = list(ex.map(one, enumerate(units)))
    for n, (g, progs) in zip(done, units):
        if n is None:
            continue
        for k, data in progs:
            name, header, rec = GROUPS[g][k][:3]
            labels[name] = labels.get(name, 0) + 1
            run.cov["evaluations"] += 1
            if len(data) - header >= 4 * rec:
                distinct.add((g, k, data))
                if len(run.cov["samples"]) < 6 and k == len(run.cov["samples"]) % len(GROUPS[g]):
                    run.cov["samples"].append({"component": name, "program": data.hex()})
    run.cov["rule"] = RULE
    run.cov["labels"] = labels
    run.cov["distinct_nontrivial"] = len(distinct)
    for i, g, progs, r in sorted(found, key=lambda f: f[0]):
        if "compile" in r:
            src = os.path.join(run.dir, "u%d.cpp" % i)
            if not common.compile_or_report(run, src, src + ".o", FLAGS + ["-c"]):
                return
            raise HarnessError("C24 unit did not compile: " + r["compile"][:2000])
        k = sorted(r)[0]
        kind, data = progs[k]
        again = evaluate(run.dir, "again", g, [(kind, data)])
        if 0 not in again:
            path = run.save_replay(source(g, progs).encode(), None, ".cpp")
            run.violation(path, "C24: fails only among the other programs of its translation unit: %s" % r[k])
            return
        small, why = shrink(run, g, kind, data)
        why = why or again[0]
        run.violation(save(run, g, kind, small, why), "C24 %s: %s\nprogram %s" % (GROUPS[g][kind][0], why, small.hex()))
        return
