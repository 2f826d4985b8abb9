"""Header combinations: generated programs of several translation units, each with its own
subset and order of headers, compiled, linked and run; every unit must behave alike."""
import os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
import common
from common import sh, CXX, BASE, JOBS, SEED, TIER, HarnessError

# What a user of one header alone writes: body of  H f(unsigned a, unsigned b), H h accumulating.
USE = {
    "vector": "cest::vector<int> v; for (unsigned i = 0; i < a % 40; i++) v.push_back(int(i * b)); if (v.size() > 3) v.erase(v.begin() + 1, v.begin() + 3); v.resize(v.size() + b % 7); cest::vector<int> w(v); w.push_back(5); v.swap(w); for (int x : v) h = h * 31 + H(x); for (auto i = w.rbegin(); i != w.rend(); ++i) h = h * 7 + H(*i); cest::vector<cest::vector<int>> n; n.push_back(v); n.push_back(w); h += n[1].size() + n.capacity();",
    "string": "cest::string s(\"text\"); for (unsigned i = 0; i < a % 30; i++) s.push_back(char('a' + (i * b) % 26)); s.append(s); s += 'q'; cest::string t(s.c_str(), b % 5); for (char c : s) h = h * 31 + H(c); h += s.find(t) + (s < t) * 2 + (s == t) * 4 + t.size(); const auto* np = &cest::string::npos; const auto* wp = &cest::wstring::npos; h += *np + *wp + (s.find('!') == *np); cest::wstring w(L\"wide\"); w.push_back(L'x'); h += w.size() + H(w[1]);",
    "deque": "cest::deque<int> d; for (unsigned i = 0; i < a * 5; i++) { if (i & 1) d.push_front(int(i * b)); else d.push_back(int(i)); } for (unsigned i = 0; i < b && !d.empty(); i++) d.pop_front(); h += d.size(); cest::deque<int> e(d); for (auto i = e.begin(); i != e.end(); ++i) h = h * 31 + H(*i);",
    "list": "cest::list<int> l; for (unsigned i = 0; i < a % 40; i++) l.push_back(int(i * b)); l.push_front(3); auto i = l.begin(); ++i; l.insert(i, 77); l.erase(l.begin()); cest::list<int> m(l); m.push_back(1); for (int x : m) h = h * 31 + H(x); h += l.size();",
    "forward_list": "cest::forward_list<int> l; for (unsigned i = 0; i < a % 40; i++) l.push_front(int(i * b)); l.push_front(9); l.insert_after(l.begin(), 4); l.pop_front(); for (int x : l) h = h * 31 + H(x);",
    "set": "cest::set<int> s; for (unsigned i = 0; i < a % 60; i++) s.insert(int((i * b) % 37)); cest::set<int> t(s); t.insert(-4); for (auto i = t.begin(); i != t.end(); ++i) h = h * 31 + H(*i); h += s.size() + (s.find(int(b % 37)) != s.end());",
    "map": "cest::map<int, int> m; for (unsigned i = 0; i < a % 60; i++) m.insert({int((i * b) % 37), int(i)}); cest::map<int, int> n(m); n.insert({-4, 2}); for (auto i = n.begin(); i != n.end(); ++i) h = h * 31 + H((*i).first * 3 + (*i).second); h += m.size() + (m.find(int(b % 37)) != m.end());",
    "queue": "cest::queue<int> q; for (unsigned i = 0; i < a * 4; i++) q.push(int(i * b)); for (unsigned i = 0; i < b && !q.empty(); i++) q.pop(); cest::queue<int> r(q); r.push(3); h += q.size(); while (!r.empty()) { h = h * 31 + H(r.front()); r.pop(); }",
    "memory": "struct X { int v; }; auto p = cest::make_unique<X>(int(a)); cest::unique_ptr<X> q(static_cast<cest::unique_ptr<X>&&>(p)); h += H(q->v) + !p; q.reset(new X{int(b)}); h = h * 31 + H((*q).v); h += (q == p) + 2 * (q != p); X* r = q.release(); h += H(r->v); delete r;",
    "shared_ptr": "struct X { int v; }; cest::shared_ptr<X> p(new X{int(a)}), q(p), r; r = q; q = cest::shared_ptr<X>(); h += H(p->v) * 10 + H(p.use_count()); r = cest::shared_ptr<X>(new X{int(b)}); h = h * 31 + H(r->v) + H(p.use_count()) + bool(q);",
    "functional": "int k = int(b % 50); cest::function<int(int)> f = [k](int x) { return x * 2 + k; }, g = f; int n = 0; for (unsigned i = 0; i < a % 20; i++) n = (g(n) + f(1)) % 10007; cest::function<void(int&)> v = [](int& x) { ++x; }; v(n); h += H(n);",
    "sstream": "cest::string s(\"some words here\"); for (unsigned i = 0; i < a % 30; i++) s.push_back(char('a' + (i * b) % 26)); cest::istringstream in(s); cest::stringstream io(s); char c; while (in.get(c)) h = h * 31 + H(c); char buf[8] = {}; io.read(buf, 5); io.unget(); io.get(c); h = h * 31 + H(c) + H(io.gcount()) + in.eof(); h += io.str().size();",
    "iostream": "h += cest::cout.good() + 2 * !cest::cerr + 4 * cest::clog.good(); (void)a; (void)b;",
    "ostream": "struct B : cest::basic_streambuf<char> {} sb; cest::ostream o(&sb); o << 5 << 'x' << \"text\" << cest::endl << cest::hex << 7u; o.flush(); h += o.good() * 2 + o.fail(); h += cest::ostream::traits_type::eof() == -1; cest::ios_base::fmtflags f = cest::ios_base::hex | cest::ios_base::dec; h += H(f) + a + b;",
    "istream": "struct B : cest::basic_streambuf<char> { char t[16]; B(unsigned q) { for (int i = 0; i < 16; i++) t[i] = char(q * (unsigned(i) + 1)); setg(t, t, t + 16); } } sb(a); cest::istream in(&sb); char c; for (unsigned i = 0; i < b % 20; i++) { in.get(c); h = h * 31 + H(c) + in.eof(); } cest::streamsize n = cest::streamsize(a); h += H(n) + b + sizeof(cest::istream);",
    "ios": "auto s = cest::ios_base::eofbit | cest::ios_base::failbit; s &= ~cest::ios_base::eofbit; h += H(s) + a + b; auto m = cest::ios_base::in | cest::ios_base::ate; h = h * 3 + H(m);",
    "ios_base": "const cest::ios_base::fmtflags* fl[] = {&cest::ios_base::boolalpha, &cest::ios_base::dec, &cest::ios_base::fixed, &cest::ios_base::hex, &cest::ios_base::internal, &cest::ios_base::left, &cest::ios_base::oct, &cest::ios_base::right, &cest::ios_base::scientific, &cest::ios_base::showbase, &cest::ios_base::showpoint, &cest::ios_base::showpos, &cest::ios_base::skipws, &cest::ios_base::unitbuf, &cest::ios_base::uppercase, &cest::ios_base::adjustfield, &cest::ios_base::basefield, &cest::ios_base::floatfield}; for (auto q : fl) h = h * 31 + H(*q); const cest::ios_base::iostate* st[] = {&cest::ios_base::badbit, &cest::ios_base::eofbit, &cest::ios_base::failbit, &cest::ios_base::goodbit}; for (auto q : st) h = h * 31 + H(*q); const cest::ios_base::openmode* om[] = {&cest::ios_base::app, &cest::ios_base::ate, &cest::ios_base::binary, &cest::ios_base::in, &cest::ios_base::out, &cest::ios_base::trunc}; for (auto q : om) h = h * 31 + H(*q); auto s = cest::ios_base::eofbit | cest::ios_base::failbit; s |= cest::ios_base::badbit; h += H(s) + a + b;",
    "basic_ios": "auto s = cest::basic_ios<char>::eofbit; h += H(s) + a + b; struct X : cest::basic_ios<char> { X() { init(nullptr); } } x; h = h * 5 + x.fail();",
    "streambuf": "struct B : cest::basic_streambuf<char> { char t[16]; B(unsigned q) { for (int i = 0; i < 16; i++) t[i] = char(q * (unsigned(i) + 1)); setg(t, t, t + 16); } } x(a); for (unsigned i = 0; i < b % 20; i++) h = h * 31 + H(x.sbumpc()); h += H(x.sgetc()) + H(x.sungetc());",
    "runtime_ostream": "(void)a; (void)b; h += 3;",
    "cstdio": "char t[40]; for (int i = 0; i < 40; i++) t[i] = char(a * unsigned(i)); cest::FILE* f = cest::fmemopen(t, 40, \"r\"); char o[64] = {}; h += cest::fread(o, 1, b % 60, f); for (char c : o) h = h * 31 + H((unsigned char)c); h += H(cest::fclose(f));",
    "cmath": "double x = 0.01 * (a + 1), y = 0.02 * (b + 1); double r = cest::sqrt(x) + cest::exp(y) * 3 + cest::log(x + y) + cest::sin(x) * 7 + cest::cos(y) + cest::atan(x) + cest::atan2(x, y) + cest::sinh(y) + cest::cosh(x) + cest::pow(x, int(b % 7)) + cest::abs(-x) + cest::fabs(y); h += H(cest::floor(x)) + H(cest::ceil(y)) * 5; unsigned char q[sizeof r]; __builtin_memcpy(q, &r, sizeof r); for (auto c : q) h = h * 31 + c;",
    "complex": "cest::complex<double> x(a * 0.5, b * 0.25), y(1, -2), z = x * y + x / y - 3.0; z += cest::conj(z); h += H((long long)(z.real() * 1000)) + H((long long)(cest::norm(x) * 100)) + (x == y) + H((long long)(cest::abs(y) * 10000)) + H((long long)(cest::exp(y).real() * 10000)) * 3 + H((long long)(cest::sqrt(y).imag() * 10000)) + H((long long)(cest::polar(2.0, 0.5).real() * 1000));",
    "cctype": "for (int i = -1; i < 256; i++) h = h * 3 + !cest::isalnum(i) + 5 * !cest::isupper(i); h += a + b;",
    "cstdlib": "cest::size_t n = a; h += n * 3 + H(cest::abs(-1.0 * b));",
    "swap": "int x = int(a), y = int(b), z = 7; nary::swap(x, y, z); h = H(x) * 31 * 31 + H(y) * 31 + H(z); nary::swapr(z, x); h = h * 31 + H(x);",
    "algorithm": "int t[12]; for (unsigned i = 0; i < 12; i++) t[i] = int((i * a + b) % 17); cest::sort(t, t + 12); for (int x : t) h = h * 31 + H(x); h += H(cest::find(t, t + 12, 5) - t) + H(cest::count(t, t + 12, 3)) + H(*cest::max_element(t, t + 12)); cest::reverse(t, t + 6); cest::rotate(t, t + 3, t + 12); h += cest::is_sorted(t, t + 12) + H(t[4]) + H(cest::max(3, t[2])) + H(cest::min(3, t[2]));",
    "numeric": "int t[12], u[12]; cest::iota(t, t + 12, int(a)); h += H(cest::accumulate(t, t + 12, 0)) + H(cest::inner_product(t, t + 12, t, int(b))); cest::partial_sum(t, t + 12, u); for (int x : u) h = h * 31 + H(x);",
    "utility": "cest::pair<int, unsigned> p(int(a), b); auto q = cest::make_pair(b, a); h += H(p.first) * 31 + q.first;",
    "pair": "cest::pair<int, unsigned> p(int(a), b); auto q = cest::make_pair(b, a); h += H(p.first) * 31 + q.first;",
    "array": "cest::array<int, 4> r = {int(a), int(b), 3, 4}; for (int x : r) h = h * 31 + H(x); h += r.size();",
    "limits": "h += H(cest::numeric_limits<int>::max()) + a + b + cest::numeric_limits<double>::is_iec559;",
    "iterator": "struct V { using value_type = int; int t[8]; int n = 0; void push_back(int x) { t[n++] = x; } } v; auto i = cest::back_inserter(v); for (int k = 0; k < 5; k++) { *i = int(a) * k; ++i; } for (int k = 0; k < 5; k++) h = h * 31 + H(v.t[k]); h += b;",
    "fstream": "cest::ifstream f(\"/nonexistent/c25\"); h += !f; h += a + b;",
}
# Instantiates every member of the header's templates: each must compile with this header alone.
OWN = "struct VfOwn { int* p; VfOwn(int v = 0) : p(new int(v)) {} VfOwn(const VfOwn& o) : p(new int(*o.p)) {} VfOwn& operator=(const VfOwn& o) { *p = *o.p; return *this; } ~VfOwn() { delete p; } bool operator<(const VfOwn& o) const { return *p < *o.p; } bool operator==(const VfOwn& o) const { return *p == *o.p; } };"
INST = {
    "vector": "template struct cest::vector<int>; template struct cest::vector<VfOwn>;",
    "string": "template class cest::basic_string<char>; template class cest::basic_string<wchar_t>; template class cest::basic_string<char32_t>;",
    "deque": "template class cest::deque<int>; template class cest::deque<VfOwn>;",
    "list": "template struct cest::list<int>; template struct cest::list<VfOwn>;",
    "forward_list": "template struct cest::forward_list<int>; template struct cest::forward_list<VfOwn>;",
    "set": "template struct cest::set<int>; template struct cest::set<VfOwn>;",
    "map": "template struct cest::map<int, long>; template struct cest::map<VfOwn, VfOwn>;",
    "queue": "template class cest::queue<int>; template class cest::queue<VfOwn>;",
    "memory": "template class cest::unique_ptr<int>; template class cest::unique_ptr<int[]>;",
    "shared_ptr": "template class cest::shared_ptr<int>; template class cest::shared_ptr<VfOwn>;",
    "functional": "template class cest::function<int(int)>; template class cest::function<void(VfOwn&)>; template class cest::function<VfOwn(VfOwn, const char*)>;",
    "sstream": "template class cest::basic_stringbuf<char>; template class cest::basic_istringstream<char>; template class cest::basic_stringstream<char>; template class cest::basic_istringstream<wchar_t>;",
    "iostream": "template class cest::basic_ostream<char>;",
    "ostream": "template class cest::basic_ostream<char>;",
    "istream": "template class cest::basic_istream<char>; template class cest::basic_istream<wchar_t>;",
    "basic_ios": "template class cest::basic_ios<char>; template class cest::basic_ios<wchar_t>;",
    "streambuf": "template class cest::basic_streambuf<char>; template class cest::basic_streambuf<wchar_t>;",
    "complex": "template struct cest::complex<float>; template struct cest::complex<int>;",
}
STDS = ["-std=c++2a", "-std=gnu++20", "-std=c++2b"]
# std headers a translation unit may include first, last or between
STD = ["<vector>", "<string>", "<map>", "<iostream>", "<algorithm>", "<cmath>", "<complex>", "<cstdio>", "<memory>", "<functional>", "<sstream>", "<cstdlib>", "<numeric>", "<utility>", "<list>", "<deque>", "<set>", "<queue>", "<iterator>", "<math.h>", "<stdio.h>", "<string.h>", "<stdlib.h>"]
# headers through which each of these is usable
OUT = {"iostream": ["iostream"]}
RULE = ("A program is two to five translation units, each including a random subset of the public headers in a random order (with repetitions and with std headers between), using every included header alone (half of the units also instantiate every member of its templates explicitly), under one of three -std modes, "
        "writing to cest::cout, cerr and clog from several units (also from a static initialiser), and handing containers, strings, shared pointers and functions from one unit to another; "
        "it must compile, link, print exactly the expected bytes, and give in every unit the digests that the unit including everything gives; it is non-trivial if two units include a common header.")
FLAGS = ["-O0", "-w", "-fsanitize=undefined", "-fno-sanitize-recover=all"]


def headers():
    return [h[:-4] for h in common.PUBLIC]


def unit_source(n, incs, inst, init, cross):
    o = []
    for i in incs:
        o.append("#include %s" % i)
    names = []
    for i in incs:
        m = re.match(r'[<"]cest/(\w+)\.hpp[">]', i)
        if m and m.group(1) not in names:
            names.append(m.group(1))
    if inst:
        got = [x for x in names if x in INST]
        # an explicit instantiation may appear once in a program: VfOwn is local to the unit, and
        # for the other types each one is made in one unit only
        o.append("namespace { " + OWN + " }")
        for x in got:
            o += [t.strip() + ";" for t in INST[x].split(";") if t.strip() and ("VfOwn" in t or (t.strip() not in inst and not inst.add(t.strip())))]
    o += ["typedef unsigned long long H;", "namespace {"]
    used = [x for x in names if x in USE]
    for x in used:
        o.append("H use_%s(unsigned a, unsigned b) { H h = 17; %s return h; }" % (x, USE[x]))
    if "iostream" in names and init is not None:
        o.append("struct Early { Early() { cest::cout << \"early %d\" << cest::endl; } } early;" % init)
    o.append("}")
    o.append("extern \"C\" H u%d_use(int which, unsigned a, unsigned b) { switch (which) {" % n)
    all_names = sorted(USE)
    for x in used:
        o.append("  case %d: return use_%s(a, b);" % (all_names.index(x), x))
    o.append("  } return ~0ULL; }")
    if "iostream" in names:
        o.append("extern \"C\" const void* u%d_stream(int w) { const void* p[] = {&cest::cout, &cest::cerr, &cest::clog, &cest::cin}; return p[w]; }" % n)
        o.append("extern \"C\" void u%d_say(int w, int v, const char* s) { cest::ostream& o = w == 0 ? cest::cout : w == 1 ? cest::cerr : cest::clog; o << s << ' ' << v << '\\n'; if (v & 1) o << cest::endl; }" % n)
    if cross:
        o.append(cross)
    return "\n".join(o) + "\n", used, names


CROSS_DECL = """
struct XBox { XBox() : f([](int q) { return q; }) {} cest::vector<int> v; cest::string s; cest::shared_ptr<int> p; cest::function<int(int)> f; cest::map<int, cest::string> m; };
struct XDel { int* count; constexpr void operator()(int* p) const { ++*count; delete p; } };
"""


def cross_source(n):
    return CROSS_DECL + """
extern "C" void* u%d_make(unsigned a, int* deleted) { XBox* x = new XBox; for (unsigned i = 0; i < a %% 30; i++) x->v.push_back(int(i)); x->s = "made here"; x->p = cest::shared_ptr<int>(new int(int(a)), XDel{deleted}); int k = int(a); x->f = [k](int q) { return q + k; }; x->m.insert({int(a), x->s}); return x; }
extern "C" H u%d_change(void* q, unsigned a) { XBox* x = static_cast<XBox*>(q); H h = 1; for (int y : x->v) h = h * 31 + H(y); for (char c : x->s) h = h * 31 + H(c); x->v.push_back(int(a)); x->s.append("+"); cest::shared_ptr<int> keep(x->p); h += H(keep.use_count()) + H(*keep); h += H(x->f(3)); auto g = x->f; x->f = [g](int z) { return g(z) * 2; }; x->m.insert({int(a) + 1, x->s}); XDel* d = get_deleter<XDel>(x->p); h += d ? 1000 : 0; return h; }
extern "C" void u%d_drop(void* q) { delete static_cast<XBox*>(q); }
""" % (n, n, n)


def generate(r):
    hs = headers()
    n = r.randint(2, 5)
    units = []
    for u in range(n):
        m = r.random()
        if m < 0.25:
            sub = [r.choice(hs)]
        elif m < 0.5:
            sub = r.sample(hs, r.randint(2, 5))
        elif m < 0.85:
            sub = r.sample(hs, r.randint(5, len(hs) - 1))
        else:
            sub = list(hs)
        cross = r.random() < 0.5
        if cross:
            sub += [h for h in ("vector", "string", "shared_ptr", "functional", "map") if h not in sub]
        if r.random() < 0.5 and "iostream" not in sub:
            sub.append("iostream")
        r.shuffle(sub)
        if r.random() < 0.3:
            sub += r.sample(sub, min(len(sub), 2))                          # included twice
        incs = [('<cest/%s.hpp>' if r.random() < 0.5 else '"cest/%s.hpp"') % h for h in sub]
        if r.random() < 0.5:
            for s in r.sample(STD, r.randint(1, 5)):
                incs.insert(r.randint(0, len(incs)), s)
        units.append({"incs": incs, "cross": cross, "inst": r.random() < 0.5})
    early = [i for i, u in enumerate(units) if any("cest/iostream.hpp" in x for x in u["incs"])]
    early = r.choice(early) if early and r.random() < 0.6 else None
    return {"units": units, "early": early, "seed": r.randrange(1 << 30), "std": r.choice(STDS + STDS[:1])}


def build_and_run(d, tag, prog):
    """Returns None or what is wrong; prog['stats'] is filled."""
    base = os.path.join(d, tag)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    r = random.Random(prog["seed"])
    allinc = ['"cest/%s.hpp"' % h for h in headers()]
    units = [{"incs": allinc, "cross": True}] + prog["units"]                # unit 0 includes everything, in order
    early = None if prog["early"] is None else prog["early"] + 1
    objs, use, says, crosses = [], [], [], []
    inst = {""}
    std = [prog.get("std", STDS[0])]
    for n, u in enumerate(units):
        src, used, names = unit_source(n, u["incs"], inst if u.get("inst") else None, 7 if n == early else None, cross_source(n) if u["cross"] else None)
        use.append(used)
        if "iostream" in names:
            says.append(n)
        if u["cross"]:
            crosses.append(n)
        path = os.path.join(base, "u%d.cpp" % n)
        open(path, "w").write(src)
        objs.append(path)
    # the main program: no cest header; expected output computed here
    out, err = "", ""
    if early in says and early is not None:
        out += "early 7\n"
    calls = ["#include <cstdio>", "#include <cstring>", "typedef unsigned long long H;", "extern \"C\" {"]
    for n in range(len(units)):
        calls.append("H u%d_use(int, unsigned, unsigned); const void* u%d_stream(int); void u%d_say(int, int, const char*); void* u%d_make(unsigned, int*); H u%d_change(void*, unsigned); void u%d_drop(void*);" % ((n,) * 6))
    calls.append("}\nint bad; std::FILE* res;\n#define WRONG(...) (std::fprintf(res, __VA_ARGS__), std::fputc('\\n', res), bad = 1)\nint main(int, char** argv) { res = std::fopen(argv[1], \"w\"); if (!res) return 99;")
    names = sorted(USE)
    ncalls = 0
    for n in range(1, len(units)):
        for x in use[n]:
            for _ in range(3):
                a, b = r.randrange(256), r.randrange(256)
                calls.append("{ H e = u0_use(%d, %d, %d), g = u%d_use(%d, %d, %d); if (e != g) WRONG(\"%s gives %%llx in unit %d and %%llx in the unit that includes everything\", g, e); }" % (names.index(x), a, b, n, names.index(x), a, b, x, n))
                ncalls += 1
    for n in says[1:]:
        for w, t in enumerate(("cout", "cerr", "clog", "cin")):
            calls.append("if (u%d_stream(%d) != u0_stream(%d)) WRONG(\"cest::%s is another object in unit %d\");" % (n, w, w, t, n))
    for _ in range(12):
        n, w, v = r.choice(says), r.randrange(3), r.randrange(-500, 500)
        t = "".join(r.choice("abc xyz%") for _ in range(r.randrange(12)))
        calls.append("u%d_say(%d, %d, \"%s\");" % (n, w, v, t))
        line = "%s %d\n" % (t, v) + ("\n" if v & 1 else "")
        if w == 0:
            out += line
        else:
            err += line
    if len(crosses) >= 2:
        for _ in range(3):
            mk, ch, dr = r.choice(crosses), [r.choice(crosses) for _ in range(3)], r.choice(crosses)
            a, b = r.randrange(60), r.randrange(60)
            calls.append("{ int d0 = 0, d1 = 0; void* p = u0_make(%d, &d0); void* q = u%d_make(%d, &d1); for (int i = 0; i < 1; i++) {" % (a, mk, a))
            for c in ch:
                calls.append("  { H e = u0_change(p, %d), g = u%d_change(q, %d); if (e != g) WRONG(\"an object made in unit %d and used in unit %d gives %%llx, not %%llx\", g, e); }" % (b, c, b, mk, c))
            calls.append("} u0_drop(p); u%d_drop(q); if (d0 != 1 || d1 != 1) WRONG(\"a deleter ran %%d times and %%d times\", d0, d1); }" % dr)
    calls.append("std::fputs(\"done\\n\", res); std::fclose(res); return bad ? 42 : 0; }")
    mpath = os.path.join(base, "main.cpp")
    open(mpath, "w").write("\n".join(calls) + "\n")
    for n, src in enumerate(objs + [mpath]):
        rc, log = sh([CXX] + BASE + std + FLAGS + ["-c", src, "-o", src + ".o"], timeout=400)
        if rc != 0:
            who = "unit %d" % n if src != mpath else "the main program"
            if src == mpath:
                raise HarnessError("main does not compile: " + log[:1500])
            incs = ", ".join(re.sub(r'[<">]', "", i) for i in units[n]["incs"])
            return "%s does not compile (includes %s):\n%s" % (who, incs, log[:2500])
    order = [s + ".o" for s in objs + [mpath]]
    r.shuffle(order)
    exe = os.path.join(base, "prog")
    rc, log = sh([CXX] + FLAGS + order + ["-o", exe], timeout=400)
    if rc != 0:
        return "the translation units do not link:\n" + log[:2500]
    res = os.path.join(base, "res")
    import subprocess
    o, e = open(os.path.join(base, "out"), "wb"), open(os.path.join(base, "err"), "wb")
    try:
        p = subprocess.run([exe, res], stdin=subprocess.DEVNULL, stdout=o, stderr=e, timeout=300, env=common.ENV)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return "the program does not end within 300 s"
    o.close()
    e.close()
    text = open(res).read() if os.path.exists(res) else ""
    gout, gerr = open(os.path.join(base, "out")).read(), open(os.path.join(base, "err")).read()
    prog["calls"] = ncalls
    prog["nontrivial"] = any(set(use[i]) & set(use[j]) for i in range(1, len(units)) for j in range(i + 1, len(units)))
    if rc == 42:
        return text
    if rc != 0 or not text.endswith("done\n"):
        return "the program ended with %s: %s %s" % (rc, text[:500], gerr[-1500:])
    if gout != out:
        return "standard output is %r, expected %r" % (gout, out)
    if gerr != err:
        return "standard error is %r, expected %r" % (gerr, err)
    shutil.rmtree(base, ignore_errors=True)
    return None


def shrink(run, prog, why):
    """Fewer units, then fewer includes; several candidates at a time."""
    t_end = time.time() + 150
    tag = [0]

    def tryall(cands):
        def one(c):
            tag[0] += 1
            try:
                return build_and_run(run.dir, "s%d" % tag[0], c)
            except HarnessError:
                return None
        with ThreadPoolExecutor(JOBS) as ex:
            for c, w in zip(cands, list(ex.map(one, cands))):
                if w:
                    return c, w
        return None
    if prog["early"] is not None:
        got = tryall([dict(prog, early=None)])
        if got:
            prog, why = got
    while time.time() < t_end:
        cands = []
        us = prog["units"]
        if len(us) > 1:
            for i in range(len(us)):
                e = prog["early"]
                if e == i:
                    continue
                cands.append(dict(prog, units=us[:i] + us[i + 1:], early=e - 1 if e is not None and e > i else e))
        for i, u in enumerate(us):
            if u.get("inst"):
                cands.append(dict(prog, units=us[:i] + [dict(u, inst=False)] + us[i + 1:]))
            if u["cross"]:
                cands.append(dict(prog, units=us[:i] + [dict(u, cross=False)] + us[i + 1:]))
            n = len(u["incs"])
            k = max(1, n // 2)
            while n > 1:
                for j in range(0, n, k):
                    keep = u["incs"][:j] + u["incs"][j + k:]
                    need = ("vector", "string", "shared_ptr", "functional", "map") if u["cross"] else ()
                    if prog["early"] == i:
                        need += ("iostream",)
                    if keep and all(any("cest/%s.hpp" % h in x for x in keep) for h in need):
                        cands.append(dict(prog, units=us[:i] + [dict(u, incs=keep)] + us[i + 1:]))
                if k == 1:
                    break
                k //= 2
        got = None
        for b in range(0, len(cands), JOBS):
            got = tryall(cands[b:b + JOBS])
            if got or time.time() > t_end:
                break
        if not got:
            break
        prog, why = got
    return prog, why


def check(run):
    # each header must also be usable as the only one
    progs = [{"units": [{"incs": ['"cest/%s.hpp"' % h], "cross": False, "inst": True}, {"incs": ['<cest/%s.hpp>' % h] * 2, "cross": False}], "early": None, "seed": 11} for h in headers()]
    n = 90 if TIER != "thorough" else 2500
    for i in range(n):
        progs.append(generate(random.Random("C25 %d %d" % (SEED, i))))
    found = []

    def one(t):
        i, p = t
        if found:
            return None
        w = build_and_run(run.dir, "p%d" % i, p)
        if w:
            found.append((i, p, w))
        return p
    with ThreadPoolExecutor(JOBS) as ex:
        done = [p for p in ex.map(one, enumerate(progs)) if p and "calls" in p]
    cov = run.cov
    cov["rule"] = RULE
    cov["evaluations"] = len(done)
    cov["distinct_nontrivial"] = len({repr((p["units"], p["early"], p["seed"])) for p in done if p.get("nontrivial")})
    cov["labels"] = {"units": sum(len(p["units"]) for p in done), "calls compared": sum(p["calls"] for p in done), "headers alone": sum(1 for p in done if p["seed"] == 11), "units sharing objects": sum(u["cross"] for p in done for u in p["units"]), "instantiated": sum(bool(u.get("inst")) for p in done for u in p["units"]), "written before main": sum(p["early"] is not None for p in done)}
    cov["samples"] = [{"units": [u["incs"] for u in p["units"]], "early": p["early"]} for p in done[len(headers()):len(headers()) + 3]]
    if found:
        i, p, w = min(found, key=lambda f: f[0])
        again = build_and_run(run.dir, "again", p)
        if not again:
            raise HarnessError("program %d failed once and held again: %s" % (i, w[:1000]))
        p, w = shrink(run, p, again)
        import json
        text = json.dumps({"units": p["units"], "early": p["early"], "seed": p["seed"], "std": p.get("std", STDS[0])}, indent=1) + "\n" + w
        run.violation(run.save_replay(text.encode(), None, ".json.txt"), "C25: " + w + "\nunits: " + "; ".join(", ".join(u["incs"]) for u in p["units"]))
