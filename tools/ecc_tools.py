#!/usr/bin/env python3
"""Runs the shipped generator tools on every documented and every small polynomial and compares what they print
with an independent computation and with what is compiled into the library.  Exhaustive over the stated domain."""
import json, os, re, subprocess, sys, time
out, repo, mc, tier = sys.argv[1:5]
replay = sys.argv[5] if len(sys.argv) > 5 else None
t0 = time.time()
nruns = ncmp = 0
CC = ["gcc", "-O1", "-g", "-I" + repo]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if r.returncode:
        print("cannot build: " + " ".join(cmd) + r.stderr[-2000:])
        sys.exit(2)


class Bad(Exception):
    pass


def tool(name, *args):
    global nruns
    nruns += 1
    try:
        r = subprocess.run([os.path.join(out, name)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        raise Bad("%s %s does not terminate" % (name, " ".join(args)))
    if r.returncode:
        raise Bad("%s %s exits with status %d" % (name, " ".join(args), r.returncode))
    return r.stdout


def hexes(s):
    return [int(x, 16) for x in re.findall(r"0x([0-9a-fA-F]+)", s)]


def want(c, msg):
    global ncmp
    ncmp += 1
    if not c:
        raise Bad(msg)


# ---- independent arithmetic over GF(2)
def deg(p): return p.bit_length() - 1
def mulx(a, p): a <<= 1; return a ^ p if a >> deg(p) & 1 else a
def recip(p): return int(bin(p)[:1:-1], 2)


def pmul(a, b):
    r = 0
    while a:
        if a & 1:
            r ^= b
        a >>= 1
        b <<= 1
    return r


def factor(n):
    f, d = set(), 2
    while d * d <= n:
        while n % d == 0:
            f.add(d)
            n //= d
        d += 1
    if n > 1:
        f.add(n)
    return f


def pmod(a, p):
    d = deg(p)
    while a.bit_length() - 1 >= d and a:
        a ^= p << (deg(a) - d)
    return a


def xpow(e, p):
    r, b = 1, pmod(2, p)
    while e:
        if e & 1:
            r = pmod(pmul(r, b), p)
        b = pmod(pmul(b, b), p)
        e >>= 1
    return r


FACT = {}


def primitive(p):
    d = deg(p)
    n = (1 << d) - 1
    if d not in FACT:
        FACT[d] = factor(n)
    if not p & 1:
        return False
    if xpow(n, p) != 1 % p if d > 0 else False:
        return False
    return all(xpow(n // q, p) != 1 for q in FACT[d])


def field(p):
    d = deg(p)
    n = (1 << d) - 1
    e, l, a = [], {}, 1
    for i in range(n):
        e.append(a)
        l[a] = i
        a = mulx(a, p)
    return e, l, n


def minpoly(k, e, l, n):
    """minimal polynomial of alpha^k: product of (x - alpha^(k 2^j)) over the conjugates."""
    conj, c = [], k % n
    while c not in conj:
        conj.append(c)
        c = c * 2 % n
    poly = [1]  # coefficients, lowest first
    for c in conj:
        r = [0] * (len(poly) + 1)
        for i, v in enumerate(poly):
            r[i + 1] ^= v
            if v:
                r[i] ^= e[(l[v] + c) % n]
        poly = r
    return sum(v << i for i, v in enumerate(poly))


def terms(p):
    return " + ".join("1" if i == 0 else "x" if i == 1 else "x^%d" % i for i in range(deg(p), -1, -1) if p >> i & 1)


def check_exp_log(p):
    e, l, n = field(p)
    te = hexes(tool("gftool", hex(p), "exp"))
    tl = hexes(tool("gftool", hex(p), "log"))
    want(len(te) == n + 1 and len(tl) == n + 1, "gftool %x: a table has %d/%d entries instead of %d" % (p, len(te), len(tl), n + 1))
    for i in range(n):
        want(te[i] == e[i], "gftool %x exp: entry %d is %x, should be %x" % (p, i, te[i], e[i]))
    want(te[n] == 1, "gftool %x exp: last entry is %x" % (p, te[n]))
    for a in range(1, n + 1):
        want(tl[a] % n == l[a], "gftool %x log: entry %d is %x, should be %x" % (p, a, tl[a], l[a]))
    return te, tl


def check_bch(p, k):
    e, l, n = field(p)
    g, seen = 1, set()
    s = tool("gftool", hex(p), "bch", str(k))
    lines = [x for x in s.splitlines() if "[0x" in x]
    i = 1
    exp = []
    while i <= k:
        m = minpoly(i, e, l, n)
        exp.append((m, "min(alpha^%d)" % i))
        if m not in seen:
            seen.add(m)
            g = pmul(g, m)
        i += 2
    exp.append((g, "generator"))
    want(len(lines) == len(exp), "gftool %x bch %d prints %d polynomials instead of %d" % (p, k, len(lines), len(exp)))
    for ln, (m, what) in zip(lines, exp):
        h = hexes(ln)
        want(what in ln and sorted(h[:2]) == sorted([m, recip(m)]) and ln.split("-> ")[1].replace("[dup]", "").strip() == terms(h[0]), "gftool %x bch %d: %s should be %x: %s" % (p, k, what, m, ln))
    return g, hexes(lines[-1])[:2]  # the tool prints the reciprocal (the form the encoder uses) next to the polynomial


def tasks():
    T = tier == "thorough"
    yield ("crc",)
    for p in [0xedb88320, 0x82f63b78, 0x8408, 0xa001, 1, 0x80000000, 0xffffffff, 0] + [1 << i for i in range(32)]:
        yield ("gentab", p)
    for d in range(1, 18 if T else 14):
        yield ("search", d)
    yield ("gf13",)
    yield ("lib",)
    for d in range(2, 11 if T else 9):
        for p in range((1 << d) + 1, 2 << d, 2):
            if primitive(p):
                yield ("tab", p)
    for d in range(3, 9 if T else 7):
        for p in range((1 << d) + 1, 2 << d, 2):
            if primitive(p):
                for k in range(1, (1 << d) - 1):
                    if k <= 8 or T:
                        yield ("bch", p, k)
    for p in (0x201b, 0x11d, 0x409, 0x1053):
        for k in range(1, 9):
            yield ("bch", p, k)


def lib(name, *a):
    r = subprocess.run([os.path.join(out, "libdump"), name] + [str(x) for x in a], stdout=subprocess.PIPE, text=True)
    return [int(x, 16) for x in r.stdout.split()]


def do(t):
    if t[0] == "crc":
        a, b = hexes(tool("gentab", "0xedb88320")), lib("crc")
        want(a == b, "gentab 0xedb88320 does not print the CRC table of the library")
        want(hexes(tool("gentab", "0xEDB88320")) == a and hexes(tool("gentab", "edb88320")) == a, "gentab depends on how the polynomial is spelt")
    elif t[0] == "gentab":
        a = hexes(tool("gentab", "0x%x" % t[1]))
        want(len(a) == 256, "gentab %x prints %d entries" % (t[1], len(a)))
        for i in range(256):
            r = i
            for _ in range(8):
                r = r >> 1 ^ (t[1] if r & 1 else 0)
            want(a[i] == r, "gentab %x: entry %d is %x, should be %x" % (t[1], i, a[i], r))
    elif t[0] == "search":
        d = t[1]
        o = tool("gftool", "search", str(d))
        got = [hexes(x) for x in o.splitlines()]
        exp = [p for p in range(1 << d, 2 << d) if primitive(p)]
        want([g[0] for g in got] == exp, "gftool search %d lists %s..., the primitive polynomials are %s..." % (d, [hex(g[0]) for g in got][:4], [hex(x) for x in exp][:4]))
        for g, ln in zip(got, o.splitlines()):
            want(g[1] == recip(g[0]) and ln.split("-> ")[1].strip() == terms(g[0]), "gftool search %d: wrong line %s" % (d, ln))
    elif t[0] == "gf13":
        e, l = check_exp_log(0x201b)
        le, ll = lib("exp"), lib("log")
        want(le[:8191] == e[:8191], "gftool 201b exp does not print the library's table")
        want(ll[1:] == l[1:] or [x % 8191 for x in ll[1:]] == [x % 8191 for x in l[1:]], "gftool 201b log does not print the library's table")
    elif t[0] == "lib":
        for k in range(1, 5):
            g, printed = check_bch(0x201b, 2 * k)
            b = lib("bch", k)
            want(b[1] == deg(g), "the %d-bit code has degree %d, the tool's generator has %d" % (k, b[1], deg(g)))
            want(b[0] in printed, "gftool 201b bch %d prints generator %x [%x], the library has %x" % (2 * k, printed[0], printed[1], b[0]))
    elif t[0] == "tab":
        check_exp_log(t[1])
    elif t[0] == "bch":
        check_bch(t[1], t[2])


os.makedirs(out, exist_ok=True)
for n in ("gentab", "gftool"):
    sh(CC + ["-o", os.path.join(out, n), os.path.join(repo, "tools", n + ".c")])
with open(os.path.join(out, "libdump.c"), "w") as f:
    f.write('#include <stdio.h>\n#include <string.h>\n#include "ecc/crc32.h"\n#include "ecc/gf13.h"\n#include "ecc/bch.h"\n'
            'int main(int c, char **v) { int i; if (!strcmp(v[1], "crc")) for (i = 0; i < 256; i++) { /* the table entry, through the inverted interface */ uint8_t b = (uint8_t)~i; printf("%x\\n", ~crc32_nand(&b, 1, 0xffffffffu)); }\n'
            'else if (!strcmp(v[1], "exp")) for (i = 0; i < 8191; i++) { static unsigned a = 1; printf("%x\\n", a); a = gf13_mulx(a); }\n'
            'else if (!strcmp(v[1], "log")) { static unsigned l[8192]; unsigned a = 1; for (i = 0; i < 8191; i++) { l[a] = i; a = gf13_mulx(a); } for (i = 0; i < 8192; i++) printf("%x\\n", l[i]); }\n'
            'else { const struct bch_def *d = v[2][0] == \'1\' ? &bch_1bit : v[2][0] == \'2\' ? &bch_2bit : v[2][0] == \'3\' ? &bch_3bit : &bch_4bit; printf("%llx\\n%x\\n", (unsigned long long)d->generator, d->degree); } return 0; }\n')
ecc = [os.path.join(repo, "ecc", x) for x in sorted(os.listdir(os.path.join(repo, "ecc"))) if x.endswith(".c")]
sh(CC + ["-o", os.path.join(out, "libdump"), os.path.join(out, "libdump.c")] + ecc)
if replay:
    t = tuple(json.loads(open(replay).read().splitlines()[-1]))
    try:
        do(t)
    except Bad as e:
        print("REPRODUCED %s" % e)
        sys.exit(1)
    print("NOT REPRODUCED")
    sys.exit(0)
last, found = None, None
for t in tasks():
    last = t
    try:
        do(t)
    except Bad as e:
        found = str(e)
        break
print("RESULT " + json.dumps(dict(engine="tools", states=ncmp, executions=nruns, cases=nruns, capped=False, wall=round(time.time() - t0, 1))))
print("SAMPLE " + repr(last))
if found:
    p = os.path.join(out, "C36-tools.replay")
    with open(p, "w") as f:
        f.write("# %s\n%s\n" % (found, json.dumps(last)))
    print("FOUND %s %s" % (p, found))
    sys.exit(1)
