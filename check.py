#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- rebuild from the repository's working tree, explore, report.

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it did not, and the
recorded execution was replayed successfully before being reported.  Exit 2: the check could not run."""
import hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DHARA_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CACHE = os.path.join(BUILD, "cache")
MC = os.path.join(HERE, "mc")
sys.path.insert(0, os.path.join(HERE, "tools"))


def die(msg):
    print("ERROR " + msg)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        print(r.stdout[-4000:])
        die("command failed: " + " ".join(cmd))
    return r.stdout


CXX = ["g++", "-std=c++17", "-O2", "-g", "-fno-pie", "-I" + MC]
CC = ["gcc", "-O2", "-g", "-fno-pie"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
HSAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]  # the harness itself: only what the runtime needs


def harness_obj(src, flags):
    """Objects of the harness do not depend on the repository and are cached by content."""
    h = hashlib.sha256(" ".join(flags).encode())
    for f in sorted(os.listdir(MC)):
        if f.endswith((".hpp", ".h")) or f == src:
            h.update(open(os.path.join(MC, f), "rb").read())
    o = os.path.join(CACHE, src.replace(".", "_") + "-" + h.hexdigest()[:20] + ".o")
    if not os.path.exists(o):
        os.makedirs(CACHE, exist_ok=True)
        tmp = o + ".%d" % os.getpid()
        must((CXX if src.endswith(".cpp") else CC) + flags + ["-c", os.path.join(MC, src), "-o", tmp])
        os.rename(tmp, o)
    return o


def repo_objs(subdir, out, flags, section=None, defs=()):
    os.makedirs(out, exist_ok=True)
    objs = []
    for f in sorted(os.listdir(os.path.join(REPO, subdir))):
        if not f.endswith(".c"):
            continue
        o = os.path.join(out, subdir + "_" + f[:-2] + ".o")
        must(CC + list(flags) + list(defs) + ["-I" + REPO, "-I" + os.path.join(REPO, subdir), "-c", os.path.join(REPO, subdir, f), "-o", o])
        if section:
            must(["objcopy", "--set-section-flags", ".bss=alloc,load,data,contents",
                  "--rename-section", ".bss=" + section, "--rename-section", ".data=" + section, o])
        objs.append(o)
    return objs


def build_dhara(out, engine, san=False, defs=()):
    fl = SAN if san else []
    # module statics of the library go into one section, so that they are part of the saved state
    objs = repo_objs("dhara", out, fl, section=None if san else "dh_data")
    sh = os.path.join(out, "shim.o")
    must(CC + fl + ["-I" + REPO, "-I" + MC, "-c", os.path.join(MC, "shim.c"), "-o", sh])
    exe = os.path.join(out, engine)
    must(["g++", "-no-pie", "-g"] + fl + ["-o", exe, harness_obj(engine + ".cpp", (HSAN if san else []) + list(defs)), sh] + objs)
    return exe


def ecc_variant(out, prefix, fl, defs=()):
    """The ECC library in one build variant, as one relocatable object with all its symbols prefixed."""
    objs = repo_objs("ecc", out, fl, defs=defs)
    sh = os.path.join(out, "ecc_shim.o")
    must(CC + fl + list(defs) + ["-I" + REPO, "-c", os.path.join(MC, "ecc_shim.c"), "-o", sh])
    o = os.path.join(out, "all.o")
    must(["ld", "-r", "-o", o, sh] + objs)
    undef = [l.split()[-1] for l in must(["nm", "-u", o]).splitlines() if l.strip()]
    must(["objcopy", "--prefix-symbols=" + prefix, o])
    must(["objcopy"] + ["--redefine-sym=%s%s=%s" % (prefix, u, u) for u in undef] + [o]) if undef else None
    return o


def build_ecc(out, engine, san=False):
    fl = SAN if san else []
    a = ecc_variant(os.path.join(out, "tab"), "t_", fl)
    b = ecc_variant(os.path.join(out, "notab"), "n_", fl, ["-DGF13_NO_TABLES"])
    exe = os.path.join(out, engine)
    must(["g++", "-no-pie", "-g"] + fl + ["-o", exe, harness_obj(engine + ".cpp", HSAN if san else []), a, b])
    return exe


def build_e2e(out, engine):
    a = ecc_variant(os.path.join(out, "tab"), "t_", [])
    objs = repo_objs("dhara", out, [], section="dh_data")
    sh = os.path.join(out, "shim.o")
    must(CC + ["-I" + REPO, "-I" + MC, "-c", os.path.join(MC, "shim.c"), "-o", sh])
    exe = os.path.join(out, engine)
    must(["g++", "-no-pie", "-g", "-o", exe, harness_obj(engine + ".cpp", []), sh, a] + objs)
    return exe


from jobs import JOBS, SETUP_SOURCES, LEVEL  # noqa: E402  (tables)


def known_findings():
    kf, fixed = {}, []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
        if m:
            kf[(m.group(1), m.group(2))] = m.group(3)
    return kf


def main():
    prop = sys.argv[1]
    if prop == "setup":
        for src, fl in SETUP_SOURCES:
            harness_obj(src, HSAN if fl == "san" else fl.split())
        print("setup done")
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = os.path.join(BUILD, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    import jobs
    ctx = jobs.Ctx(repo=REPO, out=out, tier=tier, prop=prop, build_dhara=build_dhara, build_ecc=build_ecc, build_e2e=build_e2e, repo_objs=repo_objs,
                   harness_obj=harness_obj, must=must, SAN=SAN, CC=CC, MC=MC, here=HERE)
    results, samples, known, violation, broken = [], [], {}, None, None
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
    for job in JOBS[prop](ctx):
        cmd = job["cmd"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           cwd=out, env=env)
        found = None
        for line in r.stdout.splitlines():
            if line.startswith("RESULT "):
                results.append(json.loads(line[7:]))
            elif line.startswith("SAMPLE "):
                samples.append(line[7:])
            elif line.startswith("KNOWN "):
                known[line[6:].strip()] = True
            elif line.startswith("FOUND ") and not found:
                found = line[6:].split(" ", 1)
            else:
                print(line[:300])
        if found:
            path, msg = found[0], found[1] if len(found) > 1 else ""
            rr = run(job["replay"](path), cwd=out, timeout=600, errors="replace", env=env)
            print("counterexample: " + msg)
            if rr.returncode == 1 and "REPRODUCED" in rr.stdout and "NOT REPRODUCED" not in rr.stdout:
                violation = path
                print([l for l in rr.stdout.splitlines() if "REPRODUCED" in l][0])
                break
            print(rr.stdout[-2000:])
            broken = broken or "a counterexample did not replay"       # unless another engine settles it
            continue
        if r.returncode not in (0,):
            print(r.stdout[-3000:])
            broken = broken or "engine ended with status %d" % r.returncode
    if broken and not violation:
        die(broken)
    kf = known_findings()
    unlisted = [k for k in known if (prop, k) not in kf]
    cov = jobs.coverage(prop, results, samples)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "model_checking"), coverage=cov,
              assumptions=jobs.assumptions(prop), wall_s=round(time.time() - t0, 1),
              violations=1 if (violation or unlisted) else 0)
    if known:
        ev["coverage"]["known_findings_met"] = sorted(known)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for (p, sig), what in sorted(kf.items()):
        if p == prop and sig in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, sig, what))
    if unlisted and not violation:
        violation = "known_findings.txt:" + unlisted[0]
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    print("OK property=%s tier=%s %s" % (prop, tier, {k: v for k, v in cov.items() if isinstance(v, int)}))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (subprocess.TimeoutExpired, OSError) as e:
        die(str(e))
