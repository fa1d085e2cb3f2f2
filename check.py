#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] | check.py --setup

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict."""
import argparse, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
TARGET = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "nightly-2023-10-11"
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402

NSHARDS = 8
STUCK = 97  # a worker whose case runs for more than a minute
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


class NoVerdict(Exception):
    pass


class Refused(NoVerdict):
    """Valid generated type definitions no longer compile."""


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
                                                    "RUSTC", "RUSTC_WORKSPACE_WRAPPER", "CARGO_MAKEFLAGS", "MAKEFLAGS"):
            del e[k]
    e.update(HOME=e.get("HOME") or "/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTC_WRAPPER=os.path.join(HARNESS, "rustc-wrapper.sh"))
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    return e


class Lock:
    """One build at a time in this copy."""
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def unescape(lit):
    """The bytes of a Rust string or character literal's body."""
    def one(m):
        e = m.group(1)
        if e[0] == "u":
            v = int(e[2:-1].replace("_", ""), 16)
            return chr(v).encode("utf-8", "ignore") if v < 0x110000 else b""
        if e[0] == "x":
            return bytes([int(e[1:], 16)])
        return {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0"}.get(e, e.encode())
    out, pos = b"", 0
    for m in re.finditer(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", lit):
        out += lit[pos:m.start()].encode() + one(m)
        pos = m.end()
    return out + lit[pos:].encode()


def dictionary():
    """Literals of the code under test. They only bias generation, never a verdict."""
    ints, strs = set(), set()
    for root in ("src", "value/src", "derive/src", "difffuzz/src"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".rs"):
                    continue
                s = open(os.path.join(d, f), errors="replace").read()
                s = re.sub(r"//[^\n]*", "", s)
                for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b", s):
                    try:
                        v = int(m.group(1).replace("_", ""), 0)
                    except ValueError:
                        continue
                    if v < 1 << 64:
                        ints.add(v)
                for m in re.finditer(r"\b(\d+)(?:[iu]\d+|[iu]size)?\s*(<<|\*)\s*(\d+)\b", s):
                    a, b = int(m.group(1)), int(m.group(3))
                    v = (a << b if b < 64 else 0) if m.group(2) == "<<" else a * b
                    if 0 < v < 1 << 64:
                        ints.update((v, v - 1))
                for m in re.finditer(r'b?"((?:[^"\\\n]|\\.){1,40})"', s):
                    strs.add(unescape(m.group(1)))
                for m in re.finditer(r"b?'([^'\\\n]|\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.)'", s):
                    b = unescape(m.group(1))
                    strs.add(b)
                    try:
                        ints.add(ord(b.decode()))
                    except (UnicodeError, TypeError):
                        pass
    for w in (8, 16, 32, 64):
        ints.update(((1 << w) - 1, (1 << w - 1) - 1, 1 << w - 1))
    lines = ["i %d" % x for x in sorted(ints)] + ["s " + x.hex() for x in sorted(strs) if x]
    p = os.path.join(BUILD, "dict.txt")
    write_if_changed(p, "\n".join(lines) + "\n")
    return p, len(lines)


def generate(zseed):
    out = os.path.join(BUILD, "gen", "zoo-%d" % zseed)
    stats = os.path.join(out, "stats.json")
    r = subprocess.run([sys.executable, os.path.join(HERE, "gen", "gen_types.py"), "--seed", str(zseed), "--out", out],
                       capture_output=True, text=True)
    if r.returncode:
        raise NoVerdict("type generator failed: " + r.stderr[-2000:])
    return out, json.load(open(stats))


def digest(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock", ".sh")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def refresh():
    """Cargo goes by modification times; where contents changed and times may not have, it is told."""
    for root, names in (("/repo", ("oasis-cbor", "raw-")), (HARNESS, ("engine-", "refmodel-", "raw-", "typed-", "serdez-", "zoo-", "szoo-"))):
        p = os.path.join(BUILD, "digest-" + os.path.basename(root))
        new = digest(root)
        try:
            old = open(p).read()
        except OSError:
            old = None
        if old != new:
            for top in ("target/debug", "target/%s/debug" % TARGET):
                d = os.path.join(BUILD, top, ".fingerprint")
                for x in os.listdir(d) if os.path.isdir(d) else []:
                    if x.startswith(names):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            with open(p, "w") as f:
                f.write(new)


def build(bins, zseed):
    """Builds the workers from /repo's working tree and copies them to a directory of this run."""
    e = env()
    info = {}
    if any(b in plan.ZOO_BINS for b in bins):
        e["ZOO_GEN"], info = generate(zseed)
    cmd = ["cargo", "build", "--offline", "--target", TARGET]
    for b in bins:
        cmd += ["-p", b]
    t0 = time.time()
    refresh()
    r = subprocess.run(cmd, cwd=HARNESS, env=e, capture_output=True, text=True)
    if r.returncode:
        errs = re.findall(r"^error(?:\[(E\d+)\])?:.*\n\s+-->\s+(.*)", r.stderr, re.M)
        # A definition the macros refuse, or a built-in type that has lost its codec: the code of the workers
        # asks only for what the library documents.
        if errs and all("/gen/zoo-" in w or (c == "E0277" and re.match(r"(typed|serdez)/src/", w)) for c, w in errs):
            raise Refused("valid types have no codec:\n" + r.stderr[:4000])
        raise NoVerdict("build failed:\n" + r.stdout[-2000:] + r.stderr[-12000:])
    info["build_s"] = round(time.time() - t0, 1)
    return info


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.failures = []
        self.subs = {}
        self.edges_total = {}
        self.hashes = []
        self.notes = {}
        self.builds = []

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def bin(self, b, z):
        return os.path.join(self.work, "%s-%d" % (b, z))

    def prepare(self, bins, z):
        with Lock():
            self.dict, self.notes["dictionary_entries"] = dictionary()
            info = build(bins, z)
            for b in bins:
                shutil.copy2(os.path.join(BUILD, "target", TARGET, "debug", b), self.bin(b, z))
        self.builds.append(dict(info, bins=bins, type_seed=z))

    def job(self, b, z, mult):
        out = os.path.join(self.work, "out-%s-%d" % (b, z))
        os.makedirs(out)
        seed = (self.seed * 1000003 + z * 7919 + 17) % (1 << 62)
        procs = []
        for i in range(NSHARDS):
            log = open(os.path.join(out, "log-%d" % i), "w")
            cmd = [self.bin(b, z), "run", "--prop", self.prop, "--seed", str(seed), "--shard", str(i), "--nshards",
                   str(NSHARDS), "--mult", str(mult), "--out", out, "--dict", self.dict]
            procs.append(subprocess.Popen(cmd, stdout=log, stderr=log))
        deadline = time.time() + (600 if self.tier == "quick" else 4 * 3600)
        crashed = []
        try:
            for i, p in enumerate(procs):
                try:
                    rc = p.wait(max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    raise NoVerdict("worker %s/%d did not finish" % (b, i))
                if rc == STUCK or (rc < 0 and -rc in CRASH):
                    crashed.append((i, -rc))
                elif rc != 0:
                    tail = open(os.path.join(out, "log-%d" % i)).read()[-2000:]
                    raise NoVerdict("worker %s/%d ended with %d: %s" % (b, i, rc, tail))
        finally:
            for p in procs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        # Every replay of a case that hangs takes a minute: one that reproduces is enough.
        doubts = []
        for i, sig in crashed:
            try:
                self.crash(b, z, out, i, sig)
                break
            except NoVerdict as e:
                doubts.append(e)
        for i in range(NSHARDS):
            if i in [c[0] for c in crashed]:
                continue
            d = json.load(open(os.path.join(out, "shard-%d.json" % i)))
            if d["internal"]:
                tail = open(os.path.join(out, "log-%d" % i)).read()[-4000:]
                self.notes.setdefault("internal", []).append("%s/%d: %s" % (b, i, tail))
            self.edges_total[b] = max(self.edges_total.get(b, 0), d["edges_total"])
            for f in d["failures"]:
                self.failures.append(dict(f, bin=b, zseed=z))
            for s in d["subs"]:
                a = self.subs.setdefault((b, s["name"]), dict(
                    check=s["name"], worker=b, evaluations=0, random=0, coverage_guided=0, discarded=0, nontrivial=0,
                    classes={}, samples=[], corpus=0, edges_covered=0, cpu_s=0.0))
                a["evaluations"] += s["evaluations"]
                a["random"] += s["random"]
                a["coverage_guided"] += s["guided"]
                a["discarded"] += s["discarded"]
                a["nontrivial"] += s["nontrivial"]
                a["corpus"] += s["corpus"]
                a["edges_covered"] = max(a["edges_covered"], s["edges"])
                a["cpu_s"] = round(a["cpu_s"] + s["wall_s"], 2)
                for k, v in s["classes"].items():
                    a["classes"][k] = a["classes"].get(k, 0) + v
                a["samples"] += s["samples"]
            self.hashes.append(os.path.join(out, "hashes-%d" % i))
        if doubts and not self.failures:
            raise doubts[0]

    def crash(self, b, z, out, i, sig):
        txt = open(os.path.join(out, "cur-%d" % i)).read().split("\n")
        head = txt[0].split()
        how = "runs for more than a minute" if sig == -STUCK else "dies with signal %s" % signal.Signals(sig).name
        if len(head) != 4:
            raise NoVerdict("worker %s/%d %s outside a case" % (b, i, how))
        n = int(head[3])
        tape = [int(x) for x in txt[1].split()[:n]] if n else []
        f = dict(sub=head[1], tape=tape, ext=int(head[2]), bin=b, zseed=z,
                 message="the process " + how)
        rc, outtxt = self.replay_one(f)
        if rc is None:
            raise NoVerdict("crash replay of %s/%d did not finish" % (b, i))
        if rc == STUCK or (rc < 0 and -rc in CRASH):
            self.failures.append(f)
        elif rc == 1:
            self.failures.append(dict(f, message=outtxt.strip()))
        else:
            raise NoVerdict("worker %s/%d %s, which does not reproduce" % (b, i, how))

    def replay_one(self, f):
        tp = os.path.join(self.work, "tape")
        with open(tp, "w") as h:
            h.write(" ".join(str(x) for x in f["tape"]))
        cmd = [self.bin(f["bin"], f["zseed"]), "replay", "--prop", self.prop, "--sub", f["sub"], "--tape", tp, "--dict", self.dict]
        if f.get("ext") is not None:
            cmd += ["--ext", str(f["ext"])]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=120, errors="replace")
        except subprocess.TimeoutExpired:
            return None, ""
        return r.returncode, r.stdout

    def distinct(self):
        if not self.hashes:
            return 0
        b, z = self.anybin
        r = subprocess.run([self.bin(b, z), "merge", "--files", ",".join(self.hashes)], capture_output=True, text=True, check=True)
        return int(r.stdout)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


def finish(prop, tier, seed, coverage, failures, t0, replays):
    """Splits known findings off, writes the evidence, prints the verdict."""
    known = known_findings(prop)
    bad = []
    seen = {}
    for f, path in zip(failures, replays):
        for rx, what in known:
            if rx.search(f["message"]):
                seen[what] = True
                break
        else:
            bad.append((f, path))
    for _, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
              assumptions=plan.ASSUMPTIONS + plan.PROPS[prop].get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for f, path in bad:
        print("%s %s: %s" % (prop, f["sub"], f["message"][:3000]))
    for _, path in bad[:1]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not bad:
        print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.0fs" % (
            prop, coverage["evaluations"], coverage["distinct_nontrivial"], time.time() - t0))
    return 1 if bad else 0


def save_replay(prop, f):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(f, property=prop), indent=1)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, f["sub"], hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(p, "w") as h:
        h.write(body)
    return p


def run_engine(prop, tier, seed, t0):
    p = plan.PROPS[prop]
    run = Run(prop, tier, seed)
    try:
        zs = plan.zoo_seeds(seed, tier) if any(b in plan.ZOO_BINS for b in p["bins"]) else [0]
        for n, z in enumerate(zs):
            bins = p["bins"] if n == 0 else [b for b in p["bins"] if b in plan.ZOO_BINS]
            try:
                run.prepare(bins, z)
            except Refused as e:
                if prop not in plan.TYPE_PROPS:
                    raise
                run.failures = [dict(sub="compile", tape=[], bin=bins[0], zseed=z, message=str(e))]
                if not run.subs:
                    f = run.failures
                    cov = dict(evaluations=1, distinct_nontrivial=1, rule=p["rule"], samples=[str(e)[:300]])
                    return finish(prop, tier, seed, cov, f, t0, [save_replay(prop, x) for x in f])
                break
            run.anybin = (bins[0], z)
            for b in bins:
                mult = p["mult"].get(b, 100)
                if tier == "thorough":
                    mult *= p.get("thorough", 20)
                    if b in plan.ZOO_BINS:
                        mult = max(mult // len(zs), 1)
                run.job(b, z, int(mult))
                if run.failures:
                    break
            if run.failures:
                break
        if run.notes.get("internal") and not run.failures:
            raise NoVerdict("the check itself failed: " + "\n".join(run.notes["internal"])[:6000])
        evals = sum(s["evaluations"] - s["discarded"] for s in run.subs.values())
        samples = []
        for k in range(3):
            for s in run.subs.values():
                if k < len(s["samples"]):
                    samples.append("%s: %s" % (s["check"], s["samples"][k]))
        for s in run.subs.values():
            s["samples"] = len(s["samples"])
            s["edges_total"] = run.edges_total.get(s["worker"], 0)
        cov = dict(evaluations=evals, distinct_nontrivial=run.distinct(), rule=p["rule"], samples=samples[:30],
                   checks=list(run.subs.values()), builds=run.builds, shards=NSHARDS,
                   dictionary_entries=run.notes.get("dictionary_entries", 0))
        if not run.failures and (evals == 0 or cov["distinct_nontrivial"] == 0):
            raise NoVerdict("nothing was explored")
        # Smallest first; a replay in a fresh process confirms each kind once.
        run.failures.sort(key=lambda f: (len(f["tape"]), f["tape"]))
        kept, kinds = [], set()
        for f in run.failures:
            if f["sub"] in kinds:
                continue
            kinds.add(f["sub"])
            if f["sub"] == "compile":
                kept.append(f)
                continue
            rc, out = run.replay_one(f)
            if rc == 0 or rc == 2 or rc is None:
                # Only seen in the process that found it (hash seeds differ): keep what was seen.
                f = dict(f, message=f["message"] + " [seen once; not in every process]")
            kept.append(f)
        return finish(prop, tier, seed, cov, kept, t0, [save_replay(prop, f) for f in kept])
    finally:
        run.close()


def replay(prop, path, t0):
    f = json.load(open(path))
    if plan.PROPS[prop].get("runner") == "compile":
        import compilecheck
        return compilecheck.replay(sys.modules[__name__], f)
    run = Run(prop, "quick", 1)
    try:
        try:
            run.prepare([f["bin"]], f["zseed"])
        except Refused as e:
            print(str(e))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if f["sub"] == "compile":
            print("the definitions compile")
            return 0
        rc, out = run.replay_one(f)
        print(out.strip())
        if rc is not None and (rc in (1, STUCK) or (rc < 0 and -rc in CRASH)):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if rc == 0 else 2
    finally:
        run.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    try:
        if a.setup:
            with Lock():
                dictionary()
                build(plan.ALL_BINS, plan.zoo_seeds(seed, "quick")[0])
            print("setup done in %.0f s" % (time.time() - t0))
            return 0
        if a.prop not in plan.PROPS:
            ap.error("unknown property")
        if a.replay:
            return replay(a.prop, a.replay, t0)
        if plan.PROPS[a.prop].get("runner") == "compile":
            import compilecheck
            return compilecheck.run(sys.modules[__name__], a.prop, tier, seed, t0)
        return run_engine(a.prop, tier, seed, t0)
    except NoVerdict as e:
        print("NO VERDICT property=%s: %s" % (a.prop, e))
        return 2


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # an error of the check must not look like a violation
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
