#!/usr/bin/env python3
"""Decides one property of /repo's working tree by generated-input search.

    check.py C02 [quick|thorough]          run the check (tier default: $VERIF_TIER or quick)
    check.py C02 --replay FILE             run one recorded failing case again
    check.py --setup                       build every configuration once

Exit 0: held on everything explored. Exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed. Anything else: no verdict.
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from plan import CONFIGS, PLAN  # noqa: E402


class NoVerdict(Exception):
    pass


class Stalled(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in (".git", "target", "evidence", "seeded", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "MIRIFLAGS"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sources():
    return [os.path.join(REPO, x) for x in ("src", "build.rs", "Cargo.toml", "proc-macro2-wasm")] + [
        os.path.join(VERIF, x) for x in ("harness", "pm", "obs") if os.path.exists(os.path.join(VERIF, x))
    ]


def build(name, stamp):
    c = CONFIGS[name]
    tdir = os.path.join(TARGET, name)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sfile = os.path.join(tdir, "stamp")
        want = stamp + json.dumps(c, sort_keys=True)
        try:
            with open(sfile) as f:
                if f.read() == want:
                    return
        except OSError:
            pass
        # mtimes are not trusted: any difference in content builds afresh
        shutil.rmtree(tdir, ignore_errors=True)
        os.makedirs(tdir)
        env = base_env()
        flags = list(c.get("rustflags", []))
        if flags:
            env["RUSTFLAGS"] = " ".join(flags)
        if c.get("wrapper"):
            env["RUSTC_WRAPPER"] = os.path.join(VERIF, c["wrapper"])
        cmd = ["cargo"]
        if c.get("toolchain"):
            cmd.append("+" + c["toolchain"])
        crate = c.get("crate", "harness")
        cmd += ["build", "--release", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), "--target-dir", tdir]
        if c.get("bin", True) and crate == "harness":
            cmd += ["--lib", "--bin", "vh"]
        if c.get("target"):
            cmd += ["--target", c["target"]]
        if c.get("build_std"):
            cmd += ["-Zbuild-std=std,panic_unwind"]
        if c.get("features"):
            cmd += ["--features", ",".join(c["features"])]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoVerdict("configuration %s does not build:\n%s" % (name, p.stdout[-4000:]))
        with open(sfile, "w") as f:
            f.write(want)


def build_all(names):
    stamp = tree_hash(sources())
    with ThreadPoolExecutor(max_workers=4) as ex:
        list(ex.map(lambda n: build(n, stamp), names))


def out_dir(name):
    c = CONFIGS[name]
    d = os.path.join(TARGET, name)
    if c.get("target"):
        d = os.path.join(d, c["target"])
    return os.path.join(d, "release")


# ------------------------------------------------------------------ workers

def dictionary(tmp):
    """The constants written in the code under test, as a fuzzing dictionary."""
    strs, chars, nums = set(), set(), set()
    simple = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}

    def unescape(t):
        t = re.sub(r"\\\n\s*", "", t)
        t = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(min(int(m.group(1).replace("_", ""), 16), 0x10FFFF)), t)
        t = re.sub(r"\\x([0-9a-fA-F]{2})", lambda m: chr(int(m.group(1), 16)), t)
        return re.sub(r"\\(.)", lambda m: simple.get(m.group(1), m.group(1)), t)

    token = re.compile(
        r'//[^\n]*|/\*.*?\*/|[bc]?r(#*)"(?P<raw>.*?)"\1|[bc]?"(?P<str>(?:\\.|[^"\\])*)"|b?\'(?P<chr>\\u\{[^}]*\}|\\x..|\\.|[^\'\\])\''
        r"|(?<![\w.])(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)|[A-Za-z_]\w*",
        re.S,
    )
    src = os.path.join(REPO, "src")
    for d, ds, fs in os.walk(src):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f), errors="replace") as fh:
                text = fh.read()
            for m in re.finditer(r"\b(\d[\d_]*)\w*\s*(<<|\*)\s*(\d[\d_]*)", text):
                a, b = int(m.group(1).replace("_", "")), int(m.group(3).replace("_", ""))
                if m.group(2) == "*" or b < 64:
                    nums.add(a << b if m.group(2) == "<<" else a * b)
            for m in re.finditer(r"\b[ui](8|16|32)::MAX\b", text):
                nums.add((1 << int(m.group(1)) - (m.group(0)[0] == "i")) - 1)
            for m in token.finditer(text):
                if m.group("raw") is not None:
                    strs.add(m.group("raw"))
                elif m.group("str") is not None:
                    strs.add(unescape(m.group("str")))
                elif m.group("chr") is not None:
                    chars.add(unescape(m.group("chr"))[:1])
                elif m.group("num") is not None:
                    nums.add(int(m.group("num").replace("_", ""), 0) if m.group("num")[:2] in ("0x", "0b", "0o") else int(m.group("num").replace("_", "")))
    out = ["S " + x.encode("utf-8", "surrogatepass").hex() for x in sorted(strs) if 0 < len(x) <= 40][:600]
    out += ["C %d" % ord(x) for x in sorted(chars) if x][:400]
    out += ["N %d" % x for x in sorted(nums) if x < 1 << 64][:300]
    p = os.path.join(tmp, "dictionary.txt")
    with open(p, "w") as f:
        f.write("\n".join(out) + "\n")
    return p


def corpus_list(tmp):
    """Real Rust source shipped with the toolchain, plus the code under test."""
    out = []
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    tc = os.path.join(home, "toolchains")
    roots = []
    if os.path.isdir(tc):
        for t in sorted(os.listdir(tc)):
            if t.startswith("stable"):
                roots.append(os.path.join(tc, t, "lib/rustlib/src/rust/library"))
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".rs") and os.path.getsize(p) < 60_000:
                    out.append(p)
    out = out[::11][:200]
    p = os.path.join(tmp, "corpus.txt")
    with open(p, "w") as f:
        f.write("\n".join(out) + "\n")
    return p


SLOW = {"all-offsets", "invalidated"}
# phases of few and long cases, which the guided search leaves out
LONG = SLOW | {"very-many-strings", "many-strings", "far-offsets"}


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def command(config, args):
    """The command line and environment that run the worker with `args`."""
    c = CONFIGS[config]
    env = base_env()
    if c.get("crate", "harness") == "pm":
        rel = out_dir(config)
        env["VH_ARGS"] = "\x1f".join(args)
        rustc = ["rustc"]
        if c.get("toolchain"):
            rustc.append("+" + c["toolchain"])
        so = os.path.join(rel, "libvpm.so")
        edition = c.get("edition", "2021")
        return rustc + ["-Awarnings", "--error-format=short", "--edition", edition, "--crate-type", "lib", "--crate-name", "user", "--emit", "metadata", "-o", os.path.join(os.environ.get("TMPDIR", "/tmp"), "vpm-%d.rmeta" % os.getpid()),
                        "--extern", "vpm=" + so, os.path.join(VERIF, "pm", "user.rs")], env
    return [os.path.join(out_dir(config), "vh")] + args, env


class Runner:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.corpus = corpus_list(tmp)
        self.dictionary = dictionary(tmp)
        self.n = 0
        self.extra_env = {}

    def env(self, e):
        e = dict(e)
        e["VH_CORPUS"] = self.corpus
        e["VH_DICT"] = self.dictionary
        e["TMPDIR"] = self.tmp
        e["VH_TMP"] = self.tmp
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
        e.update(self.extra_env)
        return e

    def fresh(self, suffix):
        self.n += 1
        return os.path.join(self.tmp, "%03d.%s" % (self.n, suffix))

    def common(self, part):
        a = ["tier=" + self.tier, "seed=%d" % self.seed, "salt=%s/%s" % (self.prop, part["config"]), "scale=%d" % part.get("scale", 100)]
        return a

    # -- one recorded or generated case in its own process; returns (violated, message)
    def single(self, part, args, limit):
        cmd, env = command(part["config"], args)

        def pre():
            limits()
            resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
            if not CONFIGS[part["config"]].get("asan"):
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

        try:
            p = subprocess.run(cmd, env=self.env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre, timeout=limit * 4, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            return True, "does not terminate within %d s" % (limit * 4)
        if p.returncode == 0:
            return False, p.stdout
        if p.returncode == 1 and "VIOLATED: " in p.stdout:
            return True, p.stdout.split("VIOLATED: ", 1)[1].strip()
        if p.returncode < 0 or p.returncode in (101, 134, 139):
            sig = -p.returncode
            name = signal.Signals(sig).name if sig > 0 else "exit %d" % p.returncode
            if sig in (signal.SIGXCPU, signal.SIGKILL):
                return True, "does not terminate: used %d s of processor time on one case" % limit
            return True, "the process died (%s)\n%s" % (name, p.stdout[-1500:])
        return None, p.stdout[-3000:]

    def run_case(self, part, phase, case, limit=30):
        f = self.fresh("case")
        with open(f, "w") as fh:
            fh.write(encode_case(case))
        return self.single(part, ["replay", self.prop, "phase=" + phase, "case=" + f] + self.common(part), self.slow(phase, limit))

    # -- the process died or hung while (phase number, index) was running
    def triage(self, part, candidates, why, limit, mirrored=None):
        for ph, idx in candidates:
            if mirrored:
                # guided search: the case itself was written down
                data = open(mirrored, "rb").read()
                kind, n = struct.unpack_from("<QQ", data, 0)
                if kind == 1:
                    case = {"kind": "text", "text": data[16:16 + n].decode("utf-8", "ignore")}
                else:
                    case = {"kind": "tape", "tape": list(struct.unpack_from("<%dQ" % n, data, 16))}
                name = self.phase_name(part, ph)
                bad, msg = self.run_case(part, name, case, limit)
                if bad:
                    case, msg = self.shrink(part, name, case, msg, limit)
                    return {"phase": name, "idx": idx, "case": case, "msg": msg, "rendered": None}
                continue
            dump, mirror = self.fresh("dump"), self.fresh("mirror")
            open(mirror, "w").close()
            args = ["one", self.prop, "phase=%d" % ph, "idx=%d" % idx, "dump=" + dump, "mirror=" + mirror] + self.common(part)
            limit = self.slow(self.phase_name(part, ph), limit)
            bad, msg = self.single(part, args, limit)
            if not bad:
                continue
            if os.path.exists(dump):
                case = decode_case(open(dump).read())
            else:
                data = open(mirror, "rb").read()
                n = struct.unpack_from("<Q", data, 0)[0] if len(data) >= 8 else 0
                case = {"kind": "tape", "tape": list(struct.unpack_from("<%dQ" % n, data, 8))}
            name = self.phase_name(part, ph)
            case, msg = self.shrink(part, name, case, msg, limit)
            return {"phase": name, "idx": idx, "case": case, "msg": msg, "rendered": None}
        # no case does it alone: a busy machine? once more, with more time
        if why.startswith("made no progress") and not part.get("patient"):
            raise Stalled(why)
        # no case does it alone: does the whole sequence of cases do it again?
        if not part.get("again") and any("ended with -%d" % s in why for s in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGTRAP)):
            try:
                _, v = self.part(dict(part, again=True))
                same = v is not None
                why2 = v["msg"] if v else "nothing"
            except NoVerdict as e:
                why2 = str(e)
                same = "no single case reproduces it" in why2 and "ended with -" in why2
            if same:
                return {"phase": self.phase_name(part, candidates[0][0]), "idx": candidates[0][1], "case": {"kind": "sequence"}, "msg": "the process %s\n(only after the cases before it; twice)" % why, "rendered": None}
        raise NoVerdict("worker of %s %s, but no single case reproduces it (running: %s)" % (part["config"], why, candidates))

    def phase_name(self, part, k):
        cmd, env = command(part["config"], ["list", self.prop] + self.common(part))
        p = subprocess.run(cmd, env=self.env(env), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        lines = [x for x in p.stdout.splitlines() if re.match(r"^\S+ \d+$", x)]
        return lines[k].split()[0]

    def slow(self, phase, limit):
        return 300 if phase in SLOW else limit

    def shrink(self, part, phase, case, msg, limit):
        key = "text" if case["kind"] == "text" else "tape"
        best = list(case[key])
        deadline = time.time() + 60
        hang = "terminate" in msg
        if hang:
            limit = min(limit, 8)

        def test(c):
            nonlocal msg
            v = {"kind": case["kind"], key: "".join(c) if key == "text" else c}
            bad, m = self.run_case(part, phase, v, limit)
            if bad:
                msg = m
            return bool(bad)

        size = max(1, len(best) // 2)
        while time.time() < deadline:
            i = 0
            while i < len(best) and time.time() < deadline:
                c = best[:i] + best[i + size:]
                if test(c):
                    best = c
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        return {"kind": case["kind"], key: "".join(best) if key == "text" else best}, msg

    # -- all cases of one configuration
    def part(self, part):
        try:
            return self.part_once(part)
        except Stalled:
            return self.part_once(dict(part, patient=True))

    def part_once(self, part):
        c = CONFIGS[part["config"]]
        single_threaded = c.get("crate", "harness") == "pm" or part.get("processes")
        if single_threaded:
            shards = part.get("shards", NCPU)
            jobs = [(i, shards, 1) for i in range(shards)]
        else:
            jobs = [(0, 1, NCPU)]
        procs = []
        for (i, n, threads) in jobs:
            slots, out, err = self.fresh("slots"), self.fresh("out"), self.fresh("err")
            open(slots, "wb").write(b"\0" * (16 * threads))
            args = ["work", self.prop, "threads=%d" % threads, "shard=%d/%d" % (i, n), "out=" + out, "slots=" + slots] + self.common(part)
            if part.get("only"):
                args.append("only=" + part["only"])
            mirror = None
            if part.get("guide"):
                mirror = self.fresh("mirror")
                open(mirror, "w").close()
                args += ["guide=%d" % part["guide"][self.tier], "mirror=" + mirror, "skip=" + ",".join(sorted(LONG))]
            cmd, env = command(part["config"], args)

            def pre():
                limits()
                if not c.get("asan"):
                    resource.setrlimit(resource.RLIMIT_AS, (28 << 30, 28 << 30) if threads > 1 else (12 << 30, 12 << 30))

            fh = open(err, "w")
            p = subprocess.Popen(cmd, env=self.env(env), stdout=fh, stderr=subprocess.STDOUT, preexec_fn=pre)
            procs.append({"p": p, "slots": slots, "out": out, "err": err, "threads": threads, "mirror": mirror, "last": {}, "done": False})
        violation = None
        stats = []
        try:
            while any(not q["done"] for q in procs) and violation is None:
                time.sleep(0.05)
                now = time.time()
                for q in procs:
                    if q["done"]:
                        continue
                    rc = q["p"].poll()
                    running = []
                    with open(q["slots"], "rb") as fh:
                        data = fh.read()
                    for t in range(q["threads"]):
                        ph, idx = struct.unpack_from("<QQ", data, t * 16)
                        if ph:
                            running.append((ph - 1, idx))
                            if q["last"].get(t, (None,))[0] != (ph, idx):
                                q["last"][t] = ((ph, idx), now)
                        else:
                            q["last"].pop(t, None)
                    if rc is None:
                        stuck = [k for (k, since) in q["last"].values() if now - since > (200 if part.get("patient") else 40)]
                        # a few cases are known to be long
                        stuck = [k for k in stuck if self.phase_name(part, k[0] - 1) not in SLOW or any(j == k and now - since > 400 for (j, since) in q["last"].values())]
                        if stuck:
                            q["p"].kill()
                            q["p"].wait()
                            violation = self.triage(part, [(ph - 1, idx) for ph, idx in stuck], "made no progress for 40 s", 25, q["mirror"])
                            break
                        continue
                    q["done"] = True
                    rep = None
                    if os.path.exists(q["out"]):
                        try:
                            rep = json.load(open(q["out"]))
                        except ValueError:
                            rep = None
                    if rep is not None and not rep["partial"] and rc in (0, 1):
                        stats += rep["phases"]
                        if rep["violation"]:
                            violation = fix_case(rep["violation"])
                            break
                    elif rep is not None and rep["partial"]:
                        # died while shrinking
                        violation = fix_case(rep["violation"])
                        violation["case"], violation["msg"] = self.shrink(part, violation["phase"], violation["case"], violation["msg"], 25)
                        break
                    else:
                        tail = open(q["err"], errors="replace").read()[-3000:]
                        if not running:
                            raise NoVerdict("worker of %s ended with %s and no report:\n%s" % (part["config"], rc, tail))
                        violation = self.triage(part, running, "ended with %s\n%s" % (rc, tail), 25, q["mirror"])
                        break
        finally:
            for q in procs:
                if q["p"].poll() is None:
                    q["p"].kill()
                    q["p"].wait()
        if violation:
            violation["config"] = part["config"]
            if violation["case"]["kind"] != "sequence" and not part.get("again"):
                # a case that fails only after the ones before it is replayed with them
                bad, _ = self.run_case(part, violation["phase"], violation["case"], 60)
                if not bad:
                    violation["sequence"] = True
        return stats, violation


def fix_case(v):
    c = v["case"]
    if c["kind"] == "tape":
        c["tape"] = [int(x) for x in c["tape"]]
    return v


def encode_case(case):
    if case["kind"] == "text":
        return "text\n%s\n" % case["text"].encode("utf-8", "surrogatepass").hex()
    return "tape\n%s\n" % " ".join(str(x) for x in case["tape"])


def decode_case(text):
    kind, data = text.split("\n", 1)
    if kind == "text":
        return {"kind": "text", "text": bytes.fromhex(data.strip()).decode()}
    return {"kind": "tape", "tape": [int(x) for x in data.split()]}


# ------------------------------------------------------------------ verdict

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def needed(plan):
    names = []
    for part in plan["parts"]:
        for n in [part["config"]] + part.get("also", []):
            if n not in names:
                names.append(n)
    return names


def check(prop, tier, seed):
    started = time.time()
    plan = PLAN[prop]
    parts = [p for p in plan["parts"] if tier in p.get("tiers", ("quick", "thorough"))]
    names = needed({"parts": parts})
    build_all(names)
    built = time.time() - started
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    all_stats, violation = [], None
    try:
        r = Runner(prop, tier, seed, tmp)
        for part in parts:
            for k, n in enumerate(part.get("also", [])):
                r.extra_env["VH_LIB_%d" % k] = n + "=" + os.path.join(out_dir(n), CONFIGS[n]["artifact"])
            t0 = time.time()
            stats, violation = r.part(part)
            log("%s %s: %d cases, %.1f s" % (prop, part["config"], sum(s["evaluations"] for s in stats), time.time() - t0))
            for s in stats:
                s["config"] = part["config"]
            all_stats += stats
            if violation:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    replay = None
    if violation:
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        body = {
            "property": prop,
            "config": violation["config"],
            "phase": violation["phase"],
            "case": violation["case"],
            "message": violation["msg"],
            "rendered": violation.get("rendered"),
            "seed": seed,
            "tier": tier,
            "sequence": violation["case"]["kind"] == "sequence" or violation.get("sequence", False),
            "how": "python3 /verif/check.py %s --replay <this file>" % prop,
        }
        text = json.dumps(body, indent=1, ensure_ascii=False)
        replay = os.path.join(EVID, "replays", "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
        with open(replay, "w") as f:
            f.write(text)
    write_evidence(prop, tier, seed, plan, all_stats, violation, time.time() - started, built, names)
    for case, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, case))
    if violation:
        log(violation["msg"])
        if violation.get("rendered"):
            log("case: " + violation["rendered"])
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.0f s" % (prop, sum(s["evaluations"] for s in all_stats), sum(s["distinct"] for s in all_stats), time.time() - started))
    return 0


def write_evidence(prop, tier, seed, plan, stats, violation, wall, built, names):
    os.makedirs(EVID, exist_ok=True)
    merged = {}
    for s in stats:
        k = (s["config"], s["phase"])
        m = merged.setdefault(k, {"config": s["config"], "phase": s["phase"], "evaluations": 0, "sub_checks": 0, "nontrivial": 0, "distinct": 0, "enumerated_completely": s["exhaustive"], "labels": {}, "samples": []})
        for f in ("evaluations", "sub_checks", "nontrivial", "distinct"):
            m[f] += s[f]
        for l, v in s["labels"].items():
            m["labels"][l] = m["labels"].get(l, 0) + v
        m["samples"] += s["samples"][:1]
    phases = list(merged.values())
    samples = []
    for m in phases:
        for x in m.pop("samples")[:1]:
            samples.append({"config": m["config"], "phase": m["phase"], "case": x[:600]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in phases),
            "distinct_nontrivial": sum(m["distinct"] for m in phases),
            "sub_checks": sum(m["sub_checks"] for m in phases),
            "rule": plan["rule"] + " A case is an input together with the build configuration it ran in; distinct means different inputs (choice sequences) within a phase and configuration.",
            "samples": samples[:40],
            "phases": phases,
            "configurations": {n: CONFIGS[n]["what"] for n in names},
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(wall, 2),
        "build_s": round(built, 2),
        "violations": 1 if violation else 0,
    }
    path = os.path.join(EVID, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


def replay(prop, path):
    body = json.load(open(path))
    config = body["config"]
    parts = [p for p in PLAN[prop]["parts"] if p["config"] == config]
    if not parts:
        raise NoVerdict("no configuration %s in the plan of %s" % (config, prop))
    part = parts[0]
    build_all([config] + part.get("also", []))
    tmp = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        r = Runner(prop, body.get("tier", "quick"), body.get("seed", 1), tmp)
        for k, n in enumerate(part.get("also", [])):
            r.extra_env["VH_LIB_%d" % k] = n + "=" + os.path.join(out_dir(n), CONFIGS[n]["artifact"])
        if body.get("sequence"):
            _, v = r.part(part)
            bad, msg = v is not None, v["msg"] if v else ""
        else:
            bad, msg = r.run_case(part, body["phase"], body["case"], 60)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log(msg)
    if bad is None:
        raise NoVerdict("the case could not be run")
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s holds on %s" % (prop, path))
    return 0


def main(argv):
    if argv[:1] == ["--setup"]:
        build_all(list(CONFIGS))
        print("built: " + ", ".join(CONFIGS))
        return 0
    prop = argv[0]
    if prop not in PLAN:
        log("unknown property " + prop)
        return 2
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except NoVerdict as e:
        log("NO VERDICT: %s" % e)
        sys.exit(3)
