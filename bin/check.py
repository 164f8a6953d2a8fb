#!/usr/bin/env python3
"""Driver of the runtime monitors: check.py Cxx [--tier quick|thorough] | --build | --replay FILE

Builds the harness (and with it /repo's working tree) in the variants a property
needs, runs the workload under the monitors in parallel shards, merges what was
observed into evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import array, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
# the source of the crate the harness builds
SRC = os.path.join(re.search(r'zune-jpeg = \{ path = "([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read()).group(1), "src")
BUILD = os.environ.get("ZJV_BUILD", os.path.join(ROOT, ".build"))
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(EVID, "replay")
WORK = os.path.join(ROOT, ".work")
SHARDS = 8
TARGET = "x86_64-unknown-linux-gnu"
HOOKS = "--cfg verif_hooks"

# variant: (toolchain, extra rustflags, cargo args, uses --target)
VARIANTS = {
    # optimised build, hostile allocator, thread and file monitors
    "rel": ("+stable", "", ["--release"], False),
    # the portable build: no x86 code at all
    "nox86": ("+stable", "", ["--release", "--no-default-features"], False),
    # AddressSanitizer and the compiler's own checks of unsafe preconditions
    "asan": ("+nightly", "-Zsanitizer=address -Cdebug-assertions=on -Coverflow-checks=off",
             ["--release", "--features", "plain_alloc"], True),
    # ThreadSanitizer, standard library included
    "tsan": ("+nightly", "-Zsanitizer=thread",
             ["--release", "--features", "plain_alloc", "-Zbuild-std"], True),
    # MemorySanitizer, standard library included: uninitialised memory
    "msan": ("+nightly", "-Zsanitizer=memory",
             ["--release", "--features", "plain_alloc", "-Zbuild-std"], True),
    # counts what runs, with and without x86 code
    "cov": ("+stable", "-Cinstrument-coverage", ["--release", "--features", "cov"], True),
    "covnox86": ("+stable", "-Cinstrument-coverage", ["--release", "--no-default-features", "--features", "cov"], True),
    # every arithmetic and debug assertion on
    "checked": ("+stable", "", ["--profile", "checked"], False),
}

# steps of a check: (variant, cases quick, cases thorough, extra env)
def step(variant, q, t, **env):
    return {"variant": variant, "q": q, "t": t, "env": env}

PLAN = {
    "C01": [step("rel", 576000, 12000000), step("checked", 200000, 4000000)],
    "C02": [step("rel", 117000, 3000000), step("asan", 52000, 2000000), step("msan", 40000, 1000000)],
    "C03": [step("rel", 180000, 4000000)],
    "C04": [step("rel", 72000, 1500000)],
    "C05": [step("rel", 72000, 1200000)],
    "C06": [step("rel", 90000, 2000000)],
    "C07": [step("rel", 26000, 700000), step("tsan", 5000, 300000, ZJV_TSAN="1")],
    "C08": [step("rel", 144000, 2500000)],
    "C09": [step("rel", 64000, 1200000)],
    "C10": [step("rel", 162000, 3500000)],
    "C11": [step("rel", 54000, 1100000)],
    "C12": [step("rel", 61000, 1300000)],
    "C13": [step("rel", 72000, 1500000)],
    "C14": [step("rel", 270000, 5000000)],
    "C15": [step("rel", 75000, 1500000)],
    "C16": [step("rel", 720000, 15000000)],
    "C17": [step("rel", 252000, 5000000)],
    "C18": [step("rel", 162000, 3000000)],
    "C19": [step("rel", 108000, 2200000)],
    "C20": [step("rel", 270000, 5000000)],
    "C21": [step("rel", 60000, 1200000)],
    "C22": [step("rel", 540000, 10000000)],
    "C23": [step("cov", 30000, 800000)],
    "C24": [step("rel", 160000, 3000000)],
}

RULE = {
    "C01": "seeded conforming, truncated, spliced, field-mutated, composed and random byte strings under random options, up to three calls on one decoder, in release code and in code with every overflow and debug check; non-trivial: longer than 20 bytes; distinct by content and call sequence",
    "C02": "conforming images of widths around every vector size and hostile inputs under a hostile allocator, AddressSanitizer, MemorySanitizer and Miri; non-trivial: decoding produced pixels, i.e. the unsafe code ran; distinct by content, colourspace and instruction tier",
    "C03": "baseline images with random coefficients, tables and sizes, each output sample compared with a floating point inverse transform; non-trivial: pixels were produced and compared; distinct by file content",
    "C04": "progressive images with random scan scripts compared with the floating point transform and bit for bit with a baseline file of the same coefficients; distinct by file content",
    "C05": "every pixel of five output colourspaces of the same file compared; evaluations are pixels, distinct_nontrivial the 4x4x4 cells of YCbCr space whose conversion was judged",
    "C06": "the same input decoded by the AVX2, SSE, scalar and safe code and by a build without x86 code; non-trivial: pixels were produced; distinct by content and colourspace",
    "C07": "decodes with injected delays in the workers compared with one-thread decodes, and concurrent decoders; non-trivial: more than one strip; distinct by file and observed order of strip starts and ends",
    "C08": "sizes, component counts, sampling and colourspaces; non-trivial: pixels were produced for a file whose header an independent reader understood; distinct by dimensions, components, colourspace and coding process",
    "C09": "limits at, one below and one above what the file needs; distinct by file and limit",
    "C10": "heap, thread and leak monitors around calls on conforming, hostile and huge-declaring files; non-trivial: pixels were produced; distinct by file and number of threads",
    "C11": "the same coefficients encoded with and without restart intervals; distinct by pair of files",
    "C12": "the same coefficients behind different Huffman tables, stuffing, fill bytes, extra segments and scan layouts; distinct by pair of files",
    "C13": "files cut at a random or every byte and files with damage in one restart interval; non-trivial: pixels were produced and compared outside the damage",
    "C14": "read_headers and decode_buffer on the same bytes; non-trivial: headers were accepted; distinct by file and options",
    "C15": "sequences of calls on one decoder compared with a fresh decoder; non-trivial: the call succeeded after at least one other; distinct by history",
    "C16": "files that lack a supported feature or a required part, class by class; distinct by class and file",
    "C17": "the same input in strict and normal mode; non-trivial: normal mode accepted it; distinct by file",
    "C18": "the same bytes from a file and from memory, and unreadable paths; descriptors and file contents watched; distinct by content",
    "C19": "random sequences of option setters against a model of them; distinct by sequence",
    "C20": "the same call without a logger and with one at two levels; non-trivial: messages were produced; distinct by content and level",
    "C21": "floods of segments, markers, fill and stray bytes of up to 8 MB, up to 100000 scans, little data for large pictures, hostile files, up to 400 calls on one decoder; non-trivial: the call ended and its processor time was compared with the bound; distinct by content",
    "C23": "conforming and hostile files decoded with unsafe code turned off in every way and order, also after and between decoders that have it on, in a build that counts every region of code; the counts of all places with vector intrinsics or unsafe blocks are judged; non-trivial: pixels were produced; distinct by content",
    "C24": "calls made in unusual states of thread and process (floating point modes, arriving or blocked signals, closed standard streams, other umask, working directory and environment), on read-only input that ends where memory ends, compared with the same call in the usual state; before and after every call the state of the process is compared, meanwhile streams, opened files, processes and sockets are watched; non-trivial: the call succeeded; distinct by content and floating point mode",
    "C22": "files with one fault each, file by file with the reason expected, other first bytes, hostile files; non-trivial: the file was refused and the reason judged; distinct by content",
}
ASSUME = {
    "*": ["x86-64 Linux, release semantics (wrapping arithmetic)", "the harness' encoder and oracles"],
    "C06": ["the CPU running the check has AVX2"],
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(variant):
    tc, flags, args, tgt = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    last = ""
    for hooks in (HOOKS, ""):
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=out, RUSTFLAGS=f"{hooks} {flags} -Awarnings".strip(), CARGO_NET_OFFLINE="true")
        env.pop("RUSTUP_TOOLCHAIN", None)
        cmd = ["cargo", tc, "build", "--offline"] + args + (["--target", TARGET] if tgt else [])
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            d = "checked" if variant == "checked" else "release"
            return os.path.join(out, TARGET, d, "zjv") if tgt else os.path.join(out, d, "zjv")
        last = p.stdout[-4000:]
        if not hooks:
            break
        log(f"build of {variant} with hooks failed, trying without")
    raise CheckError(f"build of {variant} failed:\n{last}")


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_rel():
    import resource
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def env_for(variant, extra):
    env = dict(os.environ)
    env.update(extra)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    env["MSAN_OPTIONS"] = "exitcode=66:abort_on_error=0:symbolize=1"
    env["RUST_BACKTRACE"] = "0"
    return env


def command(binary, prop, seed, out, shard, shards, frm, count, deadline, thorough):
    cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards),
           "--from", str(frm), "--count", str(count), "--deadline", str(deadline), "--watchdog", "60", "--out", out]
    return cmd + (["--thorough"] if thorough else [])


def classify(rc, text):
    """what an abnormal end of a shard means: None, or a signature"""
    if rc in (0, 1):
        return None
    if rc == 77:
        return "hang"
    if rc == 66 or "AddressSanitizer" in text or "ThreadSanitizer" in text or "MemorySanitizer" in text:
        m = re.search(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer): ([^\n(]+)", text)
        return "sanitizer " + (m.group(2).strip()[:60] if m else "")
    if rc < 0:
        return "signal " + signal.Signals(-rc).name
    return "error"


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0
        self.hashes = set()
        self.notes, self.maxima, self.samples, self.steps = {}, {}, [], []
        self.viols = []
        self.t0 = time.time()
        self.deadline = 3600 * 3 if tier == "thorough" else 150
        scale = float(os.environ.get("ZJV_SCALE", "1"))
        self.scale = scale

    def violation(self, variant, idx, sig, msg, file=None, env=None):
        os.makedirs(REPLAY, exist_ok=True)
        base = os.path.join(REPLAY, f"{self.prop}-{len(self.viols)}")
        rec = {"property": self.prop, "variant": variant, "seed": self.seed, "case": idx, "signature": sig, "message": msg,
               "env": env or {}, "how": f"python3 bin/check.py --replay {os.path.relpath(base, ROOT)}.json"}
        if file and os.path.exists(file):
            shutil.copyfile(file, base + ".jpg")
            rec["input"] = base + ".jpg"
            rec["sha256"] = hashlib.sha256(open(file, "rb").read()).hexdigest()
        with open(base + ".json", "w") as f:
            json.dump(rec, f, indent=1)
        self.viols.append((base + ".json", rec))

    def merge(self, path):
        with open(path) as f:
            j = json.load(f)
        self.evaluations += j["evaluations"]
        for k, v in j["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in j["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, v), v)
        self.samples += j["samples"][:1]
        a = array.array("Q")
        with open(path + ".hashes", "rb") as f:
            a.frombytes(f.read())
        if len(self.hashes) < 40_000_000:
            self.hashes.update(a)
        return j

    def run_step(self, st):
        variant = st["variant"]
        binary = build(variant)
        n = int((st["t"] if self.tier == "thorough" else st["q"]) * self.scale)
        wd = os.path.join(WORK, self.prop, variant)
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        t = time.time()
        procs = []
        env = env_for(variant, st["env"])
        pre = limits if variant in ("asan", "tsan", "msan") else limits_rel
        for i in range(SHARDS):
            out = os.path.join(wd, f"s{i}.json")
            e = dict(env)
            e["LLVM_PROFILE_FILE"] = out + ".profraw"
            if self.prop == "C06":
                e["ZJV_DIGEST"] = out + ".digest"
            f = open(out + ".log", "w")
            procs.append((i, out, f, subprocess.Popen(
                command(binary, self.prop, self.seed, out, i, SHARDS, 0, n, self.deadline, self.tier == "thorough"),
                stdout=f, stderr=subprocess.STDOUT, env=e, preexec_fn=pre, cwd=wd)))
        done = 0
        # in the order in which they end; once a violation is confirmed the others may stop
        while procs:
            if self.viols:
                for q in procs:
                    q[3].kill()
                    q[3].wait()
                    q[2].close()
                break
            k = next((k for k, q in enumerate(procs) if q[3].poll() is not None), None)
            if k is None:
                time.sleep(0.05)
                continue
            i, out, f, p = procs.pop(k)
            rc = p.wait()
            f.close()
            text = open(out + ".log", errors="replace").read()[-20000:]
            sig = classify(rc, text)
            if sig is None:
                j = self.merge(out)
                done += (j["next"] - i) // SHARDS
                for v in j["viols"]:
                    self.violation(variant, v["idx"], v["sig"], v["msg"], v["file"], st["env"])
                continue
            if sig == "error":
                raise CheckError(f"shard {i} of {variant} ended with {rc}:\n{text[-3000:]}")
            idx = int.from_bytes(open(out + ".journal", "rb").read(8), "little")
            self.abnormal(binary, st, idx, sig, text, wd, pre)
        self.steps.append({"build": variant, "cases": done, "of": n, "wall_s": round(time.time() - t, 1)})
        return binary, wd, n

    def abnormal(self, binary, st, idx, sig, text, wd, pre):
        """a shard died or hung in case idx: run that case again on its own"""
        out = os.path.join(wd, f"again{idx}.json")
        seen = None
        for _ in range(2):
            with open(out + ".log", "w") as f:
                rc = subprocess.call(command(binary, self.prop, self.seed, out, 0, 1, idx, 1, self.deadline, self.tier == "thorough"),
                                     stdout=f, stderr=subprocess.STDOUT, env=env_for(st["variant"], st["env"]), preexec_fn=pre, cwd=wd)
            t2 = open(out + ".log", errors="replace").read()[-20000:]
            s2 = classify(rc, t2)
            if s2 not in (None, "error"):
                seen = s2
                break
            if rc == 1:
                seen = "oracle"
                break
        detail = re.sub(r"\s+", " ", text.strip())[:1500]
        if seen:
            self.violation(st["variant"], idx, seen, f"case {idx}: {sig}; again on its own: {seen}; {detail}", None, st["env"])
        elif sig == "hang" or sig == "signal SIGKILL" or sig == "signal SIGTERM":
            # a slow or starved machine, not the decoder
            log(f"case {idx}: {sig} not confirmed")
            self.notes[f"{sig} not confirmed"] = self.notes.get(f"{sig} not confirmed", 0) + 1
        else:
            self.violation(st["variant"], idx, sig, f"case {idx}: {sig} (not on its own: depends on history or schedule); {detail}", None, st["env"])

    # ------------------------------------------------------------ extra steps
    def portable(self, wd, n):
        """C06: the build without x86 code produces the same bytes"""
        binary = build("nox86")
        wn = os.path.join(WORK, self.prop, "nox86")
        shutil.rmtree(wn, ignore_errors=True)
        os.makedirs(wn)
        n = max(SHARDS, n // 4)
        t = time.time()
        ps = []
        for i in range(SHARDS):
            out = os.path.join(wn, f"s{i}.json")
            e = env_for("nox86", {"ZJV_DIGEST": out + ".digest"})
            ps.append((i, out, subprocess.Popen(command(binary, self.prop, self.seed, out, i, SHARDS, 0, n, self.deadline, self.tier == "thorough"),
                                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, preexec_fn=limits_rel, cwd=wn)))
        same = 0
        for i, out, p in ps:
            rc = p.wait()
            if rc not in (0, 1):
                sig = classify(rc, "")
                if sig == "error":
                    raise CheckError(f"nox86 shard {i} ended with {rc}")
                idx = int.from_bytes(open(out + ".journal", "rb").read(8), "little")
                self.abnormal(binary, {"variant": "nox86", "env": {}}, idx, sig, "", wn, limits_rel)
                continue
            def digests(p):
                try:
                    return dict(x.split() for x in open(p) if len(x.split()) == 2)
                except OSError:
                    return {}
            a = digests(os.path.join(wd, f"s{i}.json.digest"))
            b = digests(out + ".digest")
            for k in a.keys() & b.keys():
                if a[k] != b[k]:
                    self.violation("nox86", int(k), "portable-build", f"case {k}: the build without x86 code gives other pixels than the default build")
                    break
                same += 1
        self.notes["compared with portable build"] = same
        self.steps.append({"build": "nox86", "cases": same, "of": n, "wall_s": round(time.time() - t, 1)})

    def miri(self, count):
        """C02: recorded inputs decoded in the Miri interpreter, as CPUs of several generations"""
        binary = build("rel")
        wd = os.path.join(WORK, self.prop, "miri")
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        subprocess.run([binary, "record", str(self.seed), "0", str(count), wd], check=True, stdout=subprocess.DEVNULL)
        t = time.time()
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--release", "--features", "plain_alloc", "--", "play"]
        # half of the inputs on a CPU with AVX2; Miri refuses calls of functions
        # made for a feature the CPU lacks
        jobs, envs = [], {}
        for n, cpu in enumerate(("x86-64-v3", "x86-64-v2", "sandybridge", "core2", "x86-64")):
            env = dict(os.environ)
            env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "miri-" + cpu), CARGO_NET_OFFLINE="true",
                       RUSTFLAGS=f"{HOOKS} -Ctarget-cpu={cpu} -Awarnings",
                       MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows")
            env.pop("RUSTUP_TOOLCHAIN", None)
            envs[cpu] = env
            warm = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if warm.returncode != 0:
                log(f"Miri can not run here as {cpu}, its part is left out:\n" + warm.stdout[-1500:])
                self.notes[f"miri not available as {cpu}"] = 1
                continue
            of = lambda k: (k * 2654435761 >> 13) % 8
            mine = [k for k in range(count) if (of(k) < 4 if n == 0 else of(k) == 3 + n)]
            shards = 4 if n == 0 else 1
            for i in range(shards):
                if mine[i::shards]:
                    jobs.append((cpu, [os.path.join(wd, f"{k}.case") for k in mine[i::shards]]))
        ps = []
        for i, (cpu, files) in enumerate(jobs):
            f = open(os.path.join(wd, f"out{i}"), "w")
            ps.append((cpu, f.name, subprocess.Popen(["timeout", str(self.deadline * 2)] + cmd + files, cwd=HARNESS, env=envs[cpu], stdout=f, stderr=subprocess.STDOUT)))
        done = 0
        for cpu, name, p in ps:
            rc = p.wait()
            text = open(name, errors="replace").read()
            for m in re.finditer(r"^PLAYED (\S+) (\S+) (\S+)$", text, re.M):
                done += 1
                k = f"miri as {cpu}: {m.group(3)} {m.group(2)}"
                self.notes[k] = self.notes.get(k, 0) + 1
                self.evaluations += 1
                if m.group(2) == "ok":
                    h = hashlib.sha256(open(m.group(1), "rb").read()).digest()
                    self.hashes.add(int.from_bytes(h[:8], "little"))
            m = re.search(r"error: Undefined Behavior: ([^\n]+)", text)
            if rc != 0 and m:
                plays = re.findall(r"^PLAY (\S+)$", text, re.M)
                where = re.search(r"--> (\S+)", text[m.start():])
                f = plays[-1] if plays else None
                self.violation("miri", 0, "undefined behaviour", f"Miri, as {cpu}: {m.group(1)} at {where.group(1) if where else '?'}", f)
        self.steps.append({"build": "miri", "cases": done, "of": count, "wall_s": round(time.time() - t, 1)})

    def covered(self, binary, raws, tag):
        """places with unsafe code that ran, of those compiled, after runs that left these profiles"""
        merged = os.path.join(WORK, self.prop, tag + ".profdata")
        subprocess.run([llvm("llvm-profdata"), "merge", "-sparse"] + raws + ["-o", merged], check=True, stdout=subprocess.DEVNULL)
        p = subprocess.run([llvm("llvm-cov"), "export", "-format=text", "-skip-expansions", "-instr-profile=" + merged, binary, SRC],
                           check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        regions = {}
        for f in json.loads(p.stdout)["data"][0]["functions"]:
            for r in f["regions"]:
                if r[7] == 0:
                    regions.setdefault(f["filenames"][r[5]], []).append((f["name"], r[0], r[1], r[2], r[3], r[4]))
        ran, compiled = [], 0
        for path, line, col, what in unsafe_sites():
            inner = {}
            for name, l1, c1, l2, c2, n in regions.get(path, []):
                if (l1, c1) <= (line, col) < (l2, c2):
                    # the smallest region of a function around the place says how often it ran
                    size = (l2 - l1, c2 - c1 if l1 == l2 else c2)
                    if name not in inner or size < inner[name][0]:
                        inner[name] = (size, n)
            if inner:
                compiled += 1
                n = max(n for _, n in inner.values())
                if n:
                    ran.append((os.path.relpath(path, SRC), line, what, n))
        return ran, compiled

    def switch(self, binary):
        """C23: no unsafe code ran where it was turned off"""
        wd = os.path.join(WORK, self.prop, "cov")
        t = time.time()

        def run(binary, frm, count, tag, env):
            out = os.path.join(wd, tag + ".json")
            e = env_for("cov", dict(env, LLVM_PROFILE_FILE=out + ".profraw"))
            rc = subprocess.call(command(binary, self.prop, self.seed, out, frm[0], frm[1], frm[2], count, self.deadline, self.tier == "thorough"),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e, preexec_fn=limits_rel, cwd=wd)
            if rc != 0:
                raise CheckError(f"{tag}: ended with {rc}")
            return out + ".profraw"

        raws = [os.path.join(wd, f"s{i}.json.profraw") for i in range(SHARDS)]
        ran, compiled = self.covered(binary, raws, "off")
        self.notes["places with unsafe code"] = len(unsafe_sites())
        self.notes["places with unsafe code compiled"] = compiled
        self.notes["places run with unsafe code off"] = len(ran)
        if ran:
            say = "; ".join(f"{f}:{l} {w} {k} times" for f, l, w, k in ran[:4])
            # which case
            i = next(i for i in range(SHARDS) if self.covered(binary, [raws[i]], f"s{i}")[0])
            json_n = json.load(open(os.path.join(wd, f"s{i}.json")))["next"]
            lo, hi = 0, max(1, (json_n - i + SHARDS - 1) // SHARDS)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                raw = run(binary, (i, SHARDS, lo * SHARDS), (mid - lo - 1) * SHARDS + i + 1, "b", {})
                if self.covered(binary, [raw], "b")[0]:
                    hi = mid
                else:
                    lo = mid
            case = i + lo * SHARDS
            self.violation("cov", case, "unsafe-code", f"case {case}: with unsafe code turned off {len(ran)} of {compiled} places with it ran, e.g. {say}")
            return
        # the monitor sees what it is meant to see
        on, _ = self.covered(binary, [run(binary, (0, 1, 0), 600, "on", {"ZJV_UNSAFE": "1"})], "on")
        self.notes["places run with unsafe code on"] = len(on)
        # without x86 code there is none, whatever the options say
        port = build("covnox86")
        raw = run(port, (0, 1, 0), 1500, "port", {"ZJV_UNSAFE": "1"})
        ran, compiled = self.covered(port, [raw], "port")
        self.notes["places with unsafe code in the portable build"] = compiled
        if ran:
            say = "; ".join(f"{f}:{l} {w} {k} times" for f, l, w, k in ran[:4])
            self.violation("covnox86", 0, "unsafe-code", f"the build without x86 code ran unsafe code: {say}")
        self.steps.append({"build": "cov, on and portable", "cases": 2100, "of": 2100, "wall_s": round(time.time() - t, 1)})

    # ------------------------------------------------------------ outcome
    def finish(self):
        known = load_known(self.prop)
        new = []
        for path, rec in self.viols:
            hit = [k for k in known if k["sha256"] == rec.get("sha256") and k["signature"] == rec["signature"]]
            if hit:
                print(f"KNOWN-FINDING: property={self.prop} {hit[0]['text']}")
            else:
                new.append((path, rec))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.hashes), "rule": RULE[self.prop],
               "samples": self.samples[:8], "observed": self.notes, "steps": self.steps}
        if self.maxima:
            cov["maxima"] = self.maxima
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ASSUME["*"] + ASSUME.get(self.prop, []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, rec in new[:4]:
            print(f"  {rec['signature']}: {rec['message'][:600]}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        if not new:
            print(f"{self.prop} held: {self.evaluations} evaluations, {len(self.hashes)} distinct, {round(time.time()-self.t0,1)} s")
        return 1 if new else 0


def llvm(tool):
    root = subprocess.run(["rustc", "+stable", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    p = os.path.join(root, "lib", "rustlib", TARGET, "bin", tool)
    if not os.path.exists(p):
        raise CheckError(f"{tool} is not installed")
    return p


def unsafe_sites():
    """places in the source with a vector intrinsic or an unsafe block: (file, line, column, text)"""
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if not f.endswith(".rs") or f == "verif.rs":
                continue
            path = os.path.join(d, f)
            for n, l in enumerate(open(path, errors="replace"), 1):
                code = l.split("//")[0]
                if code.lstrip().startswith(("use ", "pub use ")):
                    continue
                for m in re.finditer(r"\b_mm\d*_\w+|\bunsafe\s*\{|\basm!", code):
                    out.append((path, n, m.start() + 1 if m.group().startswith("_mm") else m.end() + 1, m.group()))
    return out


def load_known(prop):
    """open findings: lines `open: property=<id> sha256=<hash> signature=<words> ; <what fails>`"""
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"open: property=(\S+) sha256=(\S+) signature=([^;]+?) ; (.*)", l)
            if m and m.group(1) == prop:
                out.append({"sha256": m.group(2), "signature": m.group(3), "text": m.group(4)})
    except OSError:
        pass
    return out


def check(prop, tier, seed):
    r = Run(prop, tier, seed)
    shutil.rmtree(os.path.join(WORK, prop), ignore_errors=True)
    for f in os.listdir(REPLAY) if os.path.isdir(REPLAY) else []:
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(REPLAY, f))
    first = None
    for st in PLAN[prop]:
        res = r.run_step(st)
        first = first or res
        if r.viols:
            break
    if not r.viols and prop == "C06":
        r.portable(first[1], first[2])
    if not r.viols and prop == "C23":
        r.switch(first[0])
    if not r.viols and prop == "C02":
        r.miri(int((128 if tier == "quick" else 6000) * r.scale))
    shutil.rmtree(os.path.join(WORK, prop), ignore_errors=True)
    return r.finish()


def replay(path):
    rec = json.load(open(path))
    if rec["variant"] == "miri":
        print("decode the recorded input in Miri:", rec.get("input"))
        return 0
    binary = build(rec["variant"])
    wd = os.path.join(WORK, "replay")
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, "r.json")
    rc = subprocess.call(command(binary, rec["property"], rec["seed"], out, 0, 1, rec["case"], 1, 600, False) + ["--print", "1"],
                         env=env_for(rec["variant"], rec["env"]), cwd=wd)
    print("ended with", rc)
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for v in ("rel",):
            build(v)
        print("built")
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = abs(int(os.environ.get("VERIF_SEED", "1") or 1))
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        log("CHECK ERROR:", e)
        rc = 2
    sys.exit(rc)
