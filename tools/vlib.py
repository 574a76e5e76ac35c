"""What the checks share: building the harness, driving the builds of the
crate, putting the observations together, and having TLC judge them."""
import fcntl, glob, hashlib, json, os, re, select, shutil, signal, struct
import subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
TLA = "/opt/veriftools/tla"
# name -> toolchain, features
CONFIGS = {
    f"{c}{m}{o}": (tool, [feat] + (["opt"] if o else []))
    for c, tool in (("s", STABLE), ("n", NIGHTLY))
    for m, feat in (("P", "pemdas"), ("J", "pejmdas"))
    for o in (0, 1)
}
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class ToolError(Exception):
    pass


# ------------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    files = ["Cargo.toml", "Cargo.lock", "build.rs"]
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.relpath(os.path.join(root, n), REPO) for n in sorted(names)]
    own = os.path.join(VERIF, "harness")
    paths = [os.path.join(REPO, f) for f in files]
    paths += sorted(glob.glob(own + "/src/**/*.rs", recursive=True)) + [own + "/Cargo.toml"]
    for p in paths:
        h.update(p.encode() + b"\0")
        if os.path.exists(p):
            with open(p, "rb") as f:
                h.update(f.read())
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", HOME=env.get("HOME", "/root"))
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    return env


def build_one(cfg, digest, out):
    tool, feats = CONFIGS[cfg]
    target = os.path.join(BUILD, "target", cfg)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "stamp")
    drive = os.path.join(target, "debug", "drive")
    try:
        if open(stamp).read() == digest and os.path.exists(drive):
            out[cfg] = None
            return
    except OSError:
        pass
    # file times don't tell whether the sources changed: forget the old build
    if os.path.exists(stamp):
        os.unlink(stamp)
    for pat in ("xprs-*", "harness-*"):
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", pat)):
            shutil.rmtree(d)
    cmd = ["cargo", "+" + tool, "build", "--offline", "--quiet", "--bins",
           "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--features", ",".join(feats), "--target-dir", target, "-j", "4"]
    p = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=os.path.join(VERIF, "harness"))
    if p.returncode != 0:
        out[cfg] = p.stdout[-4000:]
        return
    with open(stamp, "w") as f:
        f.write(digest)
    out[cfg] = None


def build_java():
    classes = os.path.join(BUILD, "java")
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    h = hashlib.sha256()
    for p in src:
        with open(p, "rb") as f:
            h.update(f.read())
    digest = h.hexdigest()
    stamp = os.path.join(classes, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == digest:
        return
    os.makedirs(classes, exist_ok=True)
    p = subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", classes, *src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("javac: " + p.stdout)
    with open(stamp, "w") as f:
        f.write(digest)


def build(configs=None):
    """Builds the harness with the crate, once per configuration."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = tree_hash()
        out = {}
        ts = [threading.Thread(target=build_one, args=(c, digest, out))
              for c in (configs or CONFIGS)]
        for t in ts:
            t.start()
        build_java()
        for t in ts:
            t.join()
        bad = {c: e for c, e in out.items() if e}
        if bad:
            c, e = next(iter(bad.items()))
            raise ToolError(f"the build {c} failed:\n{e}")


def drive_path(cfg):
    return os.path.join(BUILD, "target", cfg, "debug", "drive")


# -------------------------------------------------------------------- numbers
def hexf(x):
    if x != x:
        return "nan"
    return struct.pack(">d", x).hex()


# ----------------------------------------------------------------- operations
US = "\u001e"


def esc(s):
    return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r")


def pairs(ps):
    return US.join(x for p in ps for x in p)


def target(t):
    return t[0] + ":" + t[1]


def encode(e):
    """The fields of the harness's operation for an event."""
    op = e["op"]
    f = {
        "ctx": lambda: [e["c"]],
        "var": lambda: [target(e["t"]), e["via"], e["n"], e["v"]],
        "fn": lambda: [target(e["t"]), e["via"], e["f"]["n"], str(e["f"]["a"]), e["f"]["s"], e["how"]],
        "declare": lambda: [target(e["t"]), e["via"], US.join(e["names"])],
        "symbols": lambda: [target(e["t"])] + [
            US.join([y["key"], "v", y["v"]] if y["k"] == "var" else
                    [y["key"], "f", y["f"]["n"], str(y["f"]["a"]), y["f"]["s"], y.get("how", "static")])
            for y in e["syms"]],
        "cclone": lambda: [e["c"], target(e["from"])],
        "parser": lambda: [e["p"], e["c"]],
        "pclone": lambda: [e["p"], e["from"]],
        "get": lambda: [target(e["t"]), e["n"]],
        "ctxeq": lambda: [target(e["t"]), target(e["u"])],
        "getexp": lambda: [target(e["t"])],
        "parse": lambda: [e["p"], e["x"], e["text"], e["via"]],
        "reparse": lambda: [e["p"], e["x"], e["y"]],
        "eval": lambda: [e["x"], pairs(e["env"])],
        "probe": lambda: [e["x"], pairs(e["env"])],
        "show": lambda: [e["x"]],
        "simp": lambda: [e["x"], e["y"], e["how"], pairs(e["b"])],
        "simpself": lambda: [e["x"], e["how"], pairs(e["b"])],
        "simp4": lambda: [e["x"], e["y"], pairs(e["b"])],
        "clone": lambda: [e["x"], e["y"]],
        "eq": lambda: [e["x"], e["y"]],
        "bind": lambda: [e["x"], e["how"], US.join(e["names"])] + [US.join(c) for c in e["calls"]],
        "asfn": lambda: [e["x"], e["how"], target(e["t"]), e["n"], US.join(e["names"]), str(e["a"])],
        "par": lambda: [e["p"], str(e["threads"]), str(e["rounds"])] + [
            z for j in e["jobs"] for z in (j["text"], pairs(j["env"]), pairs(j["b"]))],
        "end": lambda: [],
    }[op]()
    return [op + ("*%d" % e["times"] if "times" in e else "")] + f


# -------------------------------------------------------------------- driving
# builds that took too long for all the sessions to be run
CUT = []


def drive(cfg, sessions, limit=20.0):
    """Runs the sessions with a build; the observations, one list per session.

    An operation that ends the process, or that takes longer than `limit`
    seconds, is observed as a crash or a hang; what follows in its session is
    skipped, and the next session is run by a new process."""
    obs = [[None] * len(s["ev"]) for s in sessions]
    first = 0
    ended = hangs = 0
    start = time.time()
    text = []
    for si, s in enumerate(sessions):
        text.append("".join("\t".join([str(si), str(ei)] + [esc(x) for x in encode(e)]) + "\n" for ei, e in enumerate(s["ev"])).encode())
    while first < len(sessions):
        # enough has been seen: the other sessions aren't given as long
        if hangs > 5:
            limit = 3.0
        late = time.time() - start > 300
        if hangs > 20 or ended > 200 or late:
            if late:
                CUT.append(cfg)
            for o in obs[first:]:
                o[:] = ['{"k":"skip"}' for _ in o]
            break
        p = subprocess.Popen([drive_path(cfg)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        data = b"".join(text[first:])

        def feed(stdin=p.stdin, data=data):
            try:
                stdin.write(data)
                stdin.close()
            except OSError:
                pass

        t = threading.Thread(target=feed, daemon=True)
        t.start()
        fd = p.stdout.fileno()
        buf = b""
        hung = False
        pos = (first, 0)
        while True:
            # (an operation that is repeated takes longer)
            often = sessions[pos[0]]["ev"][pos[1]].get("times", 0) if pos[0] < len(sessions) else 0
            ready, _, _ = select.select([fd], [], [], limit + often / 1000)
            if not ready:
                hung = True
                p.kill()
                break
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                break
            buf += chunk
            parts = buf.split(b"\n")
            buf = parts.pop()
            for line in parts:
                si, ei, r = line.decode().split("\t", 2)
                si, ei = int(si), int(ei)
                obs[si][ei] = r
                pos = (si, ei + 1) if ei + 1 < len(sessions[si]["ev"]) else (si + 1, 0)
            if time.time() - start > 300:
                p.kill()
                late = True
                break
        p.wait()
        p.stdout.close()
        if pos[0] >= len(sessions):
            break
        si, ei = pos
        ended += 1
        hangs += hung
        if late:
            obs[si][ei] = '{"k":"skip"}'
        elif hung:
            obs[si][ei] = '{"k":"hang"}'
        else:
            obs[si][ei] = '{"k":"crash","sig":%d}' % (-p.returncode if p.returncode < 0 else p.returncode)
        for k in range(ei + 1, len(sessions[si]["ev"])):
            obs[si][k] = '{"k":"skip"}'
        first = si + 1
    return obs


def observe(sessions, configs=None, limit=20.0):
    """The observations of all the builds: cfg -> observations."""
    out, errs = {}, []

    def one(c):
        try:
            out[c] = drive(c, sessions, limit)
        except Exception as e:  # noqa: BLE001
            errs.append(f"{c}: {e!r}")

    ts = [threading.Thread(target=one, args=(c,)) for c in (configs or CONFIGS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise ToolError("driving: " + "; ".join(errs))
    return out


def merge(sessions, obs):
    """Trace lines: every operation with the observations, grouped by build."""
    lines = []
    for si, s in enumerate(sessions):
        ev = []
        for ei, e in enumerate(s["ev"]):
            groups = {}
            for c in sorted(obs):
                groups.setdefault(obs[c][si][ei], []).append(c)
            o = ",".join('{"c":%s,"r":%s}' % (json.dumps(cs), r) for r, cs in groups.items())
            head = json.dumps({k: v for k, v in e.items() if k != "note"})
            ev.append(head[:-1] + ',"o":[' + o + "]}")
        lines.append('{"id":%s,"ev":[%s]}' % (json.dumps(s["id"]), ",".join(ev)))
    return lines


# ------------------------------------------------------------------------ TLC
def tlc(module, cfg, workdir, env=None, args=(), timeout=3600, heap="6g", workers="8", props=()):
    os.makedirs(workdir, exist_ok=True)
    meta = os.path.join(workdir, "meta-" + os.path.basename(module))
    if os.path.isdir(meta):
        shutil.rmtree(meta)
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + meta,
           "-Dprim.s=" + os.path.join(BUILD, "target", "sP0", "debug", "primd"),
           "-Dprim.n=" + os.path.join(BUILD, "target", "nP0", "debug", "primd"),
           "-DTLA-Library=" + SPEC, *props,
           "-cp", ":".join([os.path.join(BUILD, "java"), TLA + "/tla2tools.jar",
                            TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", workers, "-metadir", meta,
           "-config", cfg, *args, module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=e, timeout=timeout, cwd=workdir, errors="replace")
        out, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        code = -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return {"code": code, "out": out, "generated": gen, "distinct": dist, "wall": time.time() - t0}


def unquote(line):
    """The string that PrintT printed."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1]
    return line.replace('\\"', '"').replace("\\\\", "\\")


# System's parameters when numbers are doubles
IEEE = """CONSTANTS
  Lit <- F64Dec
  Const <- ConstF
  BinNum <- BinF
  NegNum <- F64Neg
  FactNum <- FactF
  LibNum <- LibF
  NatNum <- NatF
  FiniteNum <- F64Finite
  ZeroNum <- F64IsZero
  SameNum <- EqualF
  NanNum <- NaN64
  PanicNum <- NaN64
  MISS = "!miss"
  BOOM = "!boom"
"""
# ... and in the models
LITE = """CONSTANTS
  BinNum <- LBin
  NegNum <- LNeg
  FactNum <- LFact
  LibNum <- LLib
  NatNum <- LNat
  FiniteNum <- LFinite
  ZeroNum <- LZero
  SameNum <- LSame
  NanNum <- LNaN
  PanicNum <- LNaN
  MISS <- LMiss
  BOOM <- LBoom
"""


def judge(lines, workdir, module="Trace", timeout=3000, workers="8"):
    """TLC judges the trace: the rejections (session id, index, build, tags)."""
    os.makedirs(workdir, exist_ok=True)
    trace = os.path.join(workdir, "trace.ndjson")
    with open(trace, "w") as f:
        f.write("\n".join(lines) + "\n")
    cfg = os.path.join(workdir, "Trace.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + IEEE)
    r = tlc(os.path.join(SPEC, module + ".tla"), cfg, workdir, env={"TRACE": trace},
            timeout=timeout, workers=workers)
    n = sum(1 + len(json.loads(l)["ev"]) for l in lines)
    if r["code"] != 0 or r["distinct"] != n:
        tail = "\n".join(l for l in r["out"].splitlines() if not l.startswith("Loading"))[-6000:]
        raise ToolError(f"TLC (code {r['code']}, {r['distinct']} states of {n}):\n{tail}")
    rej = []
    for line in r["out"].splitlines():
        if line.startswith('"REJECT '):
            d = json.loads(unquote(line)[7:])
            for c, tags in d["bad"]:
                rej.append({"s": d["s"], "i": d["i"], "cfg": c, "tags": sorted(tags)})
    r["rejections"] = rej
    return r
