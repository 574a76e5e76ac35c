"""Driving the REPL: what it answers to each line of a script."""
import codecs, os, re, select, subprocess, threading, time, zlib
from vlib import *

QUESTION = re.compile(r"([A-Za-z][\w']*): ")
REPLS = ["sP1", "sJ0", "nP0", "nJ1"]


def repl_path(cfg):
    return os.path.join(BUILD, "repl", cfg, "debug", "repl")


def build_repls():
    """The REPL itself, from the repository's manifest."""
    digest = tree_hash()
    out = {}

    def one(cfg):
        tool, feats = CONFIGS[cfg]
        feats = ["compile-time-optimizations" if f == "opt" else f for f in feats]
        target = os.path.join(BUILD, "repl", cfg)
        os.makedirs(target, exist_ok=True)
        stamp = os.path.join(target, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == digest and os.path.exists(repl_path(cfg)):
            return
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "xprs-*")):
            shutil.rmtree(d)
        p = subprocess.run(["cargo", "+" + tool, "build", "--offline", "--quiet", "--locked", "--bin", "repl",
                            "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--no-default-features",
                            "--features", ",".join(feats), "--target-dir", target, "-j", "4"],
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
        if p.returncode != 0:
            out[cfg] = p.stdout[-4000:]
            return
        with open(stamp, "w") as f:
            f.write(digest)

    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-repl"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ts = [threading.Thread(target=one, args=(c,)) for c in REPLS]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if out:
        c, e = next(iter(out.items()))
        raise ToolError(f"the REPL's build {c} failed:\n{e}")


PADS = [("", "")] * 4 + [(" ", ""), ("", " "), ("\t", ""), ("", "\t"), ("", "\r"), (" \t ", "  \r"), ("\u00a0", "\u3000")]


def rust(v, salt=""):
    """A number as one would type it, perhaps with blanks around it or another line end."""
    h = zlib.crc32(("%r %s" % (v, salt)).encode())
    a, b = PADS[h % len(PADS)]
    t = repr(v)
    if v == v and abs(v) != float("inf"):
        t = [t, t, t, "%.17e" % v, ("" if t[0] == "-" else "+") + t, ("%.17E" % v)][h // 97 % 6]
    return a + t + b


def answer_of(text):
    """What was written for a line, as a record."""
    m = re.search(r"(?:^|: )Evaluated: (\S+)$", text, re.M)
    i = re.search(r"^Interpreted as: (.*)$", text, re.M)
    if m and i:
        try:
            v = hexf(float(m.group(1)))
        except ValueError:
            v = "?" + m.group(1)
        vs = re.search(r"^Variables: \{(.*)\}$", text, re.M)
        names = re.findall(r'"([^"]*)"', vs.group(1)) if vs else ["?"]
        a = re.search(r"^Please enter the following variables:\n((?:[A-Za-z][\w']*: )*)Evaluated:", text, re.M)
        asked = re.findall(r"([A-Za-z][\w']*): ", a.group(1)) if a else []
        return {"k": "ok", "v": v, "vars": names, "asked": asked, "show": i.group(1)}
    e = re.search(r"^\s*[×x] (.*)$", text, re.M)
    if e and not i:
        return {"k": "err", "m": e.group(1).rstrip()}
    return {"k": "other", "text": text[-400:]}


ENV = dict(LANG="C.UTF-8", LC_ALL="C.UTF-8", NO_COLOR="1", TERM="dumb", PATH="/usr/bin:/bin")


def ending(code):
    return {"k": "bye", "code": code}


def interactive(cfg, script, limit=15.0):
    """Writes a line when the prompt has come; answers each question."""
    p = subprocess.Popen([repl_path(cfg)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    fd = p.stdout.fileno()
    state = {"buf": "", "last": 0, "open": True}
    decode = codecs.getincrementaldecoder("utf-8")("replace").decode

    def more(t):
        r, _, _ = select.select([fd], [], [], max(0, t))
        if not r:
            return False
        c = os.read(fd, 1 << 16)
        if not c:
            state["open"] = False
            state["last"] = 0
            return True
        state["last"] = len(c)
        state["buf"] += decode(c)
        return True

    def wait(env):
        """Until the prompt; the text before it, or None and the reason."""
        state["buf"] = ""
        answered = 0
        pos = None
        end = time.time() + limit
        while True:
            text = state["buf"]
            if text.endswith("\n>> ") or text == ">> ":
                return text[:-3], None
            if pos is None:
                q = re.search(r"^Please enter the following variables:\n", text, re.M)
                pos = q.end() if q else None
            m = QUESTION.match(text, pos) if pos is not None else None
            # a question waits for its answer: nothing follows it. (What looks
            # like the question for an unknown name may be the beginning of
            # something else.)
            if m and m.end() < len(text):
                m = None
            if m and m[1] not in env and more(min(1.0, end - time.time())):
                continue
            if m:
                if answered > 5000:
                    return text, "hang"
                try:
                    p.stdin.write((rust(env.get(m[1], 1.0), m[1]) + "\n").encode())
                    p.stdin.flush()
                except OSError:
                    return text, "crash"
                answered += 1
                pos = m.end()
                continue
            if not state["open"]:
                return text, "crash"
            if not more(end - time.time()):
                return text, "hang"

    obs = []
    text, bad = wait({})
    for n, e in enumerate(script):
        if bad:
            obs.append({"k": "skip"} if n else {"k": bad})
            continue
        if e["op"] == "line":
            try:
                p.stdin.write(e["text"].encode())
                p.stdin.flush()
            except OSError:
                obs.append({"k": "crash"})
                bad = "crash"
                continue
            text, bad = wait({k: unhex(v) for k, v in e["env"]})
            obs.append({"k": bad} if bad else answer_of(text))
        else:
            try:
                if e["how"] != "eof":
                    p.stdin.write(e["how"].encode())
                p.stdin.flush()
                if e["how"] == "eof" or not e["how"].endswith("\n"):
                    p.stdin.close()
            except OSError:
                pass
            obs.append(finish(p, more, state, limit))
    return done(p, obs)


def finish(p, more, state, limit):
    end = time.time() + limit
    size = 0
    while state["open"]:
        if not more(end - time.time()) or size > 10_000_000:
            return {"k": "hang"}
        size += state["last"]
    try:
        return ending(p.wait(max(0.1, end - time.time())))
    except subprocess.TimeoutExpired:
        return {"k": "hang"}


def done(p, obs):
    if p.poll() is None:
        p.kill()
    p.wait()
    p.stdout.close()
    try:
        p.stdin.close()
    except OSError:
        pass
    return obs


def unhex(v):
    return float("nan") if v == "nan" else struct.unpack(">d", bytes.fromhex(v))[0]


def batch(cfg, script, limit=15.0):
    """The whole input at once; each question of a line has the same answer."""
    data = ""
    for e in script:
        if e["op"] == "line":
            data += e["text"] + "".join(rust(unhex(v), "%s %d" % (e["text"], i)) + "\n" for i, (_, v) in enumerate(e["batch"][cfg[1]]))
        elif e["how"] != "eof":
            data += e["how"] + e.get("after", "")
    p = subprocess.Popen([repl_path(cfg)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    fd = p.stdout.fileno()
    state = {"raw": [], "last": 0, "open": True}

    def feed():
        try:
            p.stdin.write(data.encode())
            p.stdin.close()
        except OSError:
            pass

    threading.Thread(target=feed, daemon=True).start()

    def more(t):
        r, _, _ = select.select([fd], [], [], max(0, t))
        if not r:
            return False
        c = os.read(fd, 1 << 16)
        state["open"] = bool(c)
        state["last"] = len(c)
        state["raw"].append(c)
        return True

    fin = finish(p, more, state, limit)
    text = b"".join(state["raw"])[:4_000_000].decode("utf-8", "replace")
    parts = re.split(r"(?:^|(?<=\n))>> ", text)[1:]
    obs = []
    lines = [e for e in script if e["op"] == "line"]
    for n, e in enumerate(script):
        if e["op"] == "line":
            obs.append(answer_of(parts[n]) if n < len(parts) else {"k": "none"})
        else:
            # one prompt more than lines, and nothing answered after it
            if fin["k"] == "bye" and (len(parts) != len(lines) + 1 or answer_of(parts[-1])["k"] != "other"):
                fin = {"k": "many", "n": len(parts)}
            obs.append(fin)
    return done(p, obs)


def observe_repl(sessions, limit=15.0):
    """cfg -> observations, as vlib.observe does."""
    out = {c: [None] * len(sessions) for c in REPLS}
    jobs = [(c, i) for i in range(len(sessions)) for c in REPLS]
    lock = threading.Lock()
    errs = []
    hung = [0]

    def work():
        while True:
            with lock:
                if not jobs:
                    return
                c, i = jobs.pop(0)
            try:
                # once several dialogues have hung, the other ones aren't given as long
                if hung[0] > 24:
                    out[c][i] = ['{"k":"skip"}' for _ in sessions[i]["ev"]]
                    continue
                run = batch if sessions[i]["kind"] == "batch" else interactive
                obs = run(c, sessions[i]["ev"], 3.0 if hung[0] > 5 else limit)
                out[c][i] = [json.dumps(o) for o in obs]
                hung[0] += any(o["k"] in ("hang", "crash", "none") for o in obs)
            except Exception as e:  # noqa: BLE001
                errs.append(f"{c}: {e!r}")
                return

    ts = [threading.Thread(target=work) for _ in range(12)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise ToolError("driving the REPL: " + "; ".join(errs[:3]))
    return out
