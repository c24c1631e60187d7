"""Monitors around the other artefacts: command line tool, Python module, sanitizer builds.

All of them compare what the real artefact did with what the library, asked by another process
(`mcmon serve`), says for the same formulas, or with what a sanitizer saw.
"""
import glob, hashlib, html, json, multiprocessing, os, random, re, select, shutil, signal, subprocess, sys, tempfile, time

import check
from check import NoAnswer, REPO, TARGET, VERIF, build_harness, env, lock, run

PYTHON = "/opt/vp/pyvenv/bin/python"
if not os.path.exists(PYTHON):
    PYTHON = "/usr/bin/python3"
FAST = dict(CARGO_PROFILE_RELEASE_LTO="false", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="16")


def build_repo(package):
    l = lock()
    try:
        run(["cargo", "build", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", package, "--locked", "--offline",
             "--release"], f"building {package}", cwd=os.path.join(VERIF, "harness"), env=env(PYO3_PYTHON=PYTHON, **FAST))
    finally:
        l.close()


def setup():
    build_repo("math-core-cli")
    build_repo("math-core-python")
    build_wasm()


def line(p, buf, patience):
    """The next line of the output of `p`, or nothing when it ended or says nothing for too long."""
    fd, end = p.stdout.fileno(), time.time() + patience
    while b"\n" not in buf:
        r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
        x = os.read(fd, 1 << 20) if r else b""
        if not x:
            return None
        buf += x
    i = buf.index(b"\n") + 1
    l = bytes(buf[:i])
    del buf[:i]
    return l


class Lib:
    """The library in another process."""

    def __init__(self, binary):
        self.p = subprocess.Popen([binary, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env())
        self.buf = bytearray()

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q).encode() + b"\n")
        self.p.stdin.flush()
        l = line(self.p, self.buf, 20)
        if not l:
            raise Gone()
        return json.loads(l)

    def new(self, cfg):
        return self.ask(op="new", cfg=cfg)

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass


class Gone(Exception):
    """The library process died: whatever it was, it is not this property."""


class W:
    """What a worker has: scratch space, the library, a pool of formulas, and what it saw."""

    def __init__(self, mcmon, seed):
        self.mcmon = mcmon
        self.dir = tempfile.mkdtemp(prefix="mcmon-")
        os.chmod(self.dir, 0o755)
        self.lib = Lib(mcmon)
        out = subprocess.run([mcmon, "pool", "--seed", str(seed), "--n", "4000"], stdout=subprocess.PIPE, env=env(), check=True).stdout
        self.pool = [json.loads(l) for l in out.decode().split("\n") if l.strip()]
        self.pool = [s for s in self.pool if "\0" not in s]
        self.evaluations, self.stats, self.keys, self.samples, self.violations = 0, {}, set(), [], []

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def key(self, *k):
        self.keys.add(hashlib.blake2b(repr(k).encode(), digest_size=8).digest())

    def viol(self, inp, what, **detail):
        self.stat("violations")
        if len(self.violations) < 12:
            self.violations.append(dict(input=inp, what=what, detail=detail, idx=self.idx, seed=self.seed))

    def relib(self):
        self.lib.close()
        self.lib = Lib(self.mcmon)

    def close(self):
        self.lib.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def worker(prop, case, mcmon, seed, shard, of, secs, prepare, q, only=None):
    try:
        w = W(mcmon, seed)
        w.seed, w.shard, w.ext = seed, shard if only is None else only, None
        try:
            w.ext = prepare(w) if prepare else None
            end = time.time() + secs
            i = shard if only is None else only
            while time.time() < end:
                w.idx = i
                rng = random.Random(f"{prop}/{seed}/{i}")
                try:
                    w.evaluations += 1
                    case(w, rng)
                except (Gone, BrokenPipeError):
                    w.stat("library process lost")
                    w.relib()
                except subprocess.TimeoutExpired:
                    w.stat("timed out")
                if only is not None:
                    break
                i += of
            q.put(dict(evaluations=w.evaluations, stats=w.stats, keys=w.keys, samples=w.samples, violations=w.violations))
        finally:
            if w.ext and hasattr(w.ext, "close"):
                w.ext.close()
            w.close()
    except Exception as e:
        import traceback
        q.put(dict(error=traceback.format_exc()))


def run_workers(prop, case, seed, secs, prepare=None, only=None):
    mcmon = build_harness(("release",))["release"]
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    n = 8 if only is None else 1
    ps = [ctx.Process(target=worker, args=(prop, case, mcmon, seed, i, n, secs, prepare, q, only)) for i in range(n)]
    for p in ps:
        p.start()
    tot = dict(evaluations=0, stats={}, samples=[], violations=[], violation_count=0)
    keys = set()
    errors = []
    for _ in ps:
        try:
            r = q.get(timeout=secs + 300)
        except Exception:
            errors.append("a worker gave no answer")
            continue
        if "error" in r:
            errors.append(r["error"])
            continue
        tot["evaluations"] += r["evaluations"]
        for k, v in r["stats"].items():
            tot["stats"][k] = tot["stats"].get(k, 0) + v
        tot["samples"] += r["samples"][:1]
        tot["violations"] += r["violations"]
        keys |= r["keys"]
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    tot["distinct"] = len(keys)
    tot["violation_count"] = tot["stats"].get("violations", 0)
    tot["notes"] = errors
    if errors and (len(errors) == len(ps) or not tot["violations"]):
        raise NoAnswer("a worker failed:\n" + errors[0][-3000:])
    if tot["evaluations"] == 0:
        raise NoAnswer("no case could be evaluated")
    return tot


# ---------------------------------------------------------------------------------------------
# The command line tool

def drop(cpu=60):
    """What the tool may do to its surroundings is up to an unprivileged user."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    os.setsid()
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except PermissionError:
        pass


def own(path):
    try:
        os.chown(path, 65534, 65534)
    except PermissionError:
        pass


class Cli:
    def __init__(self, w):
        self.exe = os.path.join(w.dir, "mathcore")
        shutil.copy(os.path.join(TARGET, "release", "mathcore"), self.exe)
        os.chmod(self.exe, 0o755)
        self.cwd = os.path.join(w.dir, "cwd")

    def fresh(self):
        shutil.rmtree(self.cwd, ignore_errors=True)
        os.mkdir(self.cwd)
        own(self.cwd)

    def put(self, path, data):
        p = os.path.join(self.cwd, path)
        d = os.path.dirname(p)
        mk = []
        while not os.path.isdir(d):
            mk.append(d)
            d = os.path.dirname(d)
        for d in reversed(mk):
            os.mkdir(d)
            own(d)
        with open(p, "wb") as f:
            f.write(data)
        own(p)

    def tree(self):
        t = {}
        for r, ds, fs in os.walk(self.cwd):
            for d in ds:
                t[os.path.relpath(os.path.join(r, d), self.cwd) + "/"] = None
            for f in fs:
                p = os.path.join(r, f)
                t[os.path.relpath(p, self.cwd)] = open(p, "rb").read()
        return t

    def run(self, args, stdin=b"", cpu=60):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.cwd, "LANG": "C.UTF-8"}
        p = subprocess.run([self.exe] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.cwd, env=e,
                           preexec_fn=lambda: drop(cpu), timeout=90)
        return p.returncode, p.stdout, p.stderr


def random_cfg(rng):
    """Options, as the library process and as a configuration file have them."""
    c, t = {}, []
    if rng.random() < 0.5:
        return c, ""
    p = rng.choice([0, 0, 1, 2])
    c["pretty"] = p
    if p or rng.random() < 0.3:
        t.append('pretty-print = "%s"' % ["never", "always", "auto"][p])
    for k, n in [("xmlns", "xml-namespace"), ("ignore_unknown", "ignore-unknown-commands"), ("annotation", "annotation"),
                 ("unreliable", "allow-unreliable-rendering"), ("global_group", "global-group")]:
        b = rng.random() < 0.35
        c[k] = b
        if b or rng.random() < 0.3:
            t.append(f"{n} = {'true' if b else 'false'}")
    if rng.random() < 0.3:
        c["subst_never"] = True
        t.append("unicode-substitution = 'never'")
    if rng.random() < 0.3:
        c["tab"] = True
        t.append("indentation = 'tab'")
    if rng.random() < 0.3:
        c["id_prefix"] = "p-"
        t.append("id-prefix = 'p-'")
    if rng.random() < 0.2:
        c["max_exp"] = 7
        t.append("max-expansions = 7")
    rng.shuffle(t)
    if rng.random() < 0.4:
        c["macros"] = [["qa", "\\frac{#1}{2}"], ["qb", "x\\qa{y}"]]
        t.append("[macros]\nqa = '\\frac{#1}{2}'\nqb = 'x\\qa{y}'")
    return c, "\n".join(t) + "\n"


DELIMS = [
    ("$", "$", "$$", "$$"), ("$", "$", "$$", "$$"), ("$", "$", "$$", "$$"), ("\\(", "\\)", "\\[", "\\]"), ("\\(", "\\)", "\\[", "\\]"),
    ("\\(", "\\)", "$$", "$$"), ("<m>", "</m>", "<M>", "</M>"), ("[", "]", "[[", "]]"), ("«", "»", "««", "»»"), ("{{", "}}", "{%", "%}"),
    ("<i>", "</x>", "<b>", "</x>"), ("#", "#", "##", "##"), ("§", "§", "§§§", "§§§"), ("%%", "%%", "%%%", "%%%"),
    ("<script type=\"math/tex\">", "</script>", "<script type=\"math/tex; mode=display\">", "</script>"),
]

TEXT = ["<p>", "</p>\n", " and ", "text ", "\n", "\r\n", "&amp;", "&lt;b&gt;", "naïve ", "數學 ", "\t", "<a href='x'>y</a>", "\\", "\\alpha ", "a_b^c ",
        "100% ", "{x} ", "#1 ", "]", "<!-- c -->", "\u2028", "😀", "e\u0301", "\ufeff", "&nbsp;", ".", "(1)", "\u00a0", "\\\\"]

STATE = ["\\begin{equation}x\\label{la}\\end{equation}", "\\begin{align}a&=b\\\\c&=d\\end{align}", "\\eqref{la}", "\\def\\w{v}\\w", "\\w",
         "\\global\\def\\u{z}\\u", "\\u", "\\newcommand\\t[1]{(#1)}\\t x", "\\t y", "\\qb", "\\qa{k}", "\\nosuch", "x_", "\\frac1", "a<b", "a>b&",
         "\\begin{matrix}a&b\\\\c&d\\end{matrix}", "\\text{\\$5 & more}", "'", "\"", "", " ", "\\alpha", "1", "\n x \n",
         "\\begin{matrix}a&thetasym;b&c<d\\end{matrix}", "\\begin{array}{cc}&amplitude;<&a\\\\&lt;&gt;>\\end{array}",
         "\\begin{matrix}&;&b<'&LT;<&ltx;>&l t;\\end{matrix}"]


def occurrences(s, delims, esc):
    """Where delimiters are, also those inside others."""
    o = set()
    for d in delims:
        i = s.find(d)
        while i >= 0:
            if not (esc and i > 0 and s[i - 1] == "\\"):
                o.add((i, d))
            i = s.find(d, i + 1)
    return o


def clean(left, mid, right, delims):
    """No delimiter (escaped or not) begins or ends inside `mid` or goes over an edge."""
    s = left + mid + right
    a, b = len(left), len(left) + len(mid)
    for d in set(delims):
        i = s.find(d)
        while i >= 0:
            if i + len(d) > a and i < b or (mid == "" and i < a < i + len(d)):
                return False
            i = s.find(d, i + 1)
    return True


def filler(rng):
    n = rng.choice([1024, 2048, 4096, 1024, 512]) + rng.randint(-12, 12)
    s = ("Lorem ipsum dolor. \n" * (n // 20 + 1))[:n]
    if rng.random() < 0.3:
        s = s[: n // 2] + "é" * 3 + s[n // 2 + 6:]
    return s


def text_piece(rng, left, right, delims, esc):
    for _ in range(40):
        t = "".join(rng.choice(TEXT) for _ in range(rng.randint(0, 6)))
        if rng.random() < 0.12:
            t += filler(rng)
        if esc and (t.endswith("\\") or t == "" and left.endswith("\\")):
            continue
        if clean(left, t, right, delims):
            return t
    return " "


def encode(rng, s):
    """HTML for a formula; reading it back gives the formula."""
    if ("&" not in s or ";" not in s) and rng.random() < 0.3:
        return s
    out = ""
    for ch in reversed(s):
        if ch == "&":
            # An ampersand may stand for itself where what follows is no known name
            name, semicolon, _ = out.partition(";")
            plain = not semicolon or "&" not in name and name not in KNOWN
            out = rng.choice(["&amp;", "&#38;"] + ["&"] * plain) + out
        else:
            out = rng.choice(ENTITIES.get(ch, [ch])) + out
    return out


ENTITIES = {"<": ["&lt;", "&#60;", "<"], ">": ["&gt;", "&#62;", ">"], '"': ["&quot;", "&#34;", '"', '"'], "'": ["&apos;", "&#39;", "'", "'"]}
KNOWN = ["quot", "amp", "apos", "lt", "gt", "#34", "#38", "#39", "#60", "#62"]


def formula_piece(w, rng, o, c, delims, esc):
    for _ in range(30):
        s = rng.choice(w.pool) if rng.random() < 0.55 else rng.choice(STATE)
        if rng.random() < 0.06:
            n = rng.choice([1024, 2048]) - rng.randint(0, 12)
            s = ("a+b=" * (n // 4 + 1))[:n] + "x"
        h = encode(rng, s)
        if esc and h.endswith("\\"):
            continue
        if h == "" and o == c:
            continue
        if clean(o, h, c, delims):
            return s, h
    return "x", "x"


def escaped(rng, delims):
    # `\\$$` is an escaped dollar before a dollar.
    l = [d for d in sorted(delims) if not any(x in d[1:] for x in delims)]
    return "\\" + rng.choice(l or ["x"])


def pos(s):
    """Line and column of the end of `s`."""
    return s.count("\n") + 1, len(s) - (s.rfind("\n") + 1) + 1


def ansi(s):
    return re.sub(r"\x1b\[[0-9;]*m", "", s)


def delim_args(rng, d):
    a = []
    if d[:2] != ("$", "$") or rng.random() < 0.3:
        if d[0] == d[1] and rng.random() < 0.7:
            a += [f"--inline-del={d[0]}"]
        else:
            a += [f"--inline-open={d[0]}", f"--inline-close={d[1]}"]
    if d[2:] != ("$$", "$$") or rng.random() < 0.3:
        if d[2] == d[3] and rng.random() < 0.7:
            a += [f"--block-del={d[2]}"]
        else:
            a += [f"--block-open={d[2]}", f"--block-close={d[3]}"]
    return a


class Doc:
    """A document with what the tool has to make of it."""

    def __init__(self, w, rng, d, esc, cont, state=True, fault=None, convert=None):
        self.src, self.out = "", ""
        self.formulas, self.failed = 0, None
        delims = set(d)
        n = rng.randint(0, 7)
        convert = convert or (lambda s, b: w.lib.ask(op="g", s=s, b=b, source="<input>"))
        last = ""
        for i in range(n):
            block = rng.random() < 0.4
            o, c = d[2:] if block else d[:2]
            esc_texts = ""
            t = text_piece(rng, last, "", delims, esc)
            if esc and rng.random() < 0.4:
                x = escaped(rng, delims)
                # Only those which are not ambiguous with what is around.
                if t and not t.endswith("\\") and clean(last, t, "\\", delims):
                    esc_texts = x + " . "
            full = t + esc_texts
            if not clean(last, t, "", delims) or not full.endswith(" . ") and not clean(last, full, o, delims):
                full = last and " - " or full
                if not clean(last, full, o, delims):
                    continue
            s, h = formula_piece(w, rng, o, c, delims, esc)
            if esc and o == "$" and rng.random() < 0.3:
                s = h = rng.choice(["\\text{\\$5}", "x\\$", "\\$", "\\text{\\$\\$ a}+\\$ 1", "\\text{" + "x" * 1000 + "\\$" * 20 + "}"])
            if esc and rng.random() < 0.3:
                # An escaped delimiter right before one which is not.
                x = "\\" + rng.choice(sorted(delims))
                if min(occurrences(x + o, delims, True))[0] == len(x) and clean(last, full, "\\", delims):
                    full += x
            # Delimiters next to each other are not told apart.
            if last and full == "":
                full = " "
                if not clean(last, full, o, delims):
                    continue
            a = convert(s, block)
            if "panic" in a:
                raise Gone()
            self.src += full
            self.out += full
            start = self.src
            self.src += o + h + c
            self.formulas += 1
            w.stat("formulas")
            if "ok" in a:
                self.out += a["ok"]
            elif cont:
                w.stat("failing formulas")
                self.out += a["html"]
            else:
                w.stat("failing formulas")
                self.failed = ("latex", a)
                self.src += text_piece(rng, c, "", delims, esc)
                return
            last = c
        t = text_piece(rng, last, "", delims, esc) if n else rng.choice(["", "x", "text\n", "<html></html>"])
        if last and t == "":
            t = " "
        if not clean(last, t, "", delims):
            t = " "
        if not clean(last, t, "", delims):
            return
        self.src += t
        self.out += t
        if esc and self.src.endswith("\\"):
            self.src += " "
            self.out += " "
        if fault:
            self.fault(w, rng, d, esc, fault)

    def fault(self, w, rng, d, esc, fault):
        delims = set(d)
        block = rng.random() < 0.5
        o, c = d[2:] if block else d[:2]
        if not clean("", "q", o, delims):
            return
        self.src += " . "
        self.out += " . "
        at = self.src
        f = "x+\n1 "
        if fault == "unclosed":
            self.src += o + f
            if rng.random() < 0.5:
                # Not even much later
                self.src += filler(rng)
            self.failed = ("unclosed", [pos(at)])
        elif fault == "mismatched":
            if d[1] == d[3]:
                return
            oc = d[1] if block else d[3]
            # The other delimiter closes.
            self.src += o + f
            b = self.src
            self.src += oc + " . "
            if occurrences(oc, {c}, False) & {(0, c)} and len(c) >= len(oc):
                return
            self.failed = ("mismatched", [pos(at), pos(b)])
        else:
            oo = rng.choice([d[0], d[2]])
            if oo in (d[1], d[3]) or o in (d[1], d[3]) or any(x in oo for x in (d[1], d[3])):
                return
            self.src += o + f
            b = self.src
            self.src += oo + f + c + " . "
            self.failed = ("nested", [pos(b)])


def said(err, failed):
    """Does the message say where it is?"""
    kind, p = failed
    if kind == "latex":
        return ansi(p["report"]).strip() in ansi(err)
    want = [x for lc in p for x in lc]
    nums = [int(x) for x in re.findall(r"\d+", ansi(err))]
    return all(x in nums for x in want)


def cli_case(w, rng):
    cli = w.ext
    cli.fresh()
    cfg, toml = random_cfg(rng)
    args = []
    if toml:
        name = rng.choice(["mathcore.toml", "mathcore.toml", "other.toml"])
        cli.put(name, toml.encode())
        if name != "mathcore.toml":
            args += rng.choice([["-c", name], ["--config-file", name]])
    r = w.lib.new(cfg)
    if "ok" not in r:
        raise NoAnswer("configuration rejected: " + json.dumps(r))
    if rng.random() < 0.2:
        return formula_case(w, rng, cli, args)
    if rng.random() < 0.01:
        return empty_case(w, rng, cli)
    d = rng.choice(DELIMS)
    esc = rng.random() < 0.35 and not any(x.endswith("\\") for x in d)
    cont = rng.random() < 0.5
    fault = rng.choice(["unclosed", "mismatched", "nested"]) if rng.random() < 0.25 else None
    doc = Doc(w, rng, d, esc, cont, fault=fault)
    args += delim_args(rng, d) + (["--ignore-escaped-delim"] if esc else []) + (["--continue-on-error"] if cont else [])
    src = doc.src.encode()
    mode = rng.choice(["stdout", "stdin", "write", "recursive"])
    if mode == "stdin":
        rc, out, err = cli.run(args + ["-"], src)
        want = (doc.out + "\n").encode()
    else:
        name = rng.choice(["doc.html", "doc.html", "doc.txt", "päge.html"]) if mode != "recursive" else "doc.html"
        cli.put(name, src)
        args += {"stdout": [], "write": [rng.choice(["-w", "--write"])], "recursive": [rng.choice(["-r", "--recursive"])]}[mode]
        args.append(name)
        rc, out, err = cli.run(args)
        want = doc.out.encode()
    err = err.decode(errors="replace")
    info = dict(args=args, document=doc.src, config=toml, mode=mode)
    w.stat("mode " + mode)
    if rc < 0 or rc == 101:
        return w.viol(doc.src, "the tool crashed", status=rc, stderr=err[-600:], **info)
    if doc.formulas or doc.failed:
        w.key(args, doc.src, toml)
    after = open(os.path.join(cli.cwd, name), "rb").read() if mode != "stdin" else None
    if doc.failed:
        w.stat("reported: " + doc.failed[0])
        if rc != 2:
            w.viol(doc.src, "error not reported by the status", status=rc, expected=doc.failed[0], stdout=out.decode(errors="replace")[:2000], **info)
        elif out:
            w.viol(doc.src, "output although it failed", stdout=out.decode(errors="replace")[:2000], **info)
        elif after is not None and after != src:
            w.viol(doc.src, "file changed although it failed", file=after.decode(errors="replace")[:2000], **info)
        elif not said(err, doc.failed):
            w.viol(doc.src, "message without the place of the error", stderr=ansi(err)[-1500:], expected=doc.failed, **info)
        return
    got = out if mode in ("stdin", "stdout") else after
    if rc != 0:
        w.viol(doc.src, "correct document rejected", status=rc, stderr=ansi(err)[-1000:], **info)
    elif got != want:
        w.viol(doc.src, "wrong document", got=got.decode(errors="replace")[:6000], expected=want.decode()[:6000], **info)
    elif mode in ("write", "recursive") and out:
        w.viol(doc.src, "writes the document to the output as well", stdout=out.decode(errors="replace")[:500], **info)
    elif mode == "stdout" and after != src:
        w.viol(doc.src, "file changed without being asked to", **info)
    if len(w.samples) < 2 and doc.formulas > 1:
        w.samples.append(dict(args=args, document=doc.src[:600], output=doc.out[:600]))


def empty_case(w, rng, cli):
    args = rng.choice([["--inline-del="], ["--block-del="], ["--inline-open=", "--inline-close=x"], ["--inline-open=x", "--inline-close="],
                       ["--block-open=", "--block-close="]])
    cli.put("doc.html", b"a $x$ b")
    w.stat("empty delimiters")
    rc, out, err = cli.run(args + ["doc.html"], cpu=5)
    if rc <= 0 or out:
        w.viol(" ".join(args), "empty delimiter", status=rc, stdout=out[:300].decode(errors="replace"))


def formula_case(w, rng, cli, args):
    s = rng.choice(w.pool) if rng.random() < 0.6 else rng.choice(STATE)
    mode = rng.choice([[], ["-i"], ["-b"], ["--inline"], ["--block"]])
    block = mode in (["-b"], ["--block"])
    args = args + mode
    if rng.random() < 0.6:
        args = args + [f"--formula={s}"]
        rc, out, err = cli.run(args)
    else:
        rc, out, err = cli.run(args, s.encode())
    a = w.lib.ask(op="g", s=s, b=block, source="<input>")
    if "panic" in a:
        raise Gone()
    w.stat("single formulas")
    w.key("f", args, s)
    err = err.decode(errors="replace")
    if "ok" in a:
        if rc != 0 or out != (a["ok"] + "\n").encode():
            w.viol(s, "wrong conversion of a single formula", status=rc, stdout=out.decode(errors="replace")[:2000], stderr=ansi(err)[:800], expected=a["ok"], args=args)
    elif rc != 2 or out or not said(err, ("latex", a)):
        w.viol(s, "error of a single formula", status=rc, stdout=out.decode(errors="replace")[:1000], stderr=ansi(err)[:1500], expected=ansi(a["report"]), args=args)


STATELESS = re.compile(r"label|tag|equation|align|gather|multline|split|def|command|let|global|ref|\\\\[utw](?![a-z])|expand")


def tree_case(w, rng):
    """C19: a directory tree, before and after."""
    cli = w.ext
    cli.fresh()
    cfg, toml = random_cfg(rng)
    args, bad = [], None
    x = rng.random()
    if x < 0.08:
        bad, what = 3, "missing configuration"
        args += ["-c", "missing.toml"]
    elif x < 0.16:
        bad, what = 4, "broken configuration"
        b = rng.choice(["pretty-print = 1\n", "nonsense", "max-expansions = -1\n", "[macros]\na = 3\n", "pretty-print = \"x\"\n", "a = b = c\n"])
        cli.put("mathcore.toml", b.encode())
    elif x < 0.22:
        bad, what = 2, "broken definition"
        cli.put("mathcore.toml", rng.choice([b"[macros]\nb = '\\nosuchthing'\n", b"[macros]\nb = '#x'\n"]))
    elif toml:
        n = rng.choice(["mathcore.toml", "conf/x.toml"])
        cli.put(n, toml.encode())
        if n != "mathcore.toml":
            args += ["-c", n]
    if bad is None and "ok" not in w.lib.new(cfg):
        raise NoAnswer("configuration rejected")
    cont = rng.random() < 0.4
    d = ("$", "$", "$$", "$$") if rng.random() < 0.7 else DELIMS[3]
    args += delim_args(rng, d) + (["--continue-on-error"] if cont else [])
    pool, w.pool = w.pool, w.stateless
    global STATE
    state, STATE = STATE, ["a<b", "x^2", "\\frac12", "\\qb", "'", "\\text{a & b}", "\\begin{matrix}a&b\\\\c&d\\end{matrix}"]
    files = {}
    try:
        dirs = ["site", "site/a", "site/a/b.html", "site/.hidden", "other", "site/ü"]
        names = ["index.html", "x.html", "y z.html", "é.html", "page.htm", "PAGE.HTML", "notes.txt", "x.html.bak", ".html", "html", "a.b.html", "x.xhtml"]
        for _ in range(rng.randint(1, 9)):
            path = rng.choice(dirs) + "/" + rng.choice(names)
            k = rng.random()
            if k < 0.06:
                src, out, fail = b"caf\xe9 $x$ \xff", None, 1
            else:
                fault = rng.choice(["unclosed", "mismatched", "nested"]) if k < 0.12 else None
                # Most trees should not fail.
                for _ in range(20):
                    doc = Doc(w, rng, d, False, cont, fault=fault,
                              convert=lambda s, b: w.lib.ask(op="l", s=s, b=b, source="<input>") if bad is None else {"ok": ""})
                    if fault or not doc.failed or k < 0.2:
                        break
                src, out, fail = doc.src.encode(), doc.out.encode(), (2 if doc.failed else 0)
            files[path] = (src, out, fail)
    finally:
        w.pool, STATE = pool, state
    for pth, (src, _, _) in files.items():
        cli.put(pth, src)
    if rng.random() < 0.3:
        cli.put("site/mathcore.toml", b"pretty-print = 'always'\nxml-namespace = true\n")
    locked = None
    if w.unprivileged and rng.random() < 0.15:
        locked = rng.choice(sorted(files))
    mode = rng.choice(["-r", "-r", "-r", "-r dry", "file", "-w", "dry", "-w dry", "-r file"])
    htmls = [f for f in files if f.endswith(".html") and not f.endswith("/.html")]
    one = rng.choice(sorted(files))
    dry = "dry" in mode
    sel = []
    if mode.startswith("-r") and mode != "-r file":
        top = rng.choice(["site", "site/a", ".", "other", "site/"])
        top = top if os.path.isdir(os.path.join(cli.cwd, top)) else "."
        pre = "" if top == "." else top.rstrip("/") + "/"
        sel = [f for f in htmls if f.startswith(pre)]
        cmd = args + ["-r"] + (["--dry-run"] if dry else []) + [top]
    elif mode == "-r file":
        sel = [one] if one in htmls else []
        cmd = args + ["-r", one]
    else:
        sel = [one]
        cmd = args + (["-w"] if "-w" in mode else []) + (["--dry-run"] if dry else []) + [one]
    before = cli.tree()
    kind = None
    if locked:
        kind = rng.choice([0o000, 0o444])
        os.chmod(os.path.join(cli.cwd, locked), kind)
    rc, out, err = cli.run(cmd)
    if locked:
        os.chmod(os.path.join(cli.cwd, locked), 0o644)
    after = cli.tree()
    err = err.decode(errors="replace")
    writes = mode in ("-r", "-w", "-r file")
    key = json.dumps([cmd, toml, sorted((k, v[0].decode(errors="replace")) for k, v in files.items())])
    info = dict(command=cmd, config=toml, files={k: v[0].decode(errors="replace") for k, v in files.items()}, status=rc,
                stdout=out.decode(errors="replace")[:1500], stderr=ansi(err)[:1500], locked=locked and [locked, oct(kind)])
    w.stat("mode " + mode)
    if rc < 0 or rc == 101:
        return w.viol(key, "the tool crashed", **info)
    if sorted(before) != sorted(after):
        return w.viol(key, "files or directories appeared or vanished", got=sorted(set(after) ^ set(before)), **info)
    # Files nobody asked for.
    for f in before:
        if before[f] != after[f] and (f not in sel or not writes or bad):
            return w.viol(key, "a file changed which should not", file=f, **info)
    w.stat("files", len(files))
    if bad:
        w.stat(what)
        w.key(key)
        if rc != bad:
            w.viol(key, "status of a " + what, expected=bad, **info)
        elif out:
            w.viol(key, "output in spite of a " + what, **info)
        return
    status = {f: files[f][2] for f in sel}
    if locked in sel:
        if kind == 0:
            status[locked] = 1
        elif not status[locked] and writes and files[locked][0] != files[locked][1]:
            status[locked] = 1
    fails = {s for s in status.values() if s}
    if sel:
        w.key(key)
    if not fails:
        w.stat("successful runs")
        if rc != 0:
            return w.viol(key, "fails although all files are fine", **info)
        for f in sel:
            want = files[f][1] if writes else files[f][0]
            if after[f] != want:
                return w.viol(key, "a file was not converted as it should", file=f, got=after[f].decode(errors="replace")[:3000], expected=want.decode()[:3000], **info)
            w.stat("files converted", writes and files[f][0] != files[f][1])
        if mode == "file":
            if out != files[one][1]:
                w.viol(key, "wrong output", expected=files[one][1].decode()[:3000], **info)
        elif out:
            w.viol(key, "output which was not asked for", **info)
    else:
        w.stat("failing runs")
        if rc not in fails:
            return w.viol(key, "wrong status", expected=sorted(fails), **info)
        for f in sel:
            ok = [files[f][0]] + ([files[f][1]] if not status[f] and writes else [])
            if after[f] not in ok:
                return w.viol(key, "a failing run damaged a file", file=f, got=after[f].decode(errors="replace")[:3000], **info)
        if out:
            w.viol(key, "output although it failed", **info)
        elif rc == 2 and not any(os.path.basename(f) in err for f in status if status[f] == 2):
            w.viol(key, "message does not name the file", **info)
    if len(w.samples) < 2 and len(sel) > 1:
        w.samples.append(dict(command=cmd, selected=sel, status=rc))


class TreeCli(Cli):
    def __init__(self, w):
        super().__init__(w)
        w.stateless = [s for s in w.pool if not STATELESS.search(s)]
        self.fresh()
        p = subprocess.run(["/usr/bin/id", "-u"], stdout=subprocess.PIPE, preexec_fn=drop)
        w.unprivileged = p.stdout.strip() == b"65534"


def c19(tier, seed, only=None):
    build_repo("math-core-cli")
    return run_workers("C19", tree_case, seed, secs(tier), TreeCli, only)


def c18(tier, seed, only=None):
    build_repo("math-core-cli")
    return run_workers("C18", cli_case, seed, secs(tier), Cli, only)


# ---------------------------------------------------------------------------------------------
# The Python module

class Py:
    """An interpreter with the extension."""

    def __init__(self, w):
        self.w = w
        pkg = os.path.join(w.dir, "lib", "math_core")
        os.makedirs(pkg, exist_ok=True)
        shutil.copy(os.path.join(TARGET, "release", "libmath_core_python.so"), os.path.join(pkg, "_math_core_rust.abi3.so"))
        shutil.copy(os.path.join(REPO, "python", "math_core", "__init__.py"), pkg)
        self.p = None
        self.start()

    def start(self):
        self.stop()
        e = {"PATH": "/usr/bin:/bin", "HOME": self.w.dir, "LANG": "C.UTF-8", "PYTHONPATH": os.path.join(self.w.dir, "lib"), "PYTHONDONTWRITEBYTECODE": "1"}
        self.log = open(os.path.join(self.w.dir, "py.err"), "wb")
        self.p = subprocess.Popen([PYTHON, "-s", os.path.join(VERIF, "drivers", "pychild.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.log, cwd=self.w.dir, env=e)
        self.buf = bytearray()

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.log.close()
            try:
                self.p.stdin.close()
            except BrokenPipeError:
                pass

    close = stop

    def ask(self, **q):
        try:
            self.p.stdin.write(json.dumps(q).encode() + b"\n")
            self.p.stdin.flush()
            l = line(self.p, self.buf, 60)
        except BrokenPipeError:
            l = None
        if not l:
            if self.p.poll() is None:
                time.sleep(0.2)
            if self.p.poll() is None:
                # Much too slow, which nothing is said about here
                self.start()
                raise Gone()
            rc = self.p.wait()
            self.start()
            return {"died": rc, "stderr": open(os.path.join(self.w.dir, "py.err")).read()[-600:]}
        return json.loads(l)


def python_cfg(rng):
    """Options for the library process, and as keyword arguments."""
    c, o = {}, {}
    p = rng.choice([0, 0, 1, 2])
    if p or rng.random() < 0.3:
        c["pretty"], o["pretty_print"] = p, ["never", "always", "auto"][p]
    for k, n in [("xmlns", "xml_namespace"), ("ignore_unknown", "ignore_unknown_commands"), ("annotation", "annotation"),
                 ("unreliable", "allow_unreliable_rendering"), ("global_group", "global_group")]:
        b = rng.random() < 0.35
        if b or rng.random() < 0.3:
            c[k], o[n] = b, b
    if rng.random() < 0.3:
        c["subst_never"] = rng.random() < 0.6
        o["unicode_substitution"] = "never" if c["subst_never"] else "conventional"
    if rng.random() < 0.3:
        c["id_prefix"] = o["id_prefix"] = rng.choice(["p-", "", "é", "sec2:"])
    if rng.random() < 0.3:
        c["max_exp"] = o["max_expansions"] = rng.choice([0, 1, 2, 7, 1000, 999, 3000])
    if rng.random() < 0.5:
        m = [["qa", "\\frac{#1}{2}"], ["qb", "x\\qa{y}"], ["R", "\\mathbb{R}"], ["long", "#1+#2=\\qa{#2}"], ["w", "v"], ["ü", "y"], ["", "x"], ["a b", "x"]]
        m = rng.sample(m[:5], rng.randint(0, 4)) + (rng.sample(m, 1) if rng.random() < 0.2 else [])
        if rng.random() < 0.2:
            m.insert(rng.randint(0, len(m)), rng.choice([["bad", "\\nosuchthing #1"], ["bad", "a+#x"], ["bad", "é \\nosuch"], ["bad", "{#1"], ["bad", "\\begin{x"]]))
        d = dict((k, v) for k, v in m)
        c["macros"], o["macros"] = [[k, v] for k, v in d.items()], d
        if not d and rng.random() < 0.5:
            o["macros"] = None
    return c, o


INVALID = [
    ({"pretty_print": "Always"}, "ValueError"), ({"pretty_print": ""}, "ValueError"), ({"pretty_print": "nope"}, "ValueError"),
    ({"unicode_substitution": "always"}, "ValueError"), ({"unicode_substitution": ""}, "ValueError"), ({"pretty_print": None}, None),
    ({"pretty_print": 1}, None), ({"max_expansions": -1}, None), ({"max_expansions": 1 << 32}, None), ({"max_expansions": "7"}, None),
    ({"macros": {"a": 1}}, None), ({"macros": ["a"]}, None), ({"macros": "a"}, None), ({"id_prefix": 3}, None), ({"nosuchoption": True}, None),
    ({"xml_namespace": "yes"}, None), ({"annotation": None}, None), ({"id_prefix": None}, None), ({"continue_on_error": "x"}, None),
    ({"indentation": 2}, None),
]


def expect(a, cont, fancy, prefix=""):
    if "ok" in a:
        return {"ok": a["ok"]}
    if cont:
        return {"ok": a["html"]}
    return {"latex": "\n" + a["report"] if fancy else prefix + a["message"], "sub": True, "n": 1}


def py_formula(w, rng):
    f = rng.choice(w.pool) if rng.random() < 0.45 else rng.choice(STATE + ["\\eqref{lb}", "\\begin{align*}x\\label{lb}\\tag{7}\\end{align*}", "\\R", "\\w"])
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2, 5])):
        # characters of all lengths, before and after what is wrong with the formula
        i = rng.choice([0, 0, rng.randint(0, len(f))])
        f = f[:i] + rng.choice(["\U0001d538", "\U0001f600", "é", "∑", "a\u0301", "\n", "\r\n", "\u2028", "\\nosuch", "{", "\U0001d538\\nosuch "]) + f[i:]
    return f


def py_ops(w, rng, n, local=False):
    ops = []
    for _ in range(n):
        x = rng.random()
        if local:
            x = 0.4 + x * 0.55
        if x < 0.45 and not local:
            ops.append(["g", py_formula(w, rng), rng.random() < 0.5])
        elif x < 0.7:
            ops.append(["l", py_formula(w, rng), rng.random() < 0.5])
        elif x < 0.95 or local:
            ops.append(["all", [[py_formula(w, rng), rng.random() < 0.5] for _ in range(rng.choice([0, 1, 2, 3, 5, 11]))]])
        else:
            ops.append(["reset"])
    return ops


def py_want(lib, o, cont, fancy):
    if o[0] in ("g", "l"):
        a = lib.ask(op=o[0], s=o[1], b=o[2], source="input")
        if "panic" in a:
            raise Gone()
        return expect(a, cont, fancy)
    if o[0] == "reset":
        lib.ask(op="reset")
        return {"none": True}
    a = lib.ask(op="all", v=o[1])
    if isinstance(a, dict):
        raise Gone()
    r = [expect(x, cont, fancy, f"input{i}:") for i, x in enumerate(a)]
    for x in r:
        if "latex" in x:
            return x
    return {"list": [x["ok"] for x in r]}


def py_case(w, rng):
    py = w.ext
    py.ask(op="drop")
    x = rng.random()
    if x < 0.06:
        o, kind = rng.choice(INVALID)
        opts = dict(python_cfg(rng)[1])
        opts.update(o)
        a = py.ask(op="new", k=0, opts=opts)
        w.stat("invalid options")
        w.key("invalid", json.dumps(o))
        if "died" in a or "raise" not in a or kind and kind not in a["mro"] or "PanicException" in a["mro"]:
            w.viol(json.dumps(opts), "invalid option", got=a)
        return
    cont, fancy = rng.random() < 0.4, rng.random() < 0.5
    cfg, opts = python_cfg(rng)
    if cont or rng.random() < 0.3:
        opts["continue_on_error"] = cont
    if not fancy or rng.random() < 0.3:
        opts["fancy_error"] = fancy
    a = py.ask(op="new", k=0, opts=opts)
    b = w.lib.new(cfg)
    if "panic" in b:
        raise Gone()
    info = dict(options=opts)
    if "ok" not in b:
        w.stat("rejected definitions")
        w.key("bad", json.dumps(opts))
        want = expect(b, False, fancy, f"macro{b['index']}:")
        if a != want:
            w.viol(json.dumps(opts), "error of a definition", got=a, expected=want, **info)
        return
    if a != {"none": True}:
        return w.viol(json.dumps(opts), "no converter", got=a, **info)
    if x < 0.25:
        return py_threads(w, rng, py, cfg, opts, cont, fancy)
    # A second converter must not matter.
    other = None
    if rng.random() < 0.3:
        other = python_cfg(rng)[1]
        py.ask(op="new", k=1, opts=other)
        other = other if py.ask(op="new", k=1, opts=other) == {"none": True} else None
    log = []
    for o in py_ops(w, rng, rng.choice([1, 2, 3, 5, 9])):
        if other is not None and rng.random() < 0.4:
            py.ask(op="do", k=1, o=py_ops(w, rng, 1)[0])
        log.append(o)
        want = py_want(w.lib, o, cont, fancy)
        got = py.ask(op="do", k=0, o=o)
        w.stat("calls " + o[0])
        w.stat("errors", "latex" in want)
        if want != got:
            return w.viol(json.dumps([opts, log], ensure_ascii=False), "another answer than the library", call=o, got=got, expected=want, history=log[:-1], **info)
    w.key(json.dumps([opts, log]))
    if len(w.samples) < 2 and len(log) > 2:
        w.samples.append(dict(options=opts, calls=[json.dumps(o, ensure_ascii=False)[:150] for o in log[:6]]))


NUMS = re.compile(r"<mtext>\((\d+)\)</mtext>")


def py_threads(w, rng, py, cfg, opts, cont, fancy):
    """Several threads on one converter."""
    # One whose calls do not depend on the others', one for the numbers, one for a definition.
    n = rng.choice([2, 3, 4])
    nopts = {"global_group": rng.random() < 0.5, "fancy_error": rng.random() < 0.5}
    for k in (1, 2):
        py.ask(op="new", k=k, opts=nopts)
    scripts, wants = [], []
    val = 0
    for t in range(n):
        s, e = [], []
        for o in py_ops(w, rng, rng.randint(1, 5), local=True):
            s.append([0, o])
            e.append(("is", py_want(w.lib, o, cont, fancy)))
        for _ in range(rng.randint(2, 8)):
            x = rng.random()
            if x < 0.5:
                r = rng.choice([1, 1, 2, 5])
                f = "\\begin{align}" + "\\\\".join("ab"[rng.randrange(2)] for _ in range(r)) + "\\end{align}" if r > 1 else "\\begin{equation}y\\end{equation}"
                z = [1, ["g", f, True]], ("rows", r)
            elif x < 0.6:
                z = [1, ["l", "\\begin{equation}y\\end{equation}", True]], ("local", 1)
            elif x < 0.65:
                z = [1, ["g", rng.choice(["\\frac", "\\nosuch"]), True]], ("fails",)
            elif x < 0.82:
                val += 1
                z = [2, ["g", "\\global\\def\\u{%d}" % val, False]], ("set", val)
            else:
                z = [2, ["g", "\\u", False]], ("get",)
            i = rng.randint(0, len(s))
            s.insert(i, z[0])
            e.insert(i, z[1])
        scripts.append(s)
        wants.append(e)
    # The definition exists from the beginning.
    if py.ask(op="do", k=2, o=["g", "\\global\\def\\u{0}", False]).get("ok") is None:
        raise NoAnswer("no definition")
    a = py.ask(op="threads", scripts=scripts, switch=rng.choice([1e-6, 1e-5, 5e-3]), patience=30)
    inp = json.dumps([opts, scripts], ensure_ascii=False)
    if "died" in a:
        return w.viol(inp, "the interpreter died", got=a)
    if "stuck" in a:
        py.start()
        return w.viol(inp, "threads wait for ever", got=a)
    w.stat("concurrent runs")
    seen, events = [], []
    for t in range(n):
        last = 0
        for (k, o), want, (t0, t1, got) in zip(scripts[t], wants[t], a["res"][t]):
            w.stat("concurrent calls")
            if "lock" in got:
                w.stat("locked")
                if want[0] == "rows":
                    # May count or not: nothing more to say about the numbers
                    want = ("skip",)
                continue
            if want[0] == "is" and got != want[1]:
                return w.viol(inp, "another answer than the library, concurrently", call=o, got=got, expected=want[1])
            if want[0] in ("rows", "local"):
                r = [int(x) for x in NUMS.findall(got.get("ok", ""))]
                if len(r) != want[1] or r != list(range(r[0], r[0] + want[1])) or r[0] <= last and want[0] == "rows" or want[0] == "local" and r != [1]:
                    return w.viol(inp, "numbers of a formula, concurrently", call=o, got=got, thread=t, last=last)
                if want[0] == "rows":
                    last = r[-1]
                    seen += r
            if want[0] == "fails" and "latex" not in got:
                return w.viol(inp, "no error, concurrently", call=o, got=got)
            if want[0] in ("set", "get"):
                if "ok" not in got:
                    return w.viol(inp, "error of a definition, concurrently", call=o, got=got)
                v = want[1] if want[0] == "set" else int(re.search(r"<mn>(\d+)</mn>", got["ok"]).group(1))
                events.append((want[0], v, t0, t1))
        if len(a["res"][t]) != len(scripts[t]):
            return w.viol(inp, "a thread ended early", got=a)
    w.key("threads", json.dumps(sorted(seen)), json.dumps([e[:2] for e in sorted(events, key=lambda e: e[3])]))
    if sorted(seen) != list(range(1, len(seen) + 1)) and not w.stats.get("locked"):
        return w.viol(inp, "numbers lost or given twice, concurrently", got=sorted(seen))
    sets = [("set", 0, -1.0, -0.5)] + [e for e in events if e[0] == "set"]
    for _, v, t0, t1 in [e for e in events if e[0] == "get"]:
        me = [e for e in sets if e[1] == v]
        # The definition read was made before, and not replaced in between.
        if not me or me[0][2] > t1 or any(me[0][3] < e[2] and e[3] < t0 for e in sets):
            return w.viol(inp, "a definition from the past or the future, concurrently", value=v, events=events)
        w.stat("definitions read concurrently")


def c20(tier, seed, only=None):
    build_repo("math-core-python")
    return run_workers("C20", py_case, seed, secs(tier), Py, only)


# ---------------------------------------------------------------------------------------------
# Sanitizers

SANIT = os.path.join(VERIF, "sanit")
ASAN_DIR, MIRI_DIR = os.path.join(TARGET, "asan"), os.path.join(TARGET, "miri")
ASAN_BIN = os.path.join(ASAN_DIR, "x86_64-unknown-linux-gnu", "release")
ASAN_OPT = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
# What AddressSanitizer says about too much, not about wrong, memory use
NOT_MEMORY = ("stack-overflow", "out-of-memory", "allocation-size-too-big", "rss-limit-exceeded", "calloc-overflow", "requested allocation size")


def build_sanitized():
    l = lock()
    try:
        e = env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address -Zub-checks=yes", CARGO_TARGET_DIR=ASAN_DIR, **FAST)
        for m, x in ((os.path.join(SANIT, "Cargo.toml"), []), (os.path.join(REPO, "Cargo.toml"), ["-p", "math-core-cli", "--locked"])):
            run(["cargo", "build", "--manifest-path", m, "--offline", "--release", "--target", "x86_64-unknown-linux-gnu"] + x,
                "building with AddressSanitizer", cwd=SANIT, env=e)
        try:
            run(["cargo", "miri", "run", "--manifest-path", os.path.join(SANIT, "Cargo.toml"), "--offline", "--", "/dev/null", "1", "0", "1", "0", "1", "1"],
                "building for Miri", cwd=SANIT, env=miri_env())
            return True
        except NoAnswer as e:
            return str(e)
    finally:
        l.close()


def miri_env(flags="", **kw):
    return env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zub-checks=yes", CARGO_TARGET_DIR=MIRI_DIR, MIRIFLAGS="-Zmiri-disable-isolation " + flags, **kw)


def verdict(rc, err):
    """What a sanitizer says, if it says something."""
    m = re.search(r"unsafe precondition\(s\) violated: .*", err)
    if m:
        return m.group(0)
    m = re.search(r"INVALID-UTF8.*", err)
    if m:
        return "a string which is not UTF-8"
    m = re.search(r"error: Undefined Behavior: .*", err)
    if m:
        return m.group(0)[7:]
    m = re.search(r"ERROR: AddressSanitizer:? ([^\n]*)", err)
    if m and not any(x in m.group(1) for x in NOT_MEMORY):
        return "AddressSanitizer: " + m.group(1).split(" on ")[0].split(" (pc")[0]
    return None


def sanit_cmd(kind, args):
    if kind == "asan":
        return [os.path.join(ASAN_BIN, "sanit")] + args + ["report"], env(ASAN_OPTIONS=ASAN_OPT)
    return ["cargo", "miri", "run", "--quiet", "--manifest-path", os.path.join(SANIT, "Cargo.toml"), "--offline", "--"] + args, miri_env(f"-Zmiri-seed={args[1]} -Zmiri-preemption-rate=0.05")


def sanit_worker(kind, mcmon, seed, shard, of, secs, q, only=None):
    d = tempfile.mkdtemp(prefix="mcmon-")
    res = dict(kind=kind, stats={}, keys=set(), violations=[], notes=[])
    try:
        pool = os.path.join(d, "pool")
        out = subprocess.run([mcmon, "pool", "--mix", "--seed", str(seed * 1000 + (0 if kind == "asan" else 7)), "--n", "30000" if kind == "asan" else "1500"],
                             stdout=subprocess.PIPE, env=env(), check=True).stdout
        maxlen = 20000
        if kind == "miri":
            # An interpreter has no time for long ones, nor for reading about them.
            maxlen = 90
            out = b"\x1e".join([x for x in out.split(b"\x1e") if len(x) <= maxlen][shard * 60:][:400])
        open(pool, "wb").write(out)
        end = time.time() + secs
        at = shard if only is None else only
        while time.time() < end - 1:
            left = int(end - time.time())
            cmd, e = sanit_cmd(kind, [pool, str(seed), str(at), str(of), "1" if only is not None else "100000000", str(left if only is None else 600), str(maxlen)])
            p = subprocess.Popen(cmd, cwd=SANIT, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            try:
                o, err = p.communicate(timeout=left + 90 if only is None else 900)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                o, err = p.communicate()
            o, err = o.decode(errors="replace"), err.decode(errors="replace")
            cases = re.findall(r"^case (\d+)$", err, re.M)
            last = int(cases[-1]) if cases else None
            done = [l for l in o.split("\n") if l.startswith("{")]
            if p.returncode == 0 and done:
                for k, v in json.loads(done[-1]).items():
                    res["stats"][f"{kind}: {k}"] = res["stats"].get(f"{kind}: {k}", 0) + v
                res["keys"] |= set(re.findall(r"^K (\w+)$", o, re.M))
                break
            what = verdict(p.returncode, err)
            if what:
                v = dict(input=f"case {last} of seed {seed}", what=what, idx=last, seed=seed, detail=dict(sanitizer=kind, shard=shard, stderr="\n".join(l for l in err.split("\n") if not l.startswith("case "))[:6000]))
                if only is None:
                    cmd, e = sanit_cmd(kind, [pool, str(seed), str(last), str(of), "1", "100", str(maxlen)])
                    try:
                        o = subprocess.run(cmd, cwd=SANIT, env=dict(e, SANIT_SHOW="1"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120).stdout
                        v["input"] = "\n".join(l for l in o.decode(errors="replace").split("\n") if l.startswith(("DEF", "FORM"))) or v["input"]
                    except subprocess.TimeoutExpired:
                        pass
                res["violations"].append(v)
            elif last is None:
                res["notes"].append(dict(kind=kind, status=p.returncode, stderr=err[-1500:]))
                break
            else:
                res["notes"].append(dict(kind=kind, status=p.returncode, case=last, stderr="\n".join(l for l in err.split("\n") if not l.startswith("case "))[-600:]))
            res["stats"][f"{kind}: cases"] = res["stats"].get(f"{kind}: cases", 0) + len(cases)
            if only is not None or len(res["violations"]) >= 3:
                break
            at = last + of
        q.put(res)
    except Exception:
        import traceback
        res["notes"].append(dict(error=traceback.format_exc()))
        q.put(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def entity_soup(rng, pool):
    out = []
    for _ in range(rng.randint(1, 12)):
        x = rng.random()
        if x < 0.4:
            out.append(rng.choice(pool).decode(errors="replace")[:300])
        elif x < 0.75:
            out.append(rng.choice(["&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#34;", "&#38;", "&#39;", "&#60;", "&#62;", "&", "&&", "&;", "&#", "&#;", "&l", "&lt", "&#3", "&#x3c;",
                                   "&é;", "&amp;lt;", "é", "𝒳", "&#99999;", "&ampé", "&lt;&gt;&amp;", "&nbsp;"]))
        elif x < 0.9:
            out.append(rng.choice(["x", "a+b", "\\alpha ", "_1", "{", "}", "\\text{é}", " ", "\n", "\r\n"]))
        else:
            out.append("y" * rng.randint(1, 1100))
    return "".join(out)


def sanit_cli(mcmon, seed, shard, of, secs, q, only=None):
    d = tempfile.mkdtemp(prefix="mcmon-")
    res = dict(kind="asan", stats={}, keys=set(), violations=[], notes=[])
    try:
        pool = subprocess.run([mcmon, "pool", "--mix", "--seed", str(seed * 1000 + 3), "--n", "3000"], stdout=subprocess.PIPE, env=env(), check=True).stdout.split(b"\x1e")
        exe = os.path.join(ASAN_BIN, "mathcore")
        end = time.time() + secs
        i = shard if only is None else only
        n = f = 0
        while time.time() < end:
            rng = random.Random(f"C21/{seed}/{i}")
            doc = ""
            for _ in range(rng.randint(1, 30)):
                doc += rng.choice(["<p>", " é ", "text\n", "&lt;", "\\$", "\\\\", "𝒳", "$", "w" * 500]) if rng.random() < 0.7 else entity_soup(rng, pool)
                if rng.random() < 0.8:
                    m = rng.choice(["$", "$$"])
                    doc += " " + m + entity_soup(rng, pool).replace("$", "") + m + " "
                    f += 1
            args = ["--continue-on-error"] * (rng.random() < 0.8) + ["--ignore-escaped-delim"] * (rng.random() < 0.3) + ["-"]
            p = subprocess.Popen([exe] + args, cwd=d, env=dict(env(), ASAN_OPTIONS=ASAN_OPT), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try:
                o, err = p.communicate(doc.encode(), timeout=60)
                err = err.decode(errors="replace")
                what = verdict(p.returncode, err)
                if what is None:
                    try:
                        o.decode()
                    except UnicodeDecodeError:
                        what = "output which is not UTF-8"
                if what:
                    res["violations"].append(dict(input=doc, what="command line tool: " + what, idx=i, seed=seed, detail=dict(sanitizer="cli", args=args, stderr=err[:4000])))
                res["keys"].add(hashlib.blake2b(doc.encode(), digest_size=8).hexdigest())
                n += 1
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                res["notes"].append(dict(kind="cli", case=i, status="timeout"))
            if only is not None or len(res["violations"]) >= 3:
                break
            i += of
        res["stats"] = {"cli: documents": n, "cli: formulas": f}
        q.put(res)
    except Exception:
        import traceback
        res["notes"].append(dict(error=traceback.format_exc()))
        q.put(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c21(tier, seed, only=None, how=None):
    mcmon = build_harness(("release",))["release"]
    miri = build_sanitized()
    s = secs(tier) if "MC_SECS" in os.environ or tier == "thorough" else 75
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    if only is not None:
        jobs = {"cli": [(sanit_cli, (mcmon, seed, only, 1, 100, q, only))]}.get(how, [(sanit_worker, (how, mcmon, seed, (only % 5 if how == "miri" else only), 1, 100, q, only))])
    else:
        jobs = [(sanit_worker, ("asan", mcmon, seed, i, 2, s, q)) for i in range(2)] + [(sanit_cli, (mcmon, seed, 0, 1, s, q))]
        if miri is True:
            jobs += [(sanit_worker, ("miri", mcmon, seed, i, 5, s, q)) for i in range(5)]
    ps = [ctx.Process(target=t, args=a) for t, a in jobs]
    for p in ps:
        p.start()
    tot = dict(evaluations=0, stats={}, samples=[], violations=[], notes=[] if miri is True else [miri])
    keys = set()
    for _ in ps:
        try:
            r = q.get(timeout=s + 400)
        except Exception:
            tot["notes"].append("a worker gave no answer")
            continue
        for k, v in r["stats"].items():
            tot["stats"][k] = tot["stats"].get(k, 0) + v
        tot["violations"] += r["violations"]
        tot["notes"] += r["notes"]
        keys |= r["keys"]
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    st = tot["stats"]
    tot["evaluations"] = sum(v for k, v in st.items() if k.endswith((": conversions", ": batch conversions", ": errors", ": documents", "definitions rejected")))
    tot["distinct"] = len(keys)
    tot["samples"] = [dict(observed=st)]
    tot["violation_count"] = len(tot["violations"])
    if not tot["violations"] and (not any(st.get(k) for k in ("asan: conversions",)) or miri is True and not st.get("miri: conversions")):
        raise NoAnswer("a sanitizer saw nothing: " + json.dumps(tot["notes"])[:3000])
    return tot


# ---------------------------------------------------------------------------------------------
# The JavaScript module

WASM_DIR = os.path.join(TARGET, "wasm")
WASM_BUILDS = {"prod": "", "checked": "-Zub-checks=yes -Cdebug-assertions=yes -Coverflow-checks=yes"}


def vendor():
    """All sources which a build for wasm32 with its own standard library needs, as a directory which cargo
    can take them from: those the toolchain brings along and those in cargo's cache."""
    out = os.path.join(WASM_DIR, "vendor")
    sysroot = run(["rustc", "--print", "sysroot"], "asking for the toolchain", cwd=WASM_DIR, env=env(RUSTUP_TOOLCHAIN="nightly")).strip()
    lib = os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor")
    home = os.environ.get("CARGO_HOME", os.path.join(os.path.expanduser("~"), ".cargo"))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for d in os.listdir(lib):
        os.symlink(os.path.join(lib, d), os.path.join(out, d))
    for block in open(os.path.join(REPO, "Cargo.lock")).read().split("[[package]]")[1:]:
        f = dict(re.findall(r'^(\w+) = "(.*)"$', block, re.M))
        if "checksum" not in f:
            continue
        name = f"{f['name']}-{f['version']}"
        dst = os.path.join(out, name)
        for src in glob.glob(os.path.join(home, "registry/src/*", name)):
            if not os.path.lexists(dst):
                os.makedirs(dst)
                for e in os.listdir(src):
                    if e != ".cargo-checksum.json":
                        os.symlink(os.path.join(src, e), os.path.join(dst, e))
                json.dump(dict(files={}, package=f["checksum"]), open(os.path.join(dst, ".cargo-checksum.json"), "w"))
    return out


def build_wasm():
    l = lock()
    try:
        os.makedirs(WASM_DIR, exist_ok=True)
        gen = os.path.join(VERIF, "wasmgen")
        run(["cargo", "build", "--manifest-path", os.path.join(gen, "Cargo.toml"), "--offline", "--locked", "--release"], "building wasmgen", cwd=gen, env=env())
        v = vendor()
        for kind, flags in WASM_BUILDS.items():
            d = os.path.join(WASM_DIR, kind)
            run(["cargo", "build", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "math-core-wasm", "--features", "ariadne", "--locked",
                 "--offline", "--release", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown",
                 "--config", 'source.crates-io.replace-with="v"', "--config", f'source.v.directory="{v}"'],
                f"building for wasm32 ({kind})", cwd=gen, env=env(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=flags, CARGO_TARGET_DIR=d, **FAST))
            run([os.path.join(TARGET, "release", "wasmgen"), os.path.join(d, "wasm32-unknown-unknown", "release", "math_core_wasm.wasm"),
                 os.path.join(d, "js"), "math_core"], "making the JavaScript module", cwd=gen, env=env())
    finally:
        l.close()


class Js(Py):
    """A node process with the module."""

    def __init__(self, w):
        self.w, self.p = w, None
        self.kind = list(WASM_BUILDS)[w.shard % 2]
        shutil.copytree(os.path.join(WASM_DIR, self.kind, "js"), os.path.join(w.dir, "js"))
        self.start()

    def start(self):
        self.stop()
        self.log = open(os.path.join(self.w.dir, "py.err"), "wb")
        self.p = subprocess.Popen(["node", os.path.join(VERIF, "drivers", "wasmchild.mjs"), os.path.join(self.w.dir, "js", "math_core.js")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, cwd=self.w.dir,
                                  env={"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.w.dir})
        self.buf = bytearray()


JS_NAMES = dict(pretty_print="prettyPrint", xml_namespace="xmlNamespace", ignore_unknown_commands="ignoreUnknownCommands", annotation="annotation",
                allow_unreliable_rendering="allowUnreliableRendering", global_group="globalGroup", unicode_substitution="unicodeSubstitution",
                id_prefix="idPrefix", max_expansions="maxExpansions")


def js_cfg(rng):
    c, o = python_cfg(rng)
    j = {JS_NAMES[k]: v for k, v in o.items() if k != "macros"}
    if "macros" in c and o["macros"] is not None:
        j["macros"] = c["macros"]
    undef = [k for k in list(JS_NAMES.values()) + ["macros", "throwOnError"] if k not in j and rng.random() < 0.1]
    if undef:
        j["undef"] = undef
    return c, j


JS_INVALID = [
    ({"prettyPrint": "Always"}, "Invalid value for prettyPrint"), ({"prettyPrint": ""}, "Invalid value for prettyPrint"), ({"prettyPrint": "true"}, "Invalid value for prettyPrint"),
    ({"unicodeSubstitution": "always"}, "Invalid value for unicodeSubstitution"), ({"unicodeSubstitution": ""}, "Invalid value for unicodeSubstitution"),
    ({"macros": [["a", 1]]}, "Invalid macros map"), ({"macros": [["b", "x"], ["a", None]]}, "Invalid macros map"), ({"macros": [[1, "x"], ["b", "x"]]}, "Invalid macros map"),
    ({"macros": [["a", "x"], ["b", ["x"]]]}, "Invalid macros map"),
]


def units(s, byte):
    """The position in UTF-16 units of a position in bytes."""
    return len(s.encode()[:byte].decode().encode("utf-16-le")) // 2


def js_expect(a, throws, index=None, context=None):
    if "ok" in a:
        return {"ok": a["ok"]}
    if not throws:
        return {"ok": a["html"]}
    s = a["latex"]
    r = dict(message=a["error"], label=a["label"], start=units(s, a["start"]), end=units(s, a["end"]), report=a["plain"])
    if index is not None:
        r["index"] = index
    if context is not None:
        r["context"] = context
    return {"latex": r}


def js_want(lib, o, throws):
    if o[0] in ("g", "l"):
        a = lib.ask(op=o[0], s=o[1], b=o[2], source="input")
        if "panic" in a:
            raise Gone()
        return js_expect(a, throws)
    if o[0] == "reset":
        lib.ask(op="reset")
        return {"none": True}
    a = lib.ask(op="all", v=o[1])
    if isinstance(a, dict):
        raise Gone()
    r = [js_expect(x, throws, i) for i, x in enumerate(a)]
    for x in r:
        if "latex" in x:
            return x
    return {"list": [x["ok"] for x in r]}


def js_case(w, rng):
    js = w.ext
    js.ask(op="drop")
    x = rng.random()
    if x < 0.03:
        o, what = rng.choice(JS_INVALID)
        opts = dict(js_cfg(rng)[1])
        if opts.get("macros") and any(d.startswith(("\\nosuch", "a+#", "é", "{#")) for _, d in opts["macros"]):
            del opts["macros"]
        opts.update(o)
        opts["undef"] = [k for k in opts.get("undef", []) if k not in o]
        a = js.ask(op="new", k=0, opts=opts)
        w.stat("invalid options")
        w.key("invalid", json.dumps(o))
        if a != {"config": what}:
            w.viol(json.dumps(opts), "invalid option", got=a)
        return
    cfg, opts = js_cfg(rng)
    throws = rng.random() < 0.6
    if "throwOnError" in opts.get("undef", []):
        throws = True
    elif not throws or rng.random() < 0.3:
        opts["throwOnError"] = throws
    info = dict(options=opts, build=js.kind)
    a = js.ask(op="new", k=0, opts=opts)
    b = w.lib.new(cfg)
    if "panic" in b:
        raise Gone()
    if "ok" not in b:
        w.stat("rejected definitions")
        w.key("bad", json.dumps(opts))
        want = js_expect(b, True, context=b["latex"])
        if a != want:
            w.viol(json.dumps(opts), "error of a definition", got=a, expected=want, **info)
            js.start()
        return
    if a != {"none": True}:
        w.viol(json.dumps(opts), "no converter", got=a, **info)
        return js.start()
    other = rng.random() < 0.3 and js.ask(op="new", k=1, opts=js_cfg(rng)[1]) == {"none": True}
    log = []
    for o in py_ops(w, rng, rng.choice([1, 2, 3, 5, 9])):
        if other and rng.random() < 0.4 and "trap" in js.ask(op="do", k=1, o=py_ops(w, rng, 1)[0]):
            # Found again when it happens on the converter that is compared
            js.start()
            raise Gone()
        log.append(o)
        want = js_want(w.lib, o, throws)
        got = js.ask(op="do", k=0, o=o)
        w.stat("calls " + o[0])
        w.stat("errors", "latex" in want)
        w.stat(f"calls on the {js.kind} build")
        if want != got:
            w.viol(json.dumps([opts, log], ensure_ascii=False), "another answer than the library", call=o, got=got, expected=want, history=log[:-1], **info)
            return js.start()
    w.key(json.dumps([opts, log]))
    if len(w.samples) < 2 and len(log) > 2:
        w.samples.append(dict(options=opts, calls=[json.dumps(o, ensure_ascii=False)[:150] for o in log[:6]]))


def w01(tier, seed, only=None):
    build_wasm()
    return run_workers("W01", js_case, seed, secs(tier), Js, only)


def secs(tier):
    if "MC_SECS" in os.environ:
        return float(os.environ["MC_SECS"])
    return 400 if tier == "thorough" else 40


RUN = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "W01": w01}


def replay(j):
    kw = dict(how=j["detail"]["sanitizer"]) if j["property"] == "C21" else {}
    tot = RUN[j["property"]](j.get("tier", "quick"), j["seed"], only=j["idx"], **kw)
    for v in tot["violations"]:
        print(json.dumps(v, indent=1, ensure_ascii=False))
    return 1 if tot["violations"] else 0
