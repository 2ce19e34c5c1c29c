"""Extraction and loading of program facts.

`ensure()` builds the rustc driver (once) and runs `cargo check` on /repo with
the driver as workspace wrapper, so that the facts on disk always describe the
*current* working tree.  `Facts` indexes them.
"""
import fcntl, hashlib, io, json, lzma, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("HUGR_REPO", "/repo")
CACHE = os.environ.get("HUGR_VERIF_CACHE", os.path.join(VERIF, ".cache"))
FEATURES = "hugr/declarative hugr/llvm hugr/llvm-test hugr/zstd"
CRATES = ["hugr_model", "hugr_core", "hugr_passes", "hugr_persistent", "hugr_llvm",
          "hugr_cli", "hugr", "hugr.bin", "hugr_py"]


class CheckError(Exception):
    """Something prevents the analysis from running at all."""


def _env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         capture_output=True).stdout.decode()
    env = {}
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env.pop("RUSTC_WRAPPER", None)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env,
                             capture_output=True, text=True).stdout.strip()
    if not sysroot:
        raise CheckError("no nightly toolchain")
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def driver(env=None):
    env = env or _env()
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    tag = _sha(src)[:16]
    exe = os.path.join(CACHE, "driver", "hugr-facts-" + tag)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tgt = os.path.join(CACHE, "driver-target")
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", tgt],
                           cwd=os.path.join(VERIF, "driver"), env=env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("driver build failed:\n" + r.stderr[-4000:])
        shutil.copy(os.path.join(tgt, "release", "hugr-facts"), exe)
        shutil.rmtree(tgt, ignore_errors=True)
    return exe


def _crate_of(path):
    """map a facts crate name to its source dirs"""
    return {"hugr_model": "hugr-model", "hugr_core": "hugr-core", "hugr_passes": "hugr-passes",
            "hugr_persistent": "hugr-persistent", "hugr_llvm": "hugr-llvm", "hugr_cli": "hugr-cli",
            "hugr": "hugr", "hugr.bin": "hugr-cli", "hugr_py": "hugr-py"}[path]


def _stamp_path(c):
    return os.path.join(CACHE, "facts", c + ".stamp")


def _src_hashes(crate):
    """hash of every .rs file (and Cargo.toml) below the crate's directory"""
    root = os.path.join(REPO, _crate_of(crate))
    out = {}
    for dp, dn, fn in os.walk(root):
        dn[:] = [d for d in dn if d not in ("target", ".git", "node_modules", "__pycache__")]
        for f in fn:
            if f.endswith((".rs", ".toml", ".pest", ".capnp")):
                p = os.path.join(dp, f)
                out[os.path.relpath(p, REPO)] = _sha(p)
    return out


def _cargo(env, exe):
    fd = os.path.join(CACHE, "facts")
    e = dict(env)
    e["HUGR_FACTS_DIR"] = fd
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
    r = subprocess.run(["cargo", "check", "--workspace", "--features", FEATURES,
                        "--offline", "--locked"], cwd=REPO, env=e, capture_output=True, text=True)
    return r


def ensure():
    """Bring facts up to date. Returns seconds spent."""
    t0 = time.time()
    os.makedirs(os.path.join(CACHE, "facts"), exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = {c: _src_hashes(c) for c in CRATES}
        wanted = hashlib.sha256(json.dumps(want, sort_keys=True).encode()).hexdigest()
        drv_tag = _sha(os.path.join(VERIF, "driver", "src", "main.rs"))[:16]
        stamp = os.path.join(CACHE, "facts", "STAMP")
        try:
            with open(stamp) as f:
                if f.read() == wanted + drv_tag and all(
                        os.path.exists(os.path.join(CACHE, "facts", c + ".jsonl")) for c in CRATES):
                    return time.time() - t0
        except OSError:
            pass
        if os.path.exists(stamp):
            os.remove(stamp)
        env = _env()
        exe = driver(env)
        # force re-extraction of stale crates: remove facts; wipe fingerprints of workspace crates
        # whose sources differ from those the facts were made from.
        stale = []
        for c in CRATES:
            try:
                with open(_stamp_path(c)) as f:
                    old = json.load(f)
            except (OSError, ValueError):
                old = None
            if old is None or old.get("src") != want[c] or old.get("drv") != drv_tag:
                stale.append(c)
        fps = os.path.join(CACHE, "target", "debug")
        if stale:
            for sub in (".fingerprint", "build"):
                d = os.path.join(fps, sub)
                if not os.path.isdir(d):
                    continue
                for n in os.listdir(d):
                    base = n
                    if sub == ".fingerprint":
                        base = n.rsplit("-", 1)[0]
                    for c in stale:
                        if base == _crate_of(c):
                            shutil.rmtree(os.path.join(d, n), ignore_errors=True)
            for c in stale:
                for p in (os.path.join(CACHE, "facts", c + ".jsonl"), _stamp_path(c)):
                    if os.path.exists(p):
                        os.remove(p)
        r = _cargo(env, exe)
        if r.returncode != 0:
            raise CheckError("cargo check failed on /repo:\n" + r.stderr[-6000:])
        missing = [c for c in CRATES if not os.path.exists(os.path.join(CACHE, "facts", c + ".jsonl"))]
        if missing:
            # cargo considered something fresh although its facts are gone: start afresh
            shutil.rmtree(os.path.join(CACHE, "target"), ignore_errors=True)
            r = _cargo(env, exe)
            if r.returncode != 0:
                raise CheckError("cargo check failed on /repo:\n" + r.stderr[-6000:])
            missing = [c for c in CRATES if not os.path.exists(os.path.join(CACHE, "facts", c + ".jsonl"))]
            if missing:
                raise CheckError("no facts for " + ", ".join(missing))
        for c in CRATES:
            with open(_stamp_path(c), "w") as f:
                json.dump({"src": want[c], "drv": drv_tag}, f)
        with open(stamp, "w") as f:
            f.write(wanted + drv_tag)
    return time.time() - t0


class Facts:
    """Lazy loader: function records are parsed on first use."""

    def __init__(self, crates=None, src=None):
        self.src = src or os.path.join(CACHE, "facts")
        self.raw = {}        # id -> (crate, line)
        self.parsed = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.files = {}
        self.meta = {}       # id -> light metadata
        self.crates = crates or CRATES
        idre = re.compile(r'^\{"k":"(\w+)","id":"((?:[^"\\]|\\.)*)"')
        for c in self.crates:
            p = os.path.join(self.src, c + ".jsonl")
            if not os.path.exists(p):
                f = io.TextIOWrapper(lzma.open(p + ".xz"), "utf-8")
            else:
                f = open(p)
            with f:
                for line in f:
                    m = idre.match(line)
                    if m and m.group(1) == "fn":
                        i = json.loads('"' + m.group(2) + '"')
                        n = i
                        k = 1
                        while n in self.raw:
                            k += 1
                            n = f"{i}#{k}"
                        self.raw[n] = (c, line)
                        continue
                    d = json.loads(line)
                    if d["k"] == "adt":
                        d["crate"] = c
                        self.adts[d["id"]] = d
                    elif d["k"] == "trait":
                        self.traits[d["id"]] = d
                    elif d["k"] == "impl":
                        d["crate"] = c
                        self.impls.append(d)
                    elif d["k"] == "crate":
                        self.files[c] = d
        self.closures = {}
        for i in self.raw:
            if "{closure#" in i:
                self.closures.setdefault(i[: i.rindex("::{closure#")], []).append(i)

    def __contains__(self, i):
        return i in self.raw

    def get(self, i):
        f = self.parsed.get(i)
        if f is None:
            if i not in self.raw:
                return None
            c, line = self.raw[i]
            f = json.loads(line)
            f["id"] = i
            f["crate"] = c
            self.parsed[i] = f
        return f

    def ids(self, crate=None):
        for i, (c, _) in self.raw.items():
            if crate is None or c == crate:
                yield i

    def find(self, pat, crate=None):
        """ids that match a regex (search)"""
        r = re.compile(pat)
        return [i for i in self.ids(crate) if r.search(i)]

    def one(self, pat, crate=None):
        c = self.find(pat, crate)
        if len(c) != 1:
            raise LookupError(f"anchor /{pat}/: {len(c)} matches {c[:4]}")
        return c[0]
