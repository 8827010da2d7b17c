"""Builds the driver and the crate under analysis, and talks to the driver."""
import json, os, shutil, subprocess, sys, tempfile, atexit, hashlib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DYNC_REPO", "/repo")
DRIVER_DIR = os.path.join(VERIF, "driver")


class ToolError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def driver_env(root=None):
    env = dict(os.environ)
    root = root or sysroot()
    env["LD_LIBRARY_PATH"] = os.path.join(root, "lib") + ":" + env.get("LD_LIBRARY_PATH", "")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    return env


def build_driver():
    """Builds the driver (in driver/target, ignored by git); a lock makes parallel callers wait."""
    exe = os.path.join(DRIVER_DIR, "target/release/dync-driver")
    os.makedirs(os.path.join(DRIVER_DIR, "target"), exist_ok=True)
    with open(os.path.join(DRIVER_DIR, "target/.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = driver_env()
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=DRIVER_DIR,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise ToolError("cannot build the driver:\n" + r.stdout[-4000:])
    return exe


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="dync-sa-")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and _tmp and os.path.isdir(_tmp):
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp


class Build:
    """The rustc command line of a crate, obtained from cargo with the crate's own settings."""

    def __init__(self, manifest_dir, crate, features=None, tag="x", extra=(), mir=False):
        self.exe = build_driver()
        self.root = sysroot()
        self.target = os.path.join(scratch(), "target-" + tag)
        rec = os.path.join(scratch(), "args-%s-%s" % (tag, crate))
        env = driver_env(self.root)
        env["RUSTC_WORKSPACE_WRAPPER"] = self.exe
        env["DYNC_RECORD"] = rec
        env["DYNC_CRATE"] = crate
        env["CARGO_TARGET_DIR"] = self.target
        if mir:  # bodies of functions of the dependencies
            env["RUSTFLAGS"] = "-Zalways-encode-mir"
        cmd = ["cargo", "check", "--offline", "--quiet", "--lib", "--manifest-path",
               os.path.join(manifest_dir, "Cargo.toml")]
        if features is not None:
            cmd += features
        r = subprocess.run(cmd, cwd=manifest_dir, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(rec):
            raise ToolError("cargo check failed for %s:\n%s" % (crate, r.stdout[-4000:]))
        self.args = open(rec).read().split("\0")[:-1]
        self.cwd = manifest_dir
        # the crate root is given relative to the workspace root
        self.extra = list(extra)

    def session(self, debug=False):
        return Session(self, debug)


class Session:
    def __init__(self, build, debug=False):
        env = driver_env(build.root)
        env["DYNC_SERVE"] = "1"
        args, skip = [], False
        for a in build.args:
            if skip:
                skip = False
                continue
            if a.startswith("--json") or a.startswith("--error-format") or a.startswith("-Cincremental"):
                continue
            if a == "-C" or a == "--out-dir":
                args.append(a)
                continue
            args.append(a)
        # -C incremental=...
        out, i = [], 0
        while i < len(args):
            if args[i] == "-C" and i + 1 < len(args) and args[i + 1].startswith("incremental"):
                i += 2
                continue
            out.append(args[i])
            i += 1
        args = out + ["-Zmir-opt-level=0", "-Cdebug-assertions=" + ("on" if debug else "off"),
                      "-Coverflow-checks=" + ("on" if debug else "off"), "-Awarnings", "--cap-lints=allow"]
        args += build.extra
        self.p = subprocess.Popen([build.exe] + args, cwd=build.cwd, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=open(os.environ["DYNC_ERR"], "w") if os.environ.get("DYNC_ERR") else subprocess.DEVNULL, text=True)
        self.types = {}
        self.insts = {}
        self.bodies = {}
        self.adts = {}
        self._items = None
        self.build = build

    def q(self, **kw):
        self.p.stdin.write(json.dumps(kw) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise ToolError("the driver ended unexpectedly on " + json.dumps(kw)[:200])
        r = json.loads(line)
        for i, t in r.pop("types", []):
            t["id"] = i
            self.types[i] = t
        for i, t in r.pop("insts", []):
            t["id"] = i
            self.insts[i] = t
        return r

    def items(self):
        if self._items is None:
            self._items = self.q(op="items")
            if "error" in self._items:
                raise ToolError("items: " + self._items["error"])
        return self._items

    def body(self, inst, promoted=None):
        k = (inst, promoted)
        if k not in self.bodies:
            r = self.q(op="body", inst=inst, promoted=promoted) if promoted is not None else self.q(op="body", inst=inst)
            self.bodies[k] = r.get("body")
        return self.bodies[k]

    def adt(self, ty):
        if ty not in self.adts:
            self.adts[ty] = self.q(op="adt", ty=ty).get("adt")
        return self.adts[ty]

    def close(self):
        try:
            self.p.stdin.write('{"op":"quit"}\n')
            self.p.stdin.flush()
            self.p.stdin.close()
        except Exception:
            pass
        self.p.wait()
