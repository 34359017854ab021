"""Kani back end: proofs over the verification copy of the /repo crates, and
replay/search of the same harness bodies on the real crates."""
import json, os, re, shutil, subprocess, threading, time, signal
import shadow

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/.build")
LOCK = "/opt/vp/ws/Cargo.lock"

def env():
    e = dict(os.environ)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def harnesses(mod):
    """Harness names in file order. Prefixes: t_ thorough tier only, n_ native
    sampling only, m_ modular (callees replaced by their contracts, proof only)."""
    src = open(f"{VERIF}/harness/src/{mod}.rs").read()
    return re.findall(r"^\s*proof\w*!\(\s*(\w+)\s*,", src, re.M) + re.findall(r"^\s*(?:pub )?fn (m_\w+|t_m_\w+)\(\)", src, re.M)

def is_modular(n):
    return n.startswith(("m_", "t_m_"))

MANIFEST = """[package]
name = "h"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
{bin}
[dependencies]
nd = {{ path = "{verif}/harness/nd" }}
{deps}
[workspace]
[profile.dev]
opt-level = {opt}
debug = false
[lints.rust]
unexpected_cfgs = "allow"
"""
EXT = {"bdk": 'bdk = "0.28.1"', "hex": 'hex = "0.4.3"', "serde_json": 'serde_json = "1"', "rand": 'rand = "0.8"',
       "sha2": 'sha2 = "0.10.7"', "ripemd": 'ripemd = "0.1.3"', "regex": 'regex = "~1.8.4"'}

def write_crate(d, mod, deps, native):
    os.makedirs(d, exist_ok=True)
    base = REPO if native else f"{BUILD}/shadow"
    lines = []
    for x in [*deps, "sha2", "ripemd"]:
        if not native and x in shadow.SHIMS:
            lines.append(f'{x} = {{ path = "{VERIF}/shims/{x}" }}')
            continue
        lines.append(EXT[x] if x in EXT else f'{x} = {{ path = "{base}/{x}" }}')
    b = '[[bin]]\nname = "h"\npath = "main.rs"\n' if native else ""
    open(f"{d}/Cargo.toml", "w").write(MANIFEST.format(bin=b, verif=VERIF, deps="\n".join(lines), opt=1 if native else 0))
    netmod = f'#[path = "{VERIF}/harness/src/net.rs"]\npub mod net;\n' if "sbtc-core" in deps else ""
    used = sorted(set(re.findall(r"crate::(p\d\d)\b", open(f"{VERIF}/harness/src/{mod}.rs").read())) - {mod})
    netmod += "".join(f'#[path = "{VERIF}/harness/src/{u}.rs"]\npub mod {u};\n' for u in used)
    open(f"{d}/lib.rs", "w").write(
        f'#![allow(dead_code, unused_imports, unused_macros)]\n#[macro_use]\n#[path = "{VERIF}/harness/src/util.rs"]\npub mod util;\n{netmod}'
        f'#[path = "{VERIF}/harness/src/{mod}.rs"]\npub mod {mod};\n')
    if native:
        reg = ",\n".join(f'("{n}", h::{mod}::{n} as fn())' for n in harnesses(mod) if not is_modular(n))
        open(f"{d}/main.rs", "w").write(f"fn main() {{ nd::main(&[\n{reg}\n]) }}\n")
    if os.path.exists(LOCK):
        shutil.copy(LOCK, f"{d}/Cargo.lock")

class Native:
    """The harness bodies on the real crates."""
    def __init__(self, mod, deps):
        self.mod, self.deps, self.bin, self.err = mod, deps, None, None
        self.t = threading.Thread(target=self._build); self.t.start()
    def _build(self):
        d = f"{BUILD}/native"
        write_crate(d, self.mod, self.deps, True)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env(), capture_output=True, text=True)
        if r.returncode == 0:
            self.bin = f"{d}/target/debug/h"
        else:
            self.err = r.stderr[-4000:]
    def ready(self):
        self.t.join()
        return self.bin is not None
    def run(self, *a, timeout=120):
        try:
            r = subprocess.run([self.bin, *a], capture_output=True, text=True, timeout=timeout)
            return r.returncode, r.stdout.strip()
        except subprocess.TimeoutExpired:
            return 2, "TIMEOUT"
    def replay(self, name, hexs, steered=False):
        rc, out = self.run("replay-search" if steered else "replay", name, hexs)
        # a crash (abort, signal) of the real code is a failure too
        return (rc == 1 or rc < 0 or rc > 3), out
    def search(self, name, seed, ms):
        return self.run("search", name, str(seed), str(ms), timeout=ms / 1000 + 60)

KFLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks", "--no-assertion-reach-checks"]
CBMC = ["--cbmc-args", "--max-field-sensitivity-array-size", "256"]

class Res:
    def __init__(self, name):
        self.name, self.status, self.time, self.checks, self.fails, self.cover, self.why = name, "missing", 0.0, 0, [], None, ""

# not verdicts on safe Rust code: limits of the encoding, memory-model checks
UNDECIDED_CAT = ("unwind", "unsupported_construct", "missing_definition", "recursion", "precondition_instance", "pointer", "safety_check")

def prove(mod, deps, names, harness_timeout, wall, jobs=8, extra=(), on_start=None):
    d = f"{BUILD}/kani"
    shadow.build(f"{BUILD}/shadow")
    write_crate(d, mod, deps, False)
    out = f"{BUILD}/kani-{mod}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "kani", *KFLAGS, *extra, "--output-format", "terse", "--harness-timeout", f"{harness_timeout}s", "-j", str(jobs), "--export-json", out]
    for n in names:
        cmd += ["--harness", f"{mod}::{n}"]
    cmd += ["--exact"] + CBMC
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    log = []
    def kill():
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
    tm = threading.Timer(wall, kill); tm.start()
    if on_start: on_start(kill)
    for line in p.stdout:
        log.append(line)
    p.wait(); tm.cancel()
    wall_s = time.time() - t0
    open(f"{BUILD}/kani-{mod}.log", "w").writelines(log)
    res = {n: Res(n) for n in names}
    # streamed log first (survives a kill), then the exported results
    cur = {}; th = None
    for l in log:
        m = re.match(r"(?:Thread (\d+): )?Checking harness (?:\w+::)*(\w+)\.\.\.", l)
        if m:
            cur[m.group(1)] = m.group(2); continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m: th = m.group(1)
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m and cur.get(th) in res:
            r = res[cur[th]]
            r.status = "ok" if m.group(1) == "SUCCESSFUL" else "failed?"
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m and cur.get(th) in res:
            res[cur[th]].time = float(m.group(1))
    if os.path.exists(out):
        try:
            j = json.load(open(out))
        except ValueError:
            j = {}
        for r in j.get("verification_results", {}).get("results", []):
            n = r["harness_id"].split("::")[-1]
            if n not in res: continue
            h = res[n]; h.time = r.get("duration_ms", 0) / 1000
            bad = []; h.checks = 0
            for c in r.get("checks", []):
                st, cat = c.get("status", ""), c.get("category", "")
                if cat == "cover":
                    h.cover = st == "Satisfied"; continue
                h.checks += 1
                if st not in ("Success", "Unreachable"):
                    bad.append((cat, st, c.get("description", ""), c.get("function", ""), c.get("location", {})))
            real = [b for b in bad if b[1] == "Failure" and not any(u in b[0] for u in UNDECIDED_CAT) and "unsupported" not in b[2]
                    and "unwinding assertion" not in b[2]]
            if not bad and r.get("status") == "Success":
                h.status = "ok"
            elif not r.get("checks"):
                h.status, h.why = "undecided", "no result (time or memory limit)"
            elif real:
                h.status, h.fails = "failed", real
            else:
                h.status, h.fails, h.why = "undecided", bad, "outside the verifier's reach: " + "; ".join(sorted({b[2][:80] for b in bad}))[:300]
            if h.status == "ok" and h.cover is not True:
                h.status, h.why = "undecided", "vacuous: end of the harness unreachable"
    built = any(l.startswith(("Checking harness", "Thread ")) for l in log)
    for h in res.values():
        h.cut = h.status == "failed?"
        if h.status == "ok" and not h.checks:
            h.status, h.why = "undecided", "run stopped before its results were exported"
        if h.status in ("missing", "failed?"):
            h.status, h.why = "undecided", ("no result within the time limit" if built else "verification copy did not build")
    return res, wall_s, built, " ".join(cmd), log

def counterexamples(mod, name, harness_timeout):
    d = f"{BUILD}/kani"
    cmd = ["cargo", "kani", *KFLAGS, "--harness-timeout", f"{harness_timeout}s", "-Z", "concrete-playback", "--concrete-playback=print",
           "--harness", f"{mod}::{name}", "--exact", *CBMC]
    try:
        r = subprocess.run(cmd, cwd=d, env=env(), capture_output=True, text=True, timeout=harness_timeout + 60)
    except subprocess.TimeoutExpired:
        return [], "timeout while asking for a counterexample"
    o = r.stdout
    out = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
        bs = []
        for v in re.findall(r"^\s*vec!\[([\d,\s]*)\]", block, re.M):
            bs += [int(x) for x in v.replace(",", " ").split()]
        h = "".join("%02x" % b for b in bs)
        if h not in out: out.append(h)
    i = o.find("Failed Checks"); 
    return out, (o[i:i + 3000] if i >= 0 else o[-3000:])
