"""The contract assumed of `CONTRACT_NAME_REGEX.is_match` in the proofs is the
contract name grammar. Here that assumption is discharged: the pattern the
real crate compiles is read from the real crate, turned into an automaton and
compared, for all strings, with the grammar's automaton."""
import os, shutil, subprocess, re
import kani_backend as kb
try:
    import re._parser as sp, re._constants as sc
except ImportError:
    import sre_parse as sp, sre_constants as sc

MAIN = """use stacks_core::contract_name::*;
fn main() {
    if std::env::args().count() < 2 { println!("{}", CONTRACT_NAME_REGEX.as_str()); return }
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
        let s = String::from_utf8(b).unwrap();
        println!("{}", match ContractName::new(&s) { Ok(n) => AsRef::<str>::as_ref(&n) == s, Err(_) => false } as u8);
    }
}
"""
class Unsupported(Exception): pass
MAXC = 0x10FFFF

class NFA:
    def __init__(self): self.eps, self.tr, self.n = {}, {}, 0
    def new(self):
        self.n += 1; return self.n - 1
    def e(self, a, b, cond=None): self.eps.setdefault(a, []).append((b, cond))
    def t(self, a, b, rs): self.tr.setdefault(a, []).append((b, rs))

def neg(rs):
    out, lo = [], 0
    for a, b in sorted(rs):
        if a > lo: out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= MAXC: out.append((lo, MAXC))
    return out

def charset(items):
    rs, n = [], False
    for op, av in items:
        if op is sc.NEGATE: n = True
        elif op is sc.LITERAL: rs.append((av, av))
        elif op is sc.RANGE: rs.append(tuple(av))
        else: raise Unsupported(str(op))
    return neg(rs) if n else rs

def compile_(nfa, seq, s):
    for op, av in seq:
        if op is sc.LITERAL: t = nfa.new(); nfa.t(s, t, [(av, av)]); s = t
        elif op is sc.NOT_LITERAL: t = nfa.new(); nfa.t(s, t, neg([(av, av)])); s = t
        elif op is sc.ANY: t = nfa.new(); nfa.t(s, t, neg([(10, 10)])); s = t
        elif op is sc.IN: t = nfa.new(); nfa.t(s, t, charset(av)); s = t
        elif op is sc.BRANCH:
            t = nfa.new()
            for alt in av[1]:
                a = nfa.new(); nfa.e(s, a); nfa.e(compile_(nfa, alt, a), t)
            s = t
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]: raise Unsupported("flags")
            s = compile_(nfa, av[3], s)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo): s = compile_(nfa, sub, s)
            if hi is sc.MAXREPEAT:
                a = nfa.new(); nfa.e(s, a); nfa.e(compile_(nfa, sub, a), a); s = nfa.new(); nfa.e(a, s)
            else:
                if hi > 2000: raise Unsupported("repeat")
                end = nfa.new(); nfa.e(s, end)
                for _ in range(hi - lo):
                    s = compile_(nfa, sub, s); nfa.e(s, end)
                s = end
        elif op is sc.AT:
            t = nfa.new()
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING): nfa.e(s, t, "^")
            elif av in (sc.AT_END, sc.AT_END_STRING): nfa.e(s, t, "$")
            else: raise Unsupported(str(av))
            s = t
        else: raise Unsupported(str(op))
    return s

def build(pattern):
    # \d \w \s \b differ between the two syntaxes (Unicode); \A and \z are
    # normalised; anything else the two parsers read differently is refused
    if re.search(r"\\[dDwWsSbBpPxuU0-9]|\(\?|&&|\[\[:|\[[^\]]*\[", pattern): raise Unsupported(pattern)
    tree = sp.parse(pattern.replace(r"\z", r"\Z"))
    n = NFA(); s = n.new(); n.t(s, s, [(0, MAXC)]); st = n.new(); n.e(s, st)
    f = compile_(n, tree, st)
    end = n.new(); n.e(f, end); n.t(end, end, [(0, MAXC)])
    return n, s, end

def closure(nfa, states, first, last):
    out, work = set(states), list(states)
    while work:
        for b, c in nfa.eps.get(work.pop(), []):
            if (c == "^" and not first) or (c == "$" and not last): continue
            if b not in out: out.add(b); work.append(b)
    return frozenset(out)

def spec_step(q, c):
    # states: grammar position | prefix of __transient
    g, t = q
    ch = chr(c) if c < 128 else "\0"
    al, dg = ch.isalpha(), ch.isdigit()
    if g == 0: g = 1 if al else -1
    elif g > 0: g = g + 1 if g < 40 and (al or dg or ch in "-_") else -1
    w = "__transient"
    t = t + 1 if 0 <= t < len(w) and ch == w[t] else -1
    return g, t
def spec_ok(q): return 1 <= q[0] <= 40 or q[1] == 11

def differences(pattern, limit=40):
    """shortest strings on which the pattern and the grammar differ"""
    nfa, s0, end = build(pattern)
    cuts = {0, 48, 58, 65, 91, 97, 123, 45, 46, 95, 96, 128, 10, 11}
    for ts in nfa.tr.values():
        for _, rs in ts:
            for a, b in rs: cuts |= {a, b + 1}
    for ch in "_transient": cuts |= {ord(ch), ord(ch) + 1}
    cuts = sorted(c for c in cuts if c <= MAXC)
    reps = [next((k for k in (c, 0xE000) if c <= k and not 0xD800 <= k < 0xE000), c) for c in cuts]
    start = (frozenset([s0]), True)
    seen = {(start, (0, 0)): None}; queue = [(start, (0, 0), "")]; diffs = []
    # (NFA set before closure, at start?) x grammar state
    i = 0
    while i < len(queue) and len(diffs) < limit:
        (S, first), q, w = queue[i]; i += 1
        acc = end in closure(nfa, S, first, True)
        if acc != spec_ok(q): diffs.append((w, acc))
        C = closure(nfa, S, first, False)
        for c in reps:
            T = frozenset(b for a in C for b, rs in nfa.tr.get(a, []) if any(lo <= c <= hi for lo, hi in rs))
            k = ((T, False), spec_step(q, c))
            if k not in seen:
                seen[k] = None; queue.append((k[0], k[1], w + chr(c)))
    return diffs, len(seen), len(reps)

def run(ctx, part):
    d = f"{kb.BUILD}/regexeq"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/Cargo.toml", "w").write(f'[package]\nname = "rx"\nversion = "0.1.0"\nedition = "2021"\n[[bin]]\nname = "rx"\npath = "main.rs"\n[dependencies]\nstacks-core = {{ path = "{kb.REPO}/stacks-core" }}\n[workspace]\n')
    open(f"{d}/main.rs", "w").write(MAIN)
    if os.path.exists(kb.LOCK): shutil.copy(kb.LOCK, f"{d}/Cargo.lock")
    e = kb.env(); e["CARGO_TARGET_DIR"] = f"{kb.BUILD}/native/target"
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=e, capture_output=True, text=True)
    row = {"backend": "automaton equivalence (regexeq.py)", "functions": ["CONTRACT_NAME_REGEX"]}
    ctx.parts.append(row)
    if r.returncode:
        ctx.undecided.append("regexeq: the pattern is not public any more: " + r.stderr[-300:]); return
    exe = f"{kb.BUILD}/native/target/debug/rx"
    pat = subprocess.run([exe], capture_output=True, text=True).stdout.rstrip("\n")
    row["pattern"] = pat
    try:
        diffs, states, classes = differences(pat)
    except Exception as x:
        ctx.undecided.append(f"regexeq: pattern outside the comparer's syntax: {x!r}"); diffs = None
    ctx.obligations += 1
    if diffs == []:
        ctx.discharged += 1
        row.update(states=states, classes=classes, verdict="same language"); return
    # which of the differing strings does the real constructor get wrong?
    cand = [w for w, _ in diffs or []]
    for n in range(0, 44):
        cand += ["a" * n, "a" * max(n - 1, 0) + "-", "_" * n, "1" + "a" * n, "a" * n + "\n", "\n" + "a" * n, "a" * n + "é", "a" * n + " "]
    cand += ["__transient", "x__transient", "__transientx", "__transient\n"]
    cand = [w for w in dict.fromkeys(cand)]
    o = subprocess.run([exe, "x"], input="".join(w.encode().hex() + "\n" for w in cand), capture_output=True, text=True).stdout.split()
    for w, got in zip(cand, o):
        q = (0, 0)
        for ch in w: q = spec_step(q, ord(ch))
        if spec_ok(q) != (got == "1"):
            ctx.violation("CONTRACT_NAME_REGEX", {"backend": "automaton equivalence", "pattern": pat, "input_hex": w.encode().hex(), "input": w,
                "failure": f"ContractName::new({w!r}) " + ("accepts" if got == "1" else "refuses or alters") + " it; the grammar says otherwise",
                "how_to_replay": f"printf '{w.encode().hex()}\\n' | {exe} x   # 1 = accepted"}, True)
            return
    if diffs: ctx.undecided.append(f"regexeq: the pattern differs from the grammar ({diffs[0]}) but the constructor agrees on it")
