"""Verus back end for stacks-core/src/c32.rs: the bodies of encode, decode (and
the c32check functions) are taken from /repo's current text on every run, put
into Verus' subset by the rewrites below, annotated at anchors, and verified
against the theory in verus/*.vrs. A lost anchor or a text Verus cannot read is
reported as undecided, never as a verdict."""
import json, os, re, subprocess, time
import kani_backend as kb

class Lost(Exception): pass

def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith("//", i):
            j = s.find("\n", i); i = len(s) if j < 0 else j
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        else:
            m = re.compile(r"b?'(\\.|[^\\'])'").match(s, i)
            if m: out.append(m.group(0)); i = m.end()
            else: out.append(s[i]); i += 1
    return "".join(out)

def match(s, i):
    """index after the bracket matching the one at i"""
    o = s[i]; c = {"(": ")", "[": "]", "{": "}"}[o]; d = 0; q = None
    lit = re.compile(r"b?'(\\.|[^\\'])'|\"(\\.|[^\\\"])*\"")
    while i < len(s):
        m = lit.match(s, i)
        if m: i = m.end(); continue
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise Lost("unbalanced " + o)

NOOP = re.compile(r"(?:(?:std|core)::hint::black_box\(\(\)\);|(?<=[;{}])\s*\(\);)")
def function(src, name):
    m = list(re.finditer(r"\bfn\s+" + name + r"\s*\(", src))
    if len(m) != 1: raise Lost(f"fn {name} not found once")
    p = match(src, m[0].end() - 1)
    b = src.index("{", p)
    return re.sub(r"\s+", " ", src[m[0].end():p - 1]).strip(" ,"), re.sub(r"\s+", " ", src[p:b]).strip(), NOOP.sub("", src[b + 1:match(src, b) - 1])

class Text:
    def __init__(self, fn, s): self.fn, self.s = fn, s
    def sub(self, pat, rep, count=1, opt=False):
        """replace every match of pat; there must be `count` (None: any) of them"""
        s, n = re.subn(pat, rep, self.s)
        if count is not None and n != count and not (opt and n == 0):
            raise Lost(f"{self.fn}: {n} matches of {pat!r}, expected {count}")
        self.s = s
    def call(self, pat, rep, count=1):
        """pat ends with an opening bracket; rep may use {0}, the bracketed text, and {1}.. groups"""
        n, i = 0, 0
        while True:
            m = re.compile(pat).search(self.s, i)
            if not m: break
            e = match(self.s, m.end() - 1)
            r = rep.format(self.s[m.end():e - 1], *m.groups())
            self.s = self.s[:m.start()] + r + self.s[e:]
            i = m.start() + len(r); n += 1
        if count is not None and n != count: raise Lost(f"{self.fn}: {n} matches of {pat!r}, expected {count}")
    def loop(self, pat, head, first="", after=None, last=""):
        """pat matches a loop header ending in its brace"""
        ms = list(re.finditer(pat, self.s))
        if len(ms) != 1: raise Lost(f"{self.fn}: {len(ms)} matches of {pat!r}, expected 1")
        m = ms[0]
        e = match(self.s, m.end() - 1)
        self.s = self.s[:m.start()] + m.expand(head) + m.expand(first) + self.s[m.end():e - 1] + last + "}" + (after or "") + self.s[e:]

EMPTY = "assert(suf({0}@, {0}@.len() as int) =~= Seq::<u8>::empty()); assert(Seq::<u8>::empty().reverse() =~= Seq::<u8>::empty()); assert(byts(Seq::<u8>::empty()) =~= Seq::<nat>::empty()); assert(digs(Seq::<u8>::empty()) =~= Seq::<nat>::empty());"
BIG = "0x1000_0000_0000_0000"

def common(t, param, conv):
    t.sub(r"let\s+" + param + r"\s*=\s*" + param + re.escape(conv) + r"\s*;", "")
    t.call(r"Vec::with_capacity\(", "Vec::new()", None)
    t.call(r"C32_ALPHABET\[", "alphabet({0})", None)

def ident(t, pat):
    m = re.findall(pat, t.s)
    if len(m) != 1: raise Lost(f"{t.fn}: {pat!r} matches {len(m)} times")
    return m[0]

def encode(src):
    sig, ret, body = function(src, "encode")
    m = re.fullmatch(r"(\w+): impl AsRef<\[u8\]>", sig)
    if not m or ret != "-> String": raise Lost("encode: signature")
    d = m.group(1)
    t = Text("encode", body)
    common(t, d, ".as_ref()")
    e = ident(t, r"let mut (\w+)\s*=\s*Vec::new\(\);"); t.sub(r"let mut \w+\s*=\s*Vec::new\(\);", f"let mut {e}: Vec<u8> = Vec::new();")
    b = ident(t, r"let mut (\w+)\s*=\s*0u32;")
    n = ident(t, r"let mut (\w+)\s*=\s*0;"); t.sub(r"let mut \w+\s*=\s*0;", f"let mut {n} = 0u32;")
    t.sub(r"while let Some\((\w+)\)\s*=\s*" + e + r"\.pop\(\)\s*\{", r"@POP \1 {")
    bounds = f"{d}@.len() < {BIG}"
    t.loop(r"for (\w+) in " + d + r"(?:\.iter\(\)|\.into_iter\(\))?\.rev\(\)\s*\{", f"""proof {{ lemma_p2(); {EMPTY.format(d)} }}
	let mut i_ = {d}.len();
	while i_ > 0
		invariant i_ <= {d}@.len(), {bounds}, {n} < 5, mid({d}@, i_ as int, {e}@, {b}, {n})
		decreases i_
	{{ i_ = i_ - 1; let \\1 = &{d}[i_]; proof {{ lemma_enc_byte({d}@, i_ + 1, {e}@, {b}, {n}); }}""", after=f" proof {{ lemma_enc_last({d}@, {e}@, {b}, {n}); }}")
    t.loop(r"while\s+" + n + r"\s*(>=|>|==)\s*(\d+)\s*\{", f"""while {n} \\1 \\2
			invariant i_ <= {d}@.len(), {n} < 13, mid({d}@, i_ as int, {e}@, {b}, {n})
			decreases {n}
		{{ proof {{ lemma_enc_char({d}@, i_ as int, {e}@, {b}, {n}); }}""")
    i = t.s.index("@POP"); j = match(t.s, t.s.index("{", i))
    inner = t.s[i:j]
    if inner.count("break;") != 1: raise Lost("encode: pop loop")
    inner = inner.replace("break;", f"proof {{ assert({e}@ =~= m); lemma_alpha_inv(m.last()); lemma_chars_canon(m); }} break;")
    t.s = t.s[:i] + inner + t.s[j:]
    t.loop(r"@POP (\w+) \{", f"""assert(is_chars({e}@) && val(digs({e}@), 32) == n256({d}@));
	loop
		invariant_except_break is_chars({e}@), val(digs({e}@), 32) == n256({d}@)
		ensures enc_tail({d}@, {e}@)
		decreases {e}@.len()
	{{ let ghost m = {e}@;
		let Some(\\1) = {e}.pop() else {{ proof {{ lemma_chars_canon({e}@); }} break; }};""",
        last="proof { lemma_alpha_inv(m.last()); lemma_pop_char(m); }")
    z = f"lead({d}@, |c: u8| zb(c))"
    t.loop(r"for (\w+) in " + d + r"(?:\.iter\(\))?\s*\{", f"""let ghost m = {e}@;
	proof {{ assert(m + zeros(0, 48) =~= m); assert(suf({d}@, 0) =~= {d}@); }}
	let mut j_ = 0usize;
	while j_ < {d}.len()
		invariant_except_break j_ <= {d}@.len(), {e}@ == m + zeros(j_ as nat, 48), {z} == j_ + lead(suf({d}@, j_ as int), |c: u8| zb(c))
		ensures {e}@ == m + zeros({z}, 48)
		decreases {d}@.len() - j_
	{{ let \\1 = &{d}[j_];
		proof {{ lemma_lead_step({d}@, j_ as int, |c: u8| zb(c)); lemma_zeros_push(m, j_ as nat, 48); }}
		j_ = j_ + 1;""", after=f" let ghost z = {z}; proof {{ lemma_assemble({e}@, m, z, 48); }}")
    t.sub(r"\b" + e + r"\.reverse\(\);", f"""vec_reverse(&mut {e});
	proof {{
		assert(enc_parts({d}@, {e}@, m));
		assert forall|i: int| 0 <= i < {e}@.len() implies {e}@[i] < 128 by {{
			if i >= z {{ let k = m.len() - 1 - (i - z); assert({e}@[i] == m[k]); lemma_alpha_inv(m[k]); }}
		}}
	}}""")
    t.sub(r"String::from_utf8\(" + e + r"\)\s*\.unwrap\(\)", f"string_of({e})")
    return f"""pub fn encode({d}: &[u8]) -> (res: Vec<u8>)
	requires {bounds}
	ensures is_encoding({d}@, res@)
{{{t.s}}}
"""

def decode(src):
    sig, ret, body = function(src, "decode")
    m = re.fullmatch(r"(\w+): impl AsRef<str>", sig)
    if not m or ret != "-> Result<Vec<u8>, C32Error>": raise Lost("decode: signature")
    s = m.group(1)
    t = Text("decode", body)
    common(t, s, ".as_ref().as_bytes()")
    t.sub(re.escape(s) + r"\.is_ascii\(\)", f"is_ascii({s})")
    e = ident(t, r"let mut (\w+)\s*=\s*Vec::new\(\);"); t.sub(r"let mut \w+\s*=\s*Vec::new\(\);", f"let mut {e}: Vec<u8> = Vec::new();")
    c = ident(t, r"let mut (\w+)\s*=\s*0u16;")
    n = ident(t, r"let mut (\w+)\s*=\s*0;"); t.sub(r"let mut \w+\s*=\s*0;", f"let mut {n} = 0u32;")
    t.sub(r"while let Some\((\w+)\)\s*=\s*" + e + r"\.pop\(\)\s*\{", r"@POP \1 {")
    t.sub(r"C32_BYTE_MAP\.get\(\*(\w+) as usize\)\.unwrap\(\)", r"byte_map(*\1)")
    v = ident(t, r"let Some\((\w+)\)\s*=\s*byte_map")
    t.sub(r"u16::from\(\*" + v + r"\)", f"({v} as u16)")
    t.sub(r"u8::try_from\(" + c + r"\)\s*\?", f"u8_try_from({c})?")
    bounds = f"{s}@.len() < {BIG}"
    t.sub(r"\b" + c + r"\s*\|=", f"proof {{ lemma_dec_char({s}@, i_ + 1, {e}@, {c}, {n}, {v}); }} {c} |=")
    t.loop(r"for (\w+) in " + s + r"(?:\.iter\(\))?\.rev\(\)\s*\{", f"""proof {{ lemma_p2(); {EMPTY.format(s)} }}
	let mut i_ = {s}.len();
	while i_ > 0
		invariant i_ <= {s}@.len(), {bounds}, {n} < 8, dmid({s}@, i_ as int, {e}@, {c}, {n}), forall|i: int| 0 <= i < {s}@.len() ==> {s}@[i] < 128
		decreases i_
	{{ i_ = i_ - 1; let \\1 = &{s}[i_];""", after=f" proof {{ lemma_dec_last({s}@, {e}@, {c}, {n}); }}")
    t.sub(r"if\s+" + n + r"\s*(>=|>|==)\s*(7|8|9)\s*\{", f"if {n} \\1 \\2 {{ proof {{ lemma_dec_byte({s}@, i_ as int, {e}@, {c}, {n}); }}")
    i = t.s.index("@POP"); j = match(t.s, t.s.index("{", i))
    inner = t.s[i:j]
    if inner.count("break;") != 1: raise Lost("decode: pop loop")
    inner = inner.replace("break;", f"proof {{ assert({e}@ =~= m); lemma_byts_canon(m); }} break;")
    t.s = t.s[:i] + inner + t.s[j:]
    t.loop(r"@POP (\w+) \{", f"""assert(val(byts({e}@), 256) == n32({s}@));
	loop
		invariant_except_break val(byts({e}@), 256) == n32({s}@)
		ensures dec_tail({s}@, {e}@)
		decreases {e}@.len()
	{{ let ghost m = {e}@;
		let Some(\\1) = {e}.pop() else {{ proof {{ lemma_byts_canon({e}@); }} break; }};""", last="proof { lemma_pop_byte(m); }")
    z = f"lead({s}@, |c: u8| zd(c))"
    t.loop(r"for (\w+) in " + s + r"(?:\.iter\(\))?\s*\{", f"""let ghost m = {e}@;
	proof {{ assert(m + zeros(0, 0) =~= m); assert(suf({s}@, 0) =~= {s}@); }}
	let mut j_ = 0usize;
	while j_ < {s}.len()
		invariant_except_break j_ <= {s}@.len(), {e}@ == m + zeros(j_ as nat, 0), {z} == j_ + lead(suf({s}@, j_ as int), |c: u8| zd(c))
		ensures {e}@ == m + zeros({z}, 0)
		decreases {s}@.len() - j_
	{{ let \\1 = &{s}[j_];
		proof {{ lemma_lead_step({s}@, j_ as int, |c: u8| zd(c)); lemma_zeros_push(m, j_ as nat, 0); lemma_zd(*\\1); }}
		j_ = j_ + 1;""", after=f" proof {{ lemma_assemble({e}@, m, {z}, 0); }}")
    t.sub(r"\b" + e + r"\.reverse\(\);", f"vec_reverse(&mut {e}); assert(dec_parts({s}@, {e}@, m));")
    return f"""pub fn decode({s}: &[u8]) -> (res: Result<Vec<u8>, C32Error>)
	requires {bounds}
	ensures res is Ok <==> all_digits({s}@), res is Ok ==> is_decoding({s}@, res->Ok_0@),
{{{t.s}}}
"""

def alphabet(src):
    m = re.findall(r"const C32_ALPHABET: &\[u8; 32\] = b\"([^\"\\]{32})\";", src)
    if len(m) != 1: raise Lost("C32_ALPHABET")
    t = ",".join(f"{ord(c)}u8" for c in m[0])
    return f"""pub fn alphabet(i: usize) -> (r: u8)
	requires i < 32
	ensures r == prop_alpha(i as nat)
{{ let t: [u8; 32] = [{t}]; assert(t@ == alphabet_spec()); t[i] }}
"""

def body_functions(part):
    return {"c32": [encode, decode], "c32check": [encode, decode]}[part["theory"]]

def assemble(part, canary=False):
    src = strip_comments(open(f"{kb.REPO}/stacks-core/src/c32.rs").read())
    i = src.find("#[cfg(test)]")
    if i >= 0: src = src[:i]
    text = open(f"{kb.VERIF}/verus/c32.vrs").read() + alphabet(src)
    for f in body_functions(part): text += f(src)
    if part["theory"] == "c32check":
        text += open(f"{kb.VERIF}/verus/c32check.vrs").read()
        import verusc32check
        text += verusc32check.functions(src)
    if canary:
        text += "fn canary(d: &[u8]) requires d@.len() < 100 { let r = encode(d); let b = decode(d); let m = byte_map(48); assert(false); }\n"
    return text + "fn main() {}\n}\n"

def verus(path, timeout=300):
    t0 = time.time()
    try:
        r = subprocess.run(["verus", path, "--triggers-mode", "silent", "--output-json", "--time", "--multiple-errors", "10", "--num-threads", "8"],
                           capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return None, "", "time limit", time.time() - t0
    try: j = json.loads(out)
    except ValueError: j = {}
    return j.get("verification-results"), out, err, time.time() - t0

def run(ctx, part):
    os.makedirs(f"{kb.BUILD}/verus", exist_ok=True)
    row = {"backend": "verus 0.2026.09.13 / z3", "functions": part["functions"], "extraction": __doc__}
    ctx.parts.append(row)
    try:
        text = assemble(part)
    except Lost as e:
        row["status"] = "undecided"; ctx.undecided.append(f"verus {part['theory']}: source no longer matches the extraction ({e})")
        return
    path = f"{kb.BUILD}/verus/{part['theory']}.rs"
    open(path, "w").write(text)
    ctx.cmds.append(f"verus {path} --triggers-mode silent")
    res, out, err, dt = verus(path, min(300, ctx.left()))
    row["wall_s"] = round(dt, 1)
    if not res or res.get("encountered-vir-error") or (not res.get("success") and not res.get("errors")):
        row["status"] = "undecided"; row["why"] = err[-1500:]
        ctx.undecided.append(f"verus {part['theory']}: no verdict: {err.strip()[:300]}")
        return
    ok, bad = res.get("verified", 0), res.get("errors", 0)
    ctx.obligations += ok + bad; ctx.discharged += ok
    row.update(verified=ok, errors=bad)
    lim = len(re.findall(r"resource limit \(rlimit\) exceeded", err, re.I))
    if lim and lim >= bad:
        row["status"] = "undecided"; ctx.undecided.append(f"verus {part['theory']}: resource limit"); return
    if bad == 0:
        cpath = f"{kb.BUILD}/verus/{part['theory']}_canary.rs"
        open(cpath, "w").write(assemble(part, True))
        cres, _, cerr, _ = verus(cpath, min(300, ctx.left()))
        row["status"] = "ok"
        if not cres or cres.get("errors") != 1:
            row["status"] = "undecided"; ctx.undecided.append(f"verus {part['theory']}: false is provable from the contracts (vacuous)")
            ctx.discharged -= ok
        row["vacuity"] = "assert(false) after calling every function under contract is refuted"
        return
    row["status"] = "failed"
    fns = sorted(set(re.findall(r"fn (\w+)\(", "\n".join(blk for blk in re.findall(r"^error: .*?(?=^error|\Z)", err, re.M | re.S)))))
    # reported with a failing input if sampling finds one, else without
    ctx.pending.append((f"verus {part['theory']}", {"backend": "verus/z3", "failed": re.findall(r"^error: (.*)$", err, re.M), "functions": fns, "verifier_output": err[-6000:], "extracted": path}))
