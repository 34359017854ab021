#!/usr/bin/env python3
"""Builds the verification copy of the /repo crates.

The copy is the text of /repo's current working tree. Per crate exactly one
line is appended to lib.rs (`extern crate vshim as std;`), and the manifest is
regenerated so that the dependencies named in SHIMS resolve to their assumed
contracts under /verif/shims instead of the cached crates. Payloads of
StacksError and SBTCError that wrap another error are dropped where the error
is constructed or converted (drop_payloads).
"""
import os, re, shutil, sys, tomllib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHIMS = ["sha2", "ripemd", "regex", "once_cell", "hex"]

def drop_payloads(text):
    """SBTCError::BDKError(msg, err) -> (msg, vshim::dropped(err)), same for
    ElectrumError, and the declared payload types to match."""
    text = re.sub(r"\b(BDKError|ElectrumError)\(&'static str, [\w:]+\)", r"\1(&'static str, vshim::Dropped)", text)
    # #[from] payloads: the conversion is kept, the payload is not
    m = re.search(r"pub enum (StacksError|SBTCError) \{(.*?)\n\}", text, re.S)
    if m:
        tail = ""
        def thin(v):
            nonlocal tail
            tail += (f"\nimpl From<{v.group(2)}> for {m.group(1)} {{ fn from(e: {v.group(2)}) -> Self {{ "
                     f"vshim::dropped(e); {m.group(1)}::{v.group(1)}(vshim::Dropped) }} }}\n")
            return f"{v.group(1)}(vshim::Dropped)"
        body = re.sub(r"\b(\w+)\(#\[from\] ([\w:]+)\)", thin, m.group(2))
        text = text[:m.start(2)] + body + text[m.end(2):] + tail
    out, i = [], 0
    for m in re.finditer(r"SBTCError::(?:BDKError|ElectrumError)\(", text):
        if m.end() < i: continue
        k, depth, comma, q = m.end(), 1, None, False
        while k < len(text) and depth:
            c = text[k]
            if q:
                if c == "\\": k += 1
                elif c == '"': q = False
            elif c == '"': q = True
            elif c in "([{": depth += 1
            elif c in ")]}": depth -= 1
            elif c == "," and depth == 1 and comma is None: comma = k
            k += 1
        if comma is None: continue
        arg = text[comma + 1:k - 1].strip().rstrip(",").strip()
        out += [text[i:comma + 1], f" vshim::dropped({arg}))"]
        i = k
    return "".join(out) + text[i:]

def build(dest, crates=("stacks-core", "sbtc-core")):
    ws = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))["workspace"]["dependencies"]
    for c in crates:
        src, dst = f"{REPO}/{c}", f"{dest}/{c}"
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        os.makedirs(dst)
        shutil.copytree(f"{src}/src", f"{dst}/src")
        for f in os.listdir(src):
            if f.endswith(".md"):
                shutil.copy(f"{src}/{f}", dst)
        for d, _, fs in os.walk(f"{dst}/src"):
            for f in fs:
                t = open(f"{d}/{f}").read()
                u = drop_payloads(t)
                if u != t: open(f"{d}/{f}", "w").write(u)
        with open(f"{dst}/src/lib.rs", "a") as f:
            f.write("\n#[allow(unused_extern_crates)]\nextern crate vshim as std;\n")
        m = tomllib.load(open(f"{src}/Cargo.toml", "rb"))
        out = [f'[package]\nname = "{c}"\nversion = "{m["package"]["version"]}"\nedition = "{m["package"].get("edition","2021")}"\n',
               "[dependencies]", f'vshim = {{ path = "{VERIF}/shims/vshim" }}']
        for d, v in m["dependencies"].items():
            if d in SHIMS:
                out.append(f'{d} = {{ path = "{VERIF}/shims/{d}" }}')
            elif d in crates:
                out.append(f'{d} = {{ path = "../{d}" }}')
            else:
                feats = v.get("features", []) if isinstance(v, dict) else []
                base = ws.get(d, v)
                if isinstance(base, dict):
                    ver = base.get("version"); feats = feats + base.get("features", [])
                else:
                    ver = base
                fs = ", ".join(f'"{x}"' for x in feats)
                out.append(f'{d} = {{ version = "{ver}", features = [{fs}] }}')
        out.append('\n[lints.rust]\nunexpected_cfgs = "allow"\n')
        open(f"{dst}/Cargo.toml", "w").write("\n".join(out))

if __name__ == "__main__":
    build(sys.argv[1])
