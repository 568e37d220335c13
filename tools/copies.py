"""Copies of /repo in which another tag-scanning backend is selected.

A copy is the sources of /repo with a different package name, so that several
of them can be linked into one process, and:
  scalar  nothing else; it is built without the `simd` feature
  sse2    `target_feature = "avx2"` made false
  neon    the aarch64 code selected, with the intrinsics replaced by
          neon_shim.rs
"""
import os
import re

KINDS = ["scalar", "sse2", "neon"]


def manifest(text, kind):
    out, keep = [], True
    for line in text.splitlines():
        if line.startswith("["):
            name = line.strip()
            keep = not (name.startswith("[dev-dependencies") or name.startswith("[[")
                        or name in ("[lib]", "[workspace]") or name.startswith("[profile"))
        if keep:
            out.append(line)
    text = "\n".join(out) + "\n\n[lib]\nname = \"tmi_%s\"\npath = \"src/lib.rs\"\ntest = false\ndoctest = false\n" % kind
    return re.sub(r'^name = "tmi"', 'name = "tmi-%s"' % kind, text, count=1, flags=re.M)


def source(path, text, kind):
    if kind == "sse2":
        text = re.sub(r'target_feature\s*=\s*"avx(2|512f|512bw)"', "any()", text)
    if kind == "neon":
        text = re.sub(r'target_arch\s*=\s*"x86_64"', "any()", text)
        text = re.sub(r'target_arch\s*=\s*"aarch64"', "all()", text)
        text = re.sub(r'target_feature\s*=\s*"neon"', "all()", text)
        text = re.sub(r'\b(core|std)::arch::aarch64\b', "crate::__neon_shim", text)
        text = re.sub(r'\b(vshrn_n_u16|vget_lane_u64|vgetq_lane_u64)::<\s*([^<>]*?)\s*>\(([^()]*(?:\([^()]*\))?[^()]*)\)',
                      r'\1(\3, \2)', text)
        if path == "lib.rs":
            text += "\n#[path = \"neon_shim.rs\"]\nmod __neon_shim;\n"
    return text


def write(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def make(repo, dest, kind, tools):
    wanted = {}
    with open(os.path.join(repo, "Cargo.toml"), encoding="utf-8") as f:
        wanted["Cargo.toml"] = manifest(f.read(), kind).encode()
    src = os.path.join(repo, "src")
    for base, _, files in os.walk(src):
        for name in files:
            if not name.endswith(".rs"):
                continue
            full = os.path.join(base, name)
            rel = os.path.relpath(full, src)
            with open(full, encoding="utf-8") as f:
                wanted["src/" + rel] = source(rel, f.read(), kind).encode()
    if os.path.exists(os.path.join(repo, "README.md")):
        with open(os.path.join(repo, "README.md"), "rb") as f:
            wanted["README.md"] = f.read()
    if kind == "neon":
        with open(os.path.join(tools, "neon_shim.rs"), "rb") as f:
            wanted["src/neon_shim.rs"] = f.read()
    for rel, data in wanted.items():
        write(os.path.join(dest, rel), data)
    for base, _, files in os.walk(os.path.join(dest, "src")):
        for name in files:
            full = os.path.join(base, name)
            if os.path.relpath(full, dest) not in wanted:
                os.unlink(full)
