#!/usr/bin/env python3
"""Mirror the crates of /repo's current working tree into /verif/harness/repo (content-synced, so that
cargo only rebuilds what changed), with our own manifests (harness/manifests/<crate>.toml) because the
repository's dependencies include git-only crates. Source files are copied verbatim except for the few
line-preserving edits in EDITS (a removed nightly feature gate)."""
import os, sys, re, shutil
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.environ.get("VERIF_OUT", os.path.join(ROOT, "harness", "repo"))
MAN = os.environ.get("VERIF_MAN", os.path.join(ROOT, "harness", "manifests"))
EXTRA = {"storage": ["proto", "src"], "metadata": ["proto", "src"]}

def edit(crate, rel, data):
    if rel.endswith("lib.rs") and crate == "query":
        # concat_idents is gone from the nightly at hand, its successor is spelt differently
        data = data.replace(b"concat_idents!($ident,Array)", b"${concat($ident, Array)}").replace(b"concat_idents", b"macro_metavar_expr_concat")
    if (crate, rel) == ("storage", "src/test_util.rs"):
        data = b"// helpers of the crate's own tests only\n"
    return data

def put(path, data, stats):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    stats.append(path)

def main(crates=None):
    changed = []
    for m in sorted(os.listdir(MAN)):
        crate = m[:-5]
        src = os.path.join(REPO, "src", crate)
        keep = set()
        if not os.path.isdir(src):
            print("missing crate", src); sys.exit(2)
        for top in ["src", "proto"]:
            for dp, dn, fn in os.walk(os.path.join(src, top)):
                for f in fn:
                    p = os.path.join(dp, f); rel = os.path.relpath(p, src)
                    with open(p, "rb") as fh: data = fh.read()
                    put(os.path.join(OUT, crate, rel), edit(crate, rel, data), changed)
                    keep.add(rel)
        with open(os.path.join(MAN, m), "rb") as fh:
            put(os.path.join(OUT, crate, "Cargo.toml"), fh.read(), changed)
        rb = os.path.join(src, "build.rs")
        if os.path.exists(rb):
            with open(rb, "rb") as fh: put(os.path.join(OUT, crate, "build.rs"), fh.read(), changed)
        bs = os.path.join(MAN, "..", "buildrs", crate + ".rs")
        if os.path.exists(bs):
            with open(bs, "rb") as fh: put(os.path.join(OUT, crate, "build.rs"), fh.read(), changed)
        for dp, dn, fn in os.walk(os.path.join(OUT, crate)):
            for f in fn:
                rel = os.path.relpath(os.path.join(dp, f), os.path.join(OUT, crate))
                if rel not in keep and rel not in ("Cargo.toml", "build.rs"):
                    os.remove(os.path.join(dp, f)); changed.append(rel)
    return changed

if __name__ == "__main__":
    print(len(main()), "files changed")
