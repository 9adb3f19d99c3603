#!/usr/bin/env python3
"""Generates, from /repo's current working tree, the crate that is verified.

/repo's own manifest cannot be resolved offline (the git dependency `manul` is absent), so the crate under
verification is a *view* of /repo: every source file is a symlink to the file in /repo/src; only `lib.rs`,
`tools.rs`, `Cargo.toml` and `Cargo.lock` are rewritten, and only by removing the items that need `manul`
(see DROP_*), plus - for the replay crate - by appending `mod verif_replay;` to lib.rs.
No function body of /repo is altered."""
import os, re, sys, shutil

DROP_LIB = ["protocols", "tests"]
DROP_TOOLS = ["protocol_shortcuts", "protocol_shortcuts_dev"]
ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"


def drop(text, names):
    for name in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + name + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + name + r"::[^;]*;[^\n]*\n", "", text, flags=re.M)
    return text


def gen(out, repo="/repo", replay=None, features=(), drop_tools=DROP_TOOLS, extra_lib="", rounds=False):
    """rounds: with src/protocols, over the interface of `manul` in shim/manul/src/rounds.rs"""
    if rounds:
        drop_tools = ["protocol_shortcuts_dev"]
    os.makedirs(out + "/src", exist_ok=True)
    rd = lambda p: open(os.path.join(repo, p)).read()

    def wr(p, text):
        p = os.path.join(out, p)
        if os.path.islink(p):
            os.remove(p)
        with open(p, "w") as f:
            f.write(text)

    lib = drop(rd("src/lib.rs"), ["tests"] if rounds else DROP_LIB)
    lib += extra_lib
    if replay:
        lib += "\n#[allow(missing_docs)]\npub mod verif_replay;\n"
    wr("src/lib.rs", lib)
    wr("src/tools.rs", drop(rd("src/tools.rs"), drop_tools))
    skip = {"lib.rs", "tools.rs", "tests.rs", "tests"} | (set() if rounds else {"protocols.rs", "protocols"})
    want = {x for x in os.listdir(repo + "/src") if x not in skip}
    for old in os.listdir(out + "/src"):
        p = f"{out}/src/{old}"
        if os.path.islink(p):
            os.remove(p)
    for name in want:
        os.symlink(f"{repo}/src/{name}", f"{out}/src/{name}")
    if replay:
        os.symlink(replay, out + "/src/verif_replay")
        os.makedirs(out + "/src/bin", exist_ok=True)
        wr("src/bin/verif_main.rs", "fn main() { synedrion::verif_replay::serve() }\n")
    if not os.path.lexists(out + "/README.md"):
        os.symlink(repo + "/README.md", out + "/README.md")
    toml = re.sub(r"^manul[ \t]*=.*\n", "", rd("Cargo.toml"), flags=re.M)
    shim = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim/manul")
    feat = ', features = ["rounds"]' if rounds else ""
    toml = toml.replace("[dependencies]\n", f'[dependencies]\nmanul = {{ path = "{shim}"{feat} }}\n', 1)
    # benches / examples / dev-dependencies are not part of the verified crate
    toml = re.sub(r"^\[\[(?:bench|example)\]\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    if replay:
        toml = toml.replace("[dependencies]\n", '[dependencies]\nserde_json = "1"\n', 1)
        toml += "\n[profile.dev]\nopt-level = 2\ndebug = false\n"
    toml += "\n[workspace]\n"
    wr("Cargo.toml", toml)
    blocks = re.split(r"\n(?=\[\[package\]\]\n)", rd("Cargo.lock"))
    blocks = [b for b in blocks if 'name = "manul"' not in b]
    wr("Cargo.lock", "\n".join(blocks).replace(' "manul",\n', ""))
    return out


if __name__ == "__main__":
    gen(sys.argv[1])
