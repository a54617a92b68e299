#!/usr/bin/env python3
"""Makes /opt/vp/ws, a cargo workspace with the members of /repo that can be resolved here.

Every member's sources are symlinks into /repo. /repo/Cargo.toml takes bevy_replicon from git, which is not
reachable, so the workspace leaves out what needs a git dependency:
  - members under crates/ with a required git dependency, their own or that of a member they require;
  - in the remaining members, optional dependencies on those, and the features that need them.
Nothing else of the manifests changes. They are derived anew from /repo's on each run, and written only if
they differ, so that cargo stays incremental."""

import json
import os
import re
import shutil
import sys
import tomllib

REPO, WS, HERE = "/repo", sys.argv[1], sys.argv[2]


def load(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def key(k):
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else json.dumps(k)


def value(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{key(k)} = {value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)


def feature_docs(path):
    """The "##" comments above each feature: lightyear's lib.rs reads them through document_features."""
    docs, found = [], {}
    for line in open(path, encoding="utf-8"):
        if line.startswith("##"):
            docs.append(line)
        else:
            if m := re.match(r"([A-Za-z0-9_-]+) = \[", line):
                found[m[1]] = "".join(docs)
            docs = []
    return found


def dump(d, docs={}):
    """Top-level tables hold one inline value per line, which is all cargo needs."""
    out = [f"{key(k)} = {value(v)}\n" for k, v in d.items() if not table(v)]
    for k, v in d.items():
        if isinstance(v, dict):
            out.append(f"\n[{key(k)}]\n")
            out += [
                (docs.get(a, "") if k == "features" else "") + f"{key(a)} = {value(b)}\n"
                for a, b in v.items()
            ]
        elif table(v):
            for e in v:
                out.append(f"\n[[{key(k)}]]\n")
                out += [f"{key(a)} = {value(b)}\n" for a, b in e.items()]
    return "".join(out)


def table(v):
    return isinstance(v, dict) or (
        isinstance(v, list) and bool(v) and all(isinstance(e, dict) for e in v)
    )


def write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    elif os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)


def dep_tables(m):
    for holder in [m, *m.get("target", {}).values()]:
        for kind in ("dependencies", "dev-dependencies", "build-dependencies"):
            if kind in holder:
                yield holder[kind]


def strip(m, bad, gone_feats):
    """Takes the optional dependencies in bad out of m, with every feature that enables one, or that enables
    one of gone_feats {package: its features that went that way}. Returns whether anything went."""
    before = json.dumps(m)
    name = m["package"]["name"]
    gone_deps = {n for t in dep_tables(m) for n in t if n in bad}
    for t in dep_tables(m):
        for n in gone_deps & set(t):
            del t[n]
    feats = m.get("features", {})
    gone = gone_feats.setdefault(name, set())
    gone |= {d for d in gone_deps if d not in feats}

    def lost(e):
        dep, weak, feat = re.fullmatch(r"(?:dep:)?([^/?]+)(\?)?(?:/(.+))?", e).groups()
        if not feat:
            return dep in gone_deps or e in gone, True
        return dep in gone_deps or feat in gone_feats.get(dep, ()), not weak

    while True:
        more = {
            f
            for f, entries in feats.items()
            if f not in gone and f not in ("default", "std", "client", "server")
            and any(lost(e) == (True, True) for e in entries)
        }
        if not more:
            break
        gone |= more
    if feats:
        m["features"] = {f: [e for e in es if not lost(e)[0]] for f, es in feats.items() if f not in gone}
    return json.dumps(m) != before


def main():
    root = load(f"{REPO}/Cargo.toml")
    shared = root["workspace"]["dependencies"]
    members, manifests = {}, {}
    for path in root["workspace"]["members"]:
        if "*" in path or not os.path.isfile(f"{REPO}/{path}/Cargo.toml"):
            continue
        manifests[path] = load(f"{REPO}/{path}/Cargo.toml")
        members[manifests[path]["package"]["name"]] = path

    def is_git(name, spec):
        if isinstance(spec, dict) and spec.get("workspace"):
            spec = shared.get(name, {})
        return isinstance(spec, dict) and "git" in spec

    bad = set()
    while True:
        more = {
            name
            for name, path in members.items()
            if name not in bad
            and any(
                (is_git(d, s) or d in bad)
                and not (isinstance(s, dict) and s.get("optional"))
                for t in dep_tables(manifests[path])
                for d, s in t.items()
            )
        }
        if not more:
            break
        bad |= more
    git = {d for m in manifests.values() for t in dep_tables(m) for d, s in t.items() if is_git(d, s)}
    keep = {n: p for n, p in members.items() if n not in bad}

    # the members whose manifests differ from /repo's
    changed, gone_feats = set(), {}
    while True:
        more = {n for n, p in keep.items() if strip(manifests[p], bad | git, gone_feats)}
        if not more:
            break
        changed |= more

    os.makedirs(WS, exist_ok=True)
    link(f"{REPO}/.cargo", f"{WS}/.cargo")
    link(f"{REPO}/README.md", f"{WS}/README.md")
    link(HERE, f"{WS}/harness")
    ws = root["workspace"]
    ws["members"] = sorted(keep.values()) + ["harness"]
    ws["default-members"] = ws["members"]
    ws["dependencies"] = {d: s for d, s in shared.items() if d not in bad and d not in git}
    write(f"{WS}/Cargo.toml", dump(root))
    for name, path in members.items():
        here, there = f"{WS}/{path}", f"{REPO}/{path}"
        if name in bad:
            if os.path.islink(here):
                os.unlink(here)
            elif os.path.isdir(here):
                shutil.rmtree(here)
            continue
        m = manifests[path]
        if name not in changed:
            link(there, here)
            continue
        if os.path.islink(here):
            os.unlink(here)
        os.makedirs(here, exist_ok=True)
        for entry in os.listdir(there):
            if entry not in ("Cargo.toml", "target"):
                link(f"{there}/{entry}", f"{here}/{entry}")
        for entry in os.listdir(here):
            if os.path.islink(f"{here}/{entry}") and not os.path.lexists(f"{there}/{entry}"):
                os.unlink(f"{here}/{entry}")
        # cfg(feature = ...) of a feature that went would warn
        if m.get("lints", {}).get("workspace"):
            m["lints"] = json.loads(json.dumps(ws.get("lints", {})))
        m.setdefault("lints", {}).setdefault("rust", {})["unexpected_cfgs"] = "allow"
        write(f"{here}/Cargo.toml", dump(m, feature_docs(f"{there}/Cargo.toml")))
    with open(f"{WS}/left-out.txt", "w", encoding="utf-8") as f:
        f.write("".join(f"{members[n]}\n" for n in sorted(bad)))


main()
