#!/usr/bin/env python3
"""Writes the build overlay that adds the harness packages to /repo's module.
usage: overlay.py <verif> <work> [flag...]
By default package time is replaced by vmc/vtime in pkg/hnsw (no periodic
background work); flag tick leaves it.
flag sync: package sync is replaced by vmc/vsync in the packages under test.
flag fs: the calls of package os that change directories go through vmc/vos in
pkg/hnsw.
flag web: fairOS' constructor is replaced by vmc/vdfs in the server packages."""
import json, os, re, subprocess, sys
here, work, flags = sys.argv[1], sys.argv[2], sys.argv[3:]
repo = "/repo"
rep = {}
root = os.path.join(here, "harness")
for d, _, files in os.walk(root):
    rel = os.path.relpath(d, root)
    for f in files:
        if f.endswith(".go"):
            rep[os.path.join(repo, "vmc", rel, f)] = os.path.join(d, f)
rules = []
def imp(s, pkg, repl):
    """the import of pkg, whatever it is called in the file, becomes one of vmc/repl"""
    return re.sub(r'(?m)^([ \t]*)(import[ \t]+)?([A-Za-z_]\w*[ \t]+|\.[ \t]+)?"%s"[ \t]*(//.*)?$' % pkg,
                  lambda m: '%s%s%s "github.com/fairDataSociety/FaVe/vmc/%s"' % (m[1], m[2] or "", (m[3] or pkg).strip(), repl), s)
if "tick" not in flags:
    rules.append((("pkg/hnsw",), None, lambda s: imp(s, "time", "vtime")))
if "sync" in flags:
    rules.append((("pkg", "adapters"), None, lambda s: imp(s, "sync", "vsync")))
if "web" in flags:
    rules.append((("adapters", "restapi", "cmd"), r'"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"', r'"github.com/fairDataSociety/FaVe/vmc/vdfs"'))
FS = re.compile(r'\bos\.(Rename|Remove|RemoveAll|Truncate|Create|OpenFile|WriteFile)\(')
def fs(s):
    if not re.search(r'(?m)^[ \t]*(import[ \t]+)?"os"[ \t]*(//.*)?$', s) or not FS.search(s):
        return s
    s = FS.sub(r'vos.\1(', s)
    # the last line keeps both imports used whatever is left of them
    return re.sub(r'(?m)^package hnsw$', 'package hnsw\nimport vos "github.com/fairDataSociety/FaVe/vmc/vos"', s, 1) + "\nvar _, _ = os.Getpid, vos.Remove\n"
if "fs" in flags:
    rules.append((("pkg/hnsw",), None, fs))
n = 0
for tops, pat, new in rules:
    for top in tops:
        for d, _, files in os.walk(os.path.join(repo, top)):
            for f in files:
                p = os.path.join(d, f)
                if not f.endswith(".go") or f.endswith("_test.go"):
                    continue
                s = open(rep.get(p, p)).read()
                t = re.sub(pat, new, s) if pat else new(s)
                if t != s:
                    n += 1
                    q = os.path.join(work, "ov%d.go" % n)
                    open(q, "w").write(t)
                    rep[p] = q
# Two races inside fairOS' feeds that no code of FaVe can influence, and that
# would make rare executions fail by chance (see DESIGN.md, dependency):
# - an update that begins in one second and ends in the next can be lost: the
#   feeds take the time from one clock that stands still within an operation
# - a cache entry is published before it is filled: it is filled first
deps = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/fairdatasociety/fairOS-dfs"], cwd=repo, capture_output=True, text=True).stdout.strip()
p = os.path.join(deps, "pkg", "feed", "handler.go")
if deps and os.path.exists(p):
    s = open(p).read()
    t = s.replace("time.Now().Unix()", "TimestampProvider.Now().Time")
    m = re.search(r"\t\tentry = &CacheEntry\{\}\n(\t\terr := h\.set\(&request\.Feed, entry\)\n\t\tif err != nil \{\n\t\t\treturn nil, err\n\t\t\}\n)\t\}\n\n(\t// update our source entry map\n.*?)\treturn entry, nil\n", t, re.S)
    if m:
        t = t[:m.start()] + "\t\tentry = &CacheEntry{}\n\t} else {\n\t\tc := *entry\n\t\tentry = &c\n\t}\n" + m.group(2) + m.group(1).replace("err := h.set", "err = h.set") + "\treturn entry, nil\n" + t[m.end():]
    if t != s:
        q = os.path.join(work, "feedhandler.go")
        open(q, "w").write(t)
        rep[p] = q
json.dump({"Replace": rep}, open(os.path.join(work, "overlay.json"), "w"))
