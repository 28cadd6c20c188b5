#!/usr/bin/env python3
"""Generates the build overlay: the harness as package zzverif of the module in /repo and, with --std,
copies of the syscall wrappers of the Go standard library whose file operations go through a hook.

usage: gen_overlay.py [--std] GOROOT REPO HARNESS_DIR OUT_DIR
"""
import json, os, re, sys

HOOKED = ["faccessat", "faccessat2", "fchmodat", "linkat", "openat", "readlinkat", "symlinkat", "unlinkat",
          "Close", "Fallocate", "Fchmod", "Fchownat", "Fdatasync", "Flock", "Fsync", "Mkdirat", "read", "write",
          "Fstat", "Ftruncate", "pread", "pwrite", "Renameat", "Seek", "fstatat", "utimensat"]

HOOK_SRC = """
// VerifCall is a file operation that is about to be executed.
type VerifCall struct {
	Name  string
	Fd    int
	Fd2   int
	Path  string
	Path2 string
	Buf   []byte
	Flags int
	Off   int64
	N     int64
	Err   error
	Run   func()
}

// VerifHook, when set, decides of each file operation.
var VerifHook func(c *VerifCall)
"""


def die(msg):
    sys.stderr.write("gen_overlay: %s\n" % msg)
    sys.exit(3)


def params(sig):
    out = []
    for part in [x.strip() for x in sig.split(",") if x.strip()]:
        name, typ = part.split(" ", 1)
        out.append((name, typ))
    return out


def hook_file(src):
    extra = []
    for name in HOOKED:
        m = re.search(r"^func %s\(([^)]*)\) \(([^)]*)\) \{$" % name, src, re.M)
        if not m:
            die("the function %s was not found in the standard library" % name)
        ps, rs = params(m.group(1)), params(m.group(2))
        src = src.replace(m.group(0), m.group(0).replace("func %s(" % name, "func verifOrig_%s(" % name), 1)
        fields, args, paths, fds = ['Name: "%s"' % name], [], ["Path", "Path2"], ["Fd", "Fd2"]
        for n, t in ps:
            arg = n
            if t == "string":
                fields.append("%s: %s" % (paths.pop(0), n))
            elif t == "[]byte":
                fields.append("Buf: %s" % n)
                arg = "c.Buf"
            elif n.endswith("fd") or n.endswith("dirfd"):
                fields.append("%s: %s" % (fds.pop(0), n))
            elif n in ("flags", "how", "whence", "flag") and t == "int":
                fields.append("Flags: %s" % n)
            elif t == "int64" and n in ("offset", "length", "off"):
                fields.append("Off: %s" % n)
                arg = "c.Off" if name in ("Ftruncate",) else n
            args.append(arg)
        call = "verifOrig_%s(%s)" % (name, ", ".join(args))
        plain = "verifOrig_%s(%s)" % (name, ", ".join(n for n, _ in ps))
        body = ["func %s(%s) (%s) {" % (name, m.group(1), m.group(2)), "\tif VerifHook == nil {", "\t\treturn " + plain, "\t}",
                "\tc := &VerifCall{%s}" % ", ".join(fields)]
        if len(rs) == 1:
            body += ["\tc.Run = func() { c.Err = %s }" % call, "\tVerifHook(c)", "\treturn c.Err"]
        else:
            body += ["\tc.Run = func() {", "\t\tn, e := %s" % call, "\t\tc.N, c.Err = int64(n), e", "\t}", "\tVerifHook(c)",
                     "\treturn %s(c.N), c.Err" % rs[0][1]]
        body.append("}")
        extra.append("\n".join(body))
    return src + HOOK_SRC + "\n" + "\n\n".join(extra) + "\n"




def main():
    args = sys.argv[1:]
    std = "--std" in args
    args = [a for a in args if a != "--std"]
    goroot, repo, harness, out = args
    os.makedirs(out, exist_ok=True)
    replace = {}
    for f in sorted(os.listdir(harness)):
        if not f.endswith(".go"):
            continue
        if f.endswith("_std.go") and not std:
            continue
        if f.endswith("_nostd.go") and std:
            continue
        replace[os.path.join(repo, "zzverif", f)] = os.path.join(harness, f)
    replace[os.path.join(repo, "libs/zzpoint/point.go")] = os.path.join(harness, "zzpoint", "point.go")
    if std:
        p = os.path.join(goroot, "src/syscall/zsyscall_linux_amd64.go")
        dst = os.path.join(out, "zsyscall_linux_amd64.go")
        open(dst, "w").write(hook_file(open(p).read()))
        replace[p] = dst
        p = os.path.join(goroot, "src/internal/poll/copy_file_range_unix.go")
        src = open(p).read()
        mark = "if !supportCopyFileRange() {"
        if mark not in src:
            die("CopyFileRange has no marker")
        dst = os.path.join(out, "copy_file_range_unix.go")
        open(dst, "w").write(src.replace(mark, "if true || !supportCopyFileRange() {"))
        replace[p] = dst
    json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)


main()
