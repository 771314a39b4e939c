#!/usr/bin/env python3
"""Replay concrete input vectors against the natively compiled real code.

usage: replay.py SO ENTRY TIMEOUT   (stdin: JSON list of input vectors, stdout: JSON list of outcomes)
"""
import ctypes, json, os, signal, sys, tempfile, time, resource


def main():
    so, entry, tmo = sys.argv[1], sys.argv[2], float(sys.argv[3])
    vecs = json.load(sys.stdin)
    lib = ctypes.CDLL(so)
    fn = getattr(lib, entry)
    res = []
    for v in vecs:
        fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            os.dup2(fo.fileno(), 1)
            os.dup2(fe.fileno(), 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, tmo)
            arr = (ctypes.c_uint64 * max(1, len(v)))(*[x & (2**64 - 1) for x in v])
            lib.rv_set_inputs(arr, ctypes.c_size_t(len(v)))
            fn()
            n = lib.rv_finish()
            # Rust's stdout is line buffered through its own handle; nothing left to flush
            os._exit(101 if n else 0)
        _, st = os.waitpid(pid, 0)
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode("utf8", "replace")
        err = fe.read().decode("utf8", "replace")
        code = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        kind = {0: "ok", 101: "check", 102: "assume", -signal.SIGALRM: "timeout", -signal.SIGABRT: "panic"}.get(code, "crash")
        res.append({
            "kind": kind,
            "code": code,
            "obs": [int(l.split()[1]) for l in out.splitlines() if l.startswith("RV_OBS")],
            "checks": [int(l.split()[1]) for l in err.splitlines() if l.startswith("RV_CHECK_FAIL")],
            "err": "\n".join(l for l in err.splitlines() if not l.startswith("note:"))[:600],
        })
    json.dump(res, sys.stdout)


main()
