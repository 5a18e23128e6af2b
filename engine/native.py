"""Runs harness entry points natively, in a subprocess (panics abort)."""
import json
import os
import subprocess
import sys

import build

WORKER = r"""
import ctypes, json, sys
lib = ctypes.CDLL(sys.argv[1])
rows = json.load(sys.stdin)
for i, (fn, ret, args) in enumerate(rows):
    f = getattr(lib, fn)
    f.restype = {"u32": ctypes.c_uint32, "u64": ctypes.c_uint64, "f64": ctypes.c_double, "void": None}[ret]
    a, outs = [], []
    for k, v in args:
        if k == "f":
            a.append(ctypes.c_double(float.fromhex(v)))
        elif k == "b":
            a.append(ctypes.c_bool(v))
        elif k == "i":
            a.append(ctypes.c_uint64(v & (2**64 - 1)))
        elif k == "u32":
            a.append(ctypes.c_uint32(v & (2**32 - 1)))
        elif k == "o":
            o = (ctypes.c_double * len(v))(*[float.fromhex(x) for x in v])
            outs.append(("f", o))
            a.append(o)
        elif k == "ob":
            o = (ctypes.c_uint8 * v)()
            outs.append(("b", o))
            a.append(o)
        elif k == "oi":
            o = (ctypes.c_uint64 * v)()
            outs.append(("i", o))
            a.append(o)
        elif k == "s":
            s = bytes.fromhex(v)
            a.append(ctypes.create_string_buffer(s, max(len(s), 1)))
        elif k == "sl":
            s = bytes.fromhex(v)
            a.append(ctypes.create_string_buffer(s, max(len(s), 1)))
            a.append(ctypes.c_uint64(len(s)))
    r = f(*a)
    if ret == "f64":
        r = r.hex()
    res = []
    for k, o in outs:
        res.append([x.hex() for x in o] if k == "f" else list(o))
    print(json.dumps([i, r, res]), flush=True)
"""


def hx(x):
    return float(x).hex()


def run(rows, variant="std", timeout=20):
    """rows: [(fn, ret, args)] -> list of ("ok", ret, outs) / ("panic", msg) / ("hang",)"""
    lib = build.library(variant)
    res = [None] * len(rows)
    start = 0
    while start < len(rows):
        p = subprocess.Popen(
            [sys.executable, "-c", WORKER, lib], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
            env=dict(os.environ, RUST_BACKTRACE="0"),
        )
        hang = False
        try:
            out, err = p.communicate(json.dumps(rows[start:]), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            hang = True
        last = -1
        for line in out.splitlines():
            try:
                i, r, o = json.loads(line)
            except ValueError:
                continue
            fn, ret, args = rows[start + i]
            if ret == "f64":
                r = float.fromhex(r)
            outs = []
            for v in o:
                outs.append([float.fromhex(x) if isinstance(x, str) else x for x in v])
            res[start + i] = ("ok", r, outs)
            last = i
        done = start + last + 1
        if done >= len(rows):
            break
        res[done] = ("hang",) if hang else ("panic", err.strip()[-400:])
        start = done + 1
    return res


def floats(env, names):
    return [("f", hx(env[n])) for n in names]


def out8():
    return ("o", [hx(0.1 * j + 0.3) for j in range(8)])
