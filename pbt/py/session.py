"""Runs one scripted session of the Python binding and writes what happened to a file.
usage: session.py SCRIPT RESULT    (CENTAURUS_DL_PATH and PYTHONPATH are set by the caller)
Script: one command per line, fields separated by tabs.
"""
import ctypes
import multiprocessing
import os
import signal
import sys

# Workers are processes forked by the binding: none may outlive this one.
_prctl = ctypes.CDLL(None).prctl
_parent = os.getpid()


def _child():
    _prctl(1, signal.SIGKILL, 0, 0, 0)      # PR_SET_PDEATHSIG
    if os.getppid() != _parent:
        os._exit(1)


os.register_at_fork(after_in_child=_child)

from centaurus import Context
from centaurus import corelib

script, result = sys.argv[1], sys.argv[2]
out = open(result, "w")


def gives(seed, name, text):
    h = (2166136261 ^ seed) & 0xffffffff
    for b in name.encode() + b"\0" + text[-64:] + b"\0" + str(len(text)).encode():
        h = ((h ^ b) * 16777619) & 0xffffffff
    h ^= h >> 15
    return h % 20


def ser(v):
    if v is None:
        return "N"
    if isinstance(v, bool):
        return "T" if v else "F"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, list):
        return "(" + v[0] + ":" + v[1] + "".join(" " + ser(x) for x in v[2]) + ")"
    return "?" + repr(v)


class Listener(object):
    def __init__(self, seed, log):
        self.seed = seed
        self.log = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600) if log else -1

    def handle(self, name, ctx):
        text = ctx.readbytes()
        kids = list(ctx)
        odd = ""
        if len(ctx) != len(kids) or [ctx[i] for i in range(len(ctx))] != kids or list(ctx) != kids:
            odd = "!len"
        if [ctx[i] for i in range(-len(ctx), 0)] != kids or list(reversed(ctx)) != kids[::-1]:
            odd += "!neg"
        for i in (len(ctx), len(ctx) + 7, -len(ctx) - 1, -len(ctx) - 7):
            try:
                ctx[i]
                odd += "!past"
            except IndexError:
                pass
        if ctx.read() != text.decode("utf-8") or ctx.read().encode() != text:
            odd += "!read"
        node = [name + odd, text.hex(), kids]
        g = gives(self.seed, name, text)
        if self.log >= 0:
            os.write(self.log, (ser(node) + "\n").encode())
        return None if g < 3 else 0 if g == 3 else "" if g == 4 else False if g == 5 else node


def listener(seed, log, names, default):
    d = {}
    for n in names:
        if n:
            d["parse" + n] = (lambda n: lambda self, ctx: self.handle(n, ctx))(n)
    if default:
        d["defaultact"] = lambda self, ctx: self.handle("*", ctx)
    return type("L", (Listener,), d)(seed, log)


ctx = {}
for line in open(script):
    f = line.rstrip("\n").split("\t")
    try:
        if f[0] == "context":
            ctx[f[1]] = Context(f[2])
        elif f[0] == "attach":
            ctx[f[1]].attach(listener(int(f[2]), f[3], f[4].split(","), f[5] == "1"))
        elif f[0] == "start":
            ctx[f[1]].start(int(f[2]))
        elif f[0] == "parse":
            out.write("value " + ser(ctx[f[1]].parse(f[2])) + "\n")
        elif f[0] == "stop":
            ctx[f[1]].stop()
        elif f[0] == "grammar":
            g = corelib.Grammar(f[1])
            n = g.get_machine_num()
            out.write("grammar " + ",".join("%d:%s:%d" % (i, g.get_machine_name(i), g.get_machine_id(g.get_machine_name(i))) for i in range(1, n + 1)) + "\n")
            if f[2]:
                g.optimize()
            g.print(f[3])
            p = corelib.Parser(g, f[2] == "dry")
            corelib.Chaser(g)
            del p
            out.write("ok\n")
    except Exception as e:
        out.write("exception %s: %s\n" % (type(e).__name__, e))
    out.flush()
# Every context is stopped by now.
left = len(multiprocessing.active_children())
if left:
    out.write("left %d processes\n" % left)
left = sum("{57DF45C9-" in l for l in open("/proc/self/maps"))
if left:
    out.write("left %d shared windows mapped\n" % left)
out.write("end\n")
out.close()
