"""Time as the processor time of this process and its finished children: limits do not shrink when the machine is busy."""
import os
import time

_w0 = time.time()
_c0 = 0.0
FACTOR = float(os.environ.get("VP_BUDGET", "1"))


def cpu():
    t = os.times()
    return t.user + t.system + t.children_user + t.children_system


def start():
    """call in a new process, before any work"""
    global _w0, _c0
    _w0, _c0 = time.time(), cpu()


def now():
    return cpu() - _c0


def wall(seconds):
    """a wall-clock allowance worth that much processor time at the present load"""
    w, c = time.time() - _w0, cpu() - _c0
    k = min(4.0, max(1.0, w / c)) if c > 0.5 else 1.5
    return seconds * k * FACTOR
