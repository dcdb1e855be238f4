"""Run a function alone in a fork of this (pristine) process; JSON result."""
import json
import os
import sys


def pristine(fn):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = {'ok': fn()}
            except BaseException as e:
                import traceback
                res = {'error': ''.join(traceback.format_exception(e))[-3000:]}
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        finally:
            os._exit(0)
    os.close(w)
    buf = []
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        buf.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b''.join(buf))
