"""Runs functions in processes in which nothing else was done with the code under test.

A zygote is forked before the first case of a shard; each call is done in a process forked from it."""
import importlib
import json
import os
import signal
import struct
import traceback

CPU_S = 30
_zygote = None     # (pid of its owner, write end, read end)


def _read(fd, n):
    data = b''
    while len(data) < n:
        part = os.read(fd, n - len(data))
        if not part:
            return None
        data += part
    return data


def _write(fd, data):
    data = struct.pack('<I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    head = _read(fd, 4)
    return None if head is None else _read(fd, struct.unpack('<I', head)[0])


def _serve(requests, results):
    while True:
        data = _recv(requests)
        if data is None:
            os._exit(0)
        (r, w) = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S)
                (module, function, arg) = json.loads(data.decode('utf-8'))
                try:
                    out = {'result': getattr(importlib.import_module(module), function)(arg)}
                except Exception as e:
                    out = {'error': '%s: %s [%s]' % (type(e).__name__, e, ' <- '.join(
                        '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))}
                _write(w, json.dumps(out).encode('utf-8'))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        out = _recv(r)
        os.close(r)
        (_, status) = os.waitpid(pid, 0)
        _write(results, out if out is not None else json.dumps({'died': status}).encode('utf-8'))


def start():
    global _zygote
    if _zygote and _zygote[0] == os.getpid():
        return
    (r1, w1) = os.pipe()
    (r2, w2) = os.pipe()
    if not os.fork():
        try:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2)
        finally:
            os._exit(1)
    os.close(r1)
    os.close(w2)
    _zygote = (os.getpid(), w1, r2)


def call(module, function, arg):
    """:return: what the function of the module returns for arg (all JSON-able), called in a process of its own"""
    start()
    (_, w, r) = _zygote
    _write(w, json.dumps([module, function, arg]).encode('utf-8'))
    out = json.loads(_recv(r).decode('utf-8'))
    if 'died' in out:
        raise RuntimeError("process did not end properly: status %r%s" % (
            out['died'], " (used %d s of CPU time)" % CPU_S if os.WIFSIGNALED(out['died']) and os.WTERMSIG(out['died']) == signal.SIGVTALRM else ''))
    if 'error' in out:
        raise RuntimeError(out['error'])
    return out['result']
