"""Runs the command line scripts of the tree under test in this process (argv, stdin file, captured output)."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
_code = {}
_dir = None


def _load(name):
    if name not in _code:
        path = os.path.join(REPO, 'scripts', name)
        with open(path) as fh:
            _code[name] = (path, compile(fh.read(), path, 'exec'))
    return _code[name]


def _input(text):
    d = '/dev/shm' if os.path.isdir('/dev/shm') else None
    (fd, path) = tempfile.mkstemp(prefix='vin', suffix='.ngc', dir=d)
    with os.fdopen(fd, 'w', newline='') as fh:
        fh.write(text)
    return path


class Output(io.TextIOWrapper):
    """stands in for the standard output (with its buffer)"""

    def __init__(self):
        super(Output, self).__init__(io.BytesIO(), encoding='utf-8', newline='')

    def getvalue(self):
        self.flush()
        return self.buffer.getvalue().decode('utf-8')


class Exit(Exception):
    """the script exited (bad arguments)"""


def run(name, args, text):
    """:param args: list of options; the input file is put first
    :return: list of output lines
    """
    (path, code) = _load(name)
    infile = _input(text)
    argv, out, err = sys.argv, Output(), Output()
    try:
        sys.argv = [path] + [infile if a == '@' else a for a in args]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(code, {'__name__': '__main__', '__file__': path})
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise Exit("%s %r exits with %r: %s" % (name, args, e.code, err.getvalue()[-400:]))
    finally:
        sys.argv = argv
        os.unlink(infile)
    s = out.getvalue()
    lines = s.split('\n')
    if lines[-1] == '':
        lines.pop()
    return lines


def attempt(name, args, text, stdin=None):
    """
    :param text: content of the file '@' in args
    :param stdin: text given as standard input
    :return: (exit code, output, errors); an exception other than SystemExit is exit code 1, as it would be
    """
    (path, code) = _load(name)
    infile = _input(text)
    (argv, inp, out, err) = (sys.argv, sys.stdin, Output(), Output())
    rc = 0
    try:
        sys.argv = [path] + [infile if a == '@' else a for a in args]
        if stdin is not None:
            sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode('utf-8')), encoding='utf-8')
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(code, {'__name__': '__main__', '__file__': path})
            except SystemExit as e:
                rc = e.code or 0
            except Exception as e:
                rc = 1
                err.write('%s: %s' % (type(e).__name__, e))
    finally:
        (sys.argv, sys.stdin) = (argv, inp)
        os.unlink(infile)
    return (rc, out.getvalue(), err.getvalue())


def process(name, args, text, stdin=None):
    """the same, as a separate process"""
    infile = _input(text)
    try:
        r = subprocess.run([sys.executable, os.path.join(REPO, 'scripts', name)] + [infile if a == '@' else a for a in args],
                           input=(stdin or '').encode('utf-8'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.join(REPO, 'src')] + [p for p in sys.path if p.endswith('site-packages')]),
                                    PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore'))
    finally:
        os.unlink(infile)
    return (r.returncode, r.stdout.decode('utf-8'), r.stderr.decode('utf-8'))


def norm(text, *opts):
    return run('pygcode-norm', ['@'] + list(opts), text)


def crop(text, rng):
    # (a range can begin with a sign only as part of a condition, so it needs no --)
    return run('pygcode-crop', ['@', rng], text)
