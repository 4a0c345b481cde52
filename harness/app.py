"""Running the real application (kolombos.App) in-process with stubbed input, output and terminal."""
import argparse
import builtins
import io
import os
import shutil
import sys

PATH = '/nonexistent/vp-input.bin'


class Sink:
    encoding = 'utf-8'
    errors = 'strict'
    closed = False
    name = '<stdout>'
    mode = 'w'

    def __init__(self, log, tag, fault=None):
        """fault: (number of the first write that fails, exception); every later write fails as well; a single newline
        belongs to the write before it (print() makes one or two writes)"""
        self.parts = []
        self.fault = fault
        self.failed = False
        self.count = 0
        self.log = log
        self.tag = tag
        self.buffer = BinSink(self)

    def write(self, s):
        if self.fault is not None:
            nl = type(s) is str and s in ('', '\n')
            if self.failed or not nl and self.count >= self.fault[0]:
                self.failed = True
                self.log.append(('f', ''))
                raise self.fault[1]
            self.count += not nl
        self.parts.append(s)
        self.log.append((self.tag, s))
        return len(s)

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def writable(self):
        return True

    def reconfigure(self, **k):
        pass

    def text(self):
        r = ''
        for p in self.parts:
            r = r + p
        return r


class BinSink:
    def __init__(self, sink):
        self.sink = sink

    def write(self, b):
        self.sink.write(b.decode('utf-8'))
        return len(b)

    def flush(self):
        pass


class Fault(Exception):
    pass


class Source:
    """binary stream with the given data; `plan`: maximal sizes of successive reads (short reads), then unlimited;
    `fault`: (index of the failing read call, exception)"""
    name = '<stdin>'
    mode = 'rb'

    def __init__(self, data, plan=(), fault=None, pipe=False):
        self.pipe = pipe
        self.data = data
        self.pos = 0
        self.plan = list(plan)
        self.fault = fault
        self.closed = False
        self.reads = 0
        self.max_req = 0
        self.close_calls = 0
        self.closed_at = None
        self.log = ()
        self.hist = []   # (bytes asked for, position, amount of output so far) of every read

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _take(self, n):
        self._check()
        self.hist.append((n, self.pos, len(self.log)))
        idx = self.reads
        self.reads += 1
        if self.fault is not None and self.fault[0] == idx:
            raise self.fault[1]
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        k = n if n < left else left
        if self.plan:
            lim = self.plan.pop(0)
            if lim < k:
                k = lim
        r = self.data[self.pos:self.pos + k]
        self.pos += len(r)
        return r

    def read(self, n=-1):
        return self._take(n)

    def read1(self, n=-1):
        return self._take(n)

    def readinto(self, b):
        r = self._take(len(b))
        b[:len(r)] = r
        return len(r)

    def readline(self, n=-1):
        self._check()
        self.hist.append((n, self.pos, len(self.log)))
        i = self.data.find(b'\n', self.pos)
        end = len(self.data) if i < 0 else i + 1
        if n is not None and n >= 0 and end - self.pos > n:
            end = self.pos + n
        r = self.data[self.pos:end]
        self.pos = end
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def tell(self):
        self._check()
        if self.pipe:
            raise OSError(29, 'Illegal seek')
        return self.pos

    def readable(self):
        return True

    def seekable(self):
        return not self.pipe

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def close(self):
        self.close_calls += 1
        self.closed = True

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Stdin:
    encoding = 'utf-8'
    name = '<stdin>'

    def __init__(self, src):
        self.buffer = src

    @property
    def closed(self):
        return self.buffer.closed

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def close(self):
        self.buffer.close()


class TermSize(tuple):
    def __new__(cls, c, l):
        return super().__new__(cls, (c, l))

    @property
    def columns(self):
        return self[0]

    @property
    def lines(self):
        return self[1]


SENT = 970100000


class Result:
    pass


def run_app(h, argv, data, via='stdin', width=80, plan=(), fault=None, open_fault=None, out_fault=None, demo=False, path=PATH):
    """via: stdin, file (PATH is appended), dash ("-" is appended), argv (the path is in argv already); demo: `data` is what the
    demo file of the program contains; argv: list of str or (prefix, value) where value may be symbolic -> option with an integer argument"""
    from kolombos.app import App
    sent = {}
    real_argv = ['kolombos']
    for a in argv:
        if isinstance(a, (tuple, list)):
            pre, val = a
            if h.symbolic and not h.is_const(val):
                s = SENT + len(sent)
                sent[s] = val
                real_argv.append(f'{pre}{s}')
            else:
                real_argv.append(f'{pre}{val}')
        else:
            real_argv.append(a)
    fromfile = via in ('file', 'argv') or demo
    src = Source(data, plan, fault, not fromfile)
    if via == 'file':
        real_argv.append(path)
    elif via == 'dash':
        real_argv.append('-')
    log = src.log = []
    out, err = Sink(log, 'o', out_fault), Sink(log, 'e')
    o_open, o_ioopen = builtins.open, io.open
    o_ts, o_os_ts = shutil.get_terminal_size, os.get_terminal_size
    o_parse = argparse.ArgumentParser.parse_known_args
    o_argv = sys.argv
    so = (sys.stdout, sys.stderr, sys.stdin)

    def fake_open(file, *a, **k):
        try:
            p = os.fspath(file)
        except TypeError:
            p = None
        if p == path or demo and type(p) is str and p.endswith('kolombos/demo.bin'):
            if open_fault is not None:
                raise open_fault
            return src
        return o_open(file, *a, **k)

    def fake_ts(*a, **k):
        return TermSize(width, 24)

    def fake_parse(self, *a, **k):
        ns, rest = o_parse(self, *a, **k)
        for n, v in list(vars(ns).items()):
            if type(v) is int and v in sent:
                setattr(ns, n, sent[v])
        return ns, rest

    r = Result()
    r.code = None
    r.raised = None
    r.closed_before_exit = None
    try:
        builtins.open = fake_open
        io.open = fake_open
        shutil.get_terminal_size = fake_ts
        os.get_terminal_size = fake_ts
        argparse.ArgumentParser.parse_known_args = fake_parse
        sys.argv = real_argv
        sys.stdout, sys.stderr = out, err
        sys.stdin = Stdin(src if not fromfile else Source(b''))
        try:
            App().run()
        except SystemExit as e:
            r.code = e.code
        except (Exception, KeyboardInterrupt) as e:
            r.raised = type(e).__name__
    finally:
        builtins.open, io.open = o_open, o_ioopen
        shutil.get_terminal_size, os.get_terminal_size = o_ts, o_os_ts
        argparse.ArgumentParser.parse_known_args = o_parse
        sys.argv = o_argv
        sys.stdout, sys.stderr, sys.stdin = so
    r.out = out.text()
    r.err = err.text()
    r.log = log
    r.src = src
    if r.code is None and r.raised is None:
        r.code = 0
    return r


def preload():
    import kolombos.app
