"""Harness of K15: the segment queue (kolombos.byteio.segment.SegmentBuffer) under symbolic histories."""
from spec import model as M


def preload():
    import kolombos.app
    import kolombos.byteio.segment
    import pytermor
    import logging
    logging.disable(logging.CRITICAL)


def one(h, name, items):
    return items[h.concrete(h.int(name, 0, len(items) - 1))]


def flag(h, name):
    return h.concrete(h.int(name, 0, 1)) == 1


STYLES = {
    'none': [], 'zero': [0], 'bold': [1], 'dim': [2], 'green': [32], 'bgcyan': [46], 'two': [1, 91], 'idx': [38, 5, 1],
    'rgb': [48, 2, 1, 2, 3], 'inv': [7], 'under': [4],
}
HEX = '0123456789abcdef'


class Ctx:
    def __init__(self, h, kind):
        from kolombos.byteio.segment import SegmentBuffer, SegmentPrinter
        from kolombos.settings import SettingsManager
        SettingsManager.init()
        self.h = h
        self.b = SegmentBuffer()
        self.q = []         # (bytes codes of the unit, shown codes of the unit, parameters of the style, segment number)
        self.out = []       # everything that has been handed out
        self.put = []
        self.n = 0
        self.t = 0
        self.kind = kind
        self.printers = [
            SegmentPrinter(apply_sgr=True, encode_sgr=False, format_fn=lambda s: s.processed),
            SegmentPrinter(apply_sgr=True, encode_sgr=False, format_fn=lambda s: s.raw.hex()),
            SegmentPrinter(apply_sgr=False, encode_sgr=True, format_fn=lambda s: s.type_label * s.data_len),
            SegmentPrinter(apply_sgr=True, encode_sgr=True, format_fn=lambda s: s.processed),
        ]

    def style(self, name, menu):
        h = self.h
        k = one(h, name, menu)
        if k == 'free':
            return [h.int(name + 'p', 0, 110)]
        if k == 'fidx':
            return [38, 5, h.int(name + 'p', 0, 255)]
        return STYLES[k]

    def attach(self, i, menu, lens, multi=1, nl=False):
        from pytermor import SequenceSGR
        from kolombos.byteio.segment import Segment
        h = self.h
        segs = []
        for j in range(multi):
            p = self.style(f's{i}_{j}', menu)
            L = one(h, f'l{i}_{j}', lens)
            raw = h.bytes(f'b{i}_{j}_', L)
            label = 'ABCDEFGH'[self.n % 8]
            if self.kind == 'line':
                shown = one(h, f't{i}_{j}', ['x', '\n', 'x\n', ''] if L else ['', 'y'])
                self.q.append((h.codes(raw), [ord(c) for c in shown], p, label))
            else:
                shown = h.str(f'p{i}_{j}_', L, ((0x41, 0x5a), (0xe9, 0xe9)))
                for a, c in zip(h.codes(raw), h.codes(shown)):
                    self.q.append(([a], [c], p, label))
            self.put += h.codes(raw)
            segs.append(Segment(SequenceSGR(*p), label, raw, shown))
            self.n += 1
        self.b.attach(*segs)

    def avail(self):
        return sum(len(u[0]) for u in self.q)

    def portion(self, r, units, msg):
        """output of a portion made of the given units"""
        h = self.h
        h.check(len(r) == len(self.printers), msg + ': not an output per printer')
        want = [(c, u[2]) for u in units for c in u[1]]
        self.styled(r[0], want, msg)
        hexs = []
        for u in units:
            for c in u[0]:
                hexs += [(d, u[2]) for d in h.hex2(c)]
        self.styled(r[1], hexs, msg + ' (hex)')
        lab = ''.join(u[3] * len(u[0]) for u in units)
        h.check(h.eq(h.codes(r[2]), [ord(c) for c in lab]), msg + ': plain output is styled or wrong')
        # encoded: no escape character is left, removing the [ǝ...] marks gives the text
        codes, plain, i = h.codes(r[3]), [], 0
        while i < len(codes):
            if type(codes[i]) is int and codes[i] == 91 and type(codes[i + 1]) is int and codes[i + 1] == 0x1dd:
                while not (type(codes[i]) is int and codes[i] == 93):
                    i += 1
            else:
                plain.append(codes[i])
            i += 1
        h.check(h.eq(plain, [c for c, _ in want]), msg + ': encoded output differs')
        for u in units:
            self.out += u[0]

    def styled(self, s, want, msg):
        h = self.h
        out, st = M.term(h, h.codes(s))
        h.check(st == {}, msg + ': a style is left open')
        h.check(h.eq([c for c, _ in out], [c for c, _ in want]), msg + ': other data than attached')
        if len(out) != len(want):
            return
        for (_, a), (_, p) in zip(out, want):
            e = M.term_apply(h, {}, list(p)) if p else {}
            h.check(set(a) == set(e) and h.all([same(a[k], e[k], h) for k in a]), msg + ': wrong style')

    def length(self, before, n, msg):
        h = self.h
        h.check(self.b.data_len == before - n, msg + ': wrong queue length')
        h.check(self.b.last_detached_data_len == n, msg + ': wrong length of the portion')


def same(a, b, h):
    if type(a) is tuple:
        return type(b) is tuple and len(a) == len(b) and h.all([x == y for x, y in zip(a, b)])
    return a == b


def k15(h, ops, menu, lens, req=(1, 4), multi=1):
    """ops: a (attach), d (detach bytes), ? (either)"""
    from kolombos.byteio import WaitRequest
    x = Ctx(h, 'bytes')
    for i, op in enumerate(ops):
        if op == '?':
            op = 'ad'[h.concrete(h.int(f'o{i}', 0, 1))]
        if op == 'a':
            before = x.avail()
            x.attach(i, menu, lens, multi)
            h.check(x.b.data_len == x.avail(), 'K15: wrong queue length after attaching')
            continue
        n = h.concrete(h.int(f'r{i}', *req))
        force = flag(h, f'f{i}') if op == 'd' else True
        av = x.avail()
        try:
            r = x.b.detach_bytes(n, force, x.printers)
        except WaitRequest:
            h.check(not force and av < n, 'K15: asks to wait though there is enough data')
            h.check(x.b.data_len == av, 'K15: a refused request changes the queue')
            continue
        except EOFError:
            h.check(av == 0, 'K15: reports the end though there is data')
            continue
        h.check(force or av >= n, 'K15: hands out less than requested')
        k = min(n, av)
        x.portion(r, x.q[:k], f'K15 (step {i})')
        x.q = x.q[k:]
        x.length(av, k, f'K15 (step {i})')
    # the rest comes out in one forced request
    av = x.avail()
    if av:
        r = x.b.detach_bytes(av + 1, True, x.printers)
        x.portion(r, x.q, 'K15 (rest)')
        x.length(av, av, 'K15 (rest)')
    try:
        x.b.detach_bytes(1, True, x.printers)
        h.check(False, 'K15: hands out data that was not attached')
    except EOFError:
        pass
    h.check(h.eq(x.out, x.put), 'K15: the pieces are not what has been attached')


def k15line(h, ops, menu, lens, multi=1):
    from kolombos.byteio import WaitRequest
    x = Ctx(h, 'line')
    for i, op in enumerate(ops):
        if op == '?':
            op = 'ad'[h.concrete(h.int(f'o{i}', 0, 1))]
        if op == 'a':
            x.attach(i, menu, lens, multi)
            h.check(x.b.data_len == x.avail(), 'K15: wrong queue length after attaching')
            continue
        force = flag(h, f'f{i}') if op == 'd' else True
        k = None
        for j, u in enumerate(x.q):
            if 10 in u[1]:
                k = j + 1
                break
        av = x.avail()
        try:
            r = x.b.detach_line(force, x.printers)
        except WaitRequest:
            h.check(not force and k is None, 'K15: asks to wait though there is a complete line')
            h.check(x.b.data_len == av, 'K15: a refused request changes the queue')
            continue
        except EOFError:
            h.check(av == 0, 'K15: reports the end though there is data')
            continue
        h.check(force or k is not None, 'K15: hands out an incomplete line')
        if k is None:
            k = len(x.q)
        units = x.q[:k]
        x.portion(r, units, f'K15 (line {i})')
        x.q = x.q[k:]
        x.length(av, sum(len(u[0]) for u in units), f'K15 (line {i})')
    while x.avail():
        k = len(x.q)
        for j, u in enumerate(x.q):
            if 10 in u[1]:
                k = j + 1
                break
        r = x.b.detach_line(True, x.printers)
        x.portion(r, x.q[:k], 'K15 (rest)')
        x.q = x.q[k:]
    h.check(h.eq(x.out, x.put), 'K15: the pieces are not what has been attached')
