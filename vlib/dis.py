"""Reference reachability, generator of images with code, and a reader for
the listings of the disassembler."""
import re

from vlib import isa

ENTRIES = {'raw': [0, 3, 0xB, 0x13, 0x1B, 0x23, 0x2B, 0x33, 0x3B, 0x43, 0x4B, 0x130]}
ENTRIES['game'] = ENTRIES['file'] = ENTRIES['raw']
ENTRIES['bios'] = sorted(ENTRIES['raw'] + [0x100, 0x108, 0x110, 0x120, 0x140, 0x1F0])

NOT1 = isa.BY_MNEMONIC['not1'][0]
SWITCH = NOT1.encode_raw([0x10D, 0])


def is_switch(form, vals):
    return form is NOT1 and vals == [0x10D, 0]


class Reach:
    """Everything reachable from the entry points."""

    def __init__(self, image, entries):
        self.image, self.entries = image, entries
        self.instrs = {}            # position -> (form, values)
        self.preds = {}             # position -> set of positions
        self.cut = None             # a reachable instruction that is cut off
        self.outside = []           # targets outside of the address space
        self.beyond = []            # targets at or after the end of the image
        todo = [e for e in entries]
        while todo:
            p = todo.pop()
            if p in self.instrs:
                continue
            if not 0 <= p < len(image):
                if p != len(image):
                    self.beyond.append(p)
                continue
            d = isa.decode(image, p)
            if d is None:
                self.cut = p
                continue
            self.instrs[p] = d
            todo += self.after(p, *d)
        self.edges = {}
        self.firmware = set()
        for p, (form, vals) in self.instrs.items():
            if form.mnemonic == 'jmpf' and p >= 2 and p - 2 in self.instrs and is_switch(*self.instrs[p - 2]):
                self.firmware.add(p)
        # A jump after the firmware switch isn't followed
        if self.firmware:
            self._without_firmware()
        for p, d in self.instrs.items():
            for t in self.after(p, *d) if p not in self.firmware else ():
                self.preds.setdefault(t, set()).add(p)
                if not 0 <= t <= 0xFFFF:
                    self.outside.append(t)

    def _without_firmware(self):
        # only unambiguous images have one meaning: see `ambiguous`
        instrs, todo = {}, list(self.entries)
        self.cut, self.beyond = None, []
        while todo:
            p = todo.pop()
            if p in instrs:
                continue
            if not 0 <= p < len(self.image):
                if p != len(self.image):
                    self.beyond.append(p)
                continue
            d = isa.decode(self.image, p)
            if d is None:
                self.cut = p
                continue
            instrs[p] = d
            if not (d[0].mnemonic == 'jmpf' and self.image[max(0, p - 2):p] == SWITCH and p - 2 in self.instrs):
                todo += self.after(p, *d)
        self.instrs = instrs
        self.firmware = {p for p in self.firmware if p in instrs}

    @staticmethod
    def after(p, form, vals):
        t = isa.target(form, vals)
        out = [] if t is None else [t]
        if form.mnemonic not in isa.NO_FALL:
            out.append(p + form.size)
        return out

    @property
    def ambiguous(self):
        """A jump after the firmware switch that is also reached otherwise."""
        return any(self.preds.get(p, set()) != {p - 2} or p in self.entries for p in self.firmware)

    @property
    def overlap(self):
        last = -1
        for p in sorted(self.instrs):
            if p < last:
                return True
            last = p + self.instrs[p][0].size
        return False

    def code(self):
        out = set()
        for p, (form, _) in self.instrs.items():
            out.update(range(p, p + form.size))
        return out


def image(rng, size, entries, density=1.0, far=0.02):
    """An image of about `size` bytes with non-overlapping reachable code."""
    buf = bytearray(size)
    used = [False] * size
    starts = set()
    todo = [e for e in entries if e < size]
    reserved = set(todo)
    budget = int(size * density)
    while todo:
        p = todo.pop(rng.randrange(len(todo)) if rng.random() < 0.3 else -1)
        while True:
            if p in starts or p == size:
                break
            if p > size or used[p]:
                return None
            room = 0
            while room < 3 and p + room < size and not used[p + room] and (room == 0 or p + room not in reserved):
                room += 1
            boundary_ok = p + room in reserved or p + room in starts or p + room == size
            budget -= 1
            form, vals = pick(rng, p, size, room, boundary_ok, used, starts, reserved, budget, far)
            code = form.encode(vals, p)
            if code is None:
                return None
            buf[p:p + len(code)] = code
            for k in range(p, p + len(code)):
                used[k] = True
            starts.add(p)
            reserved.discard(p)
            t = isa.target(form, vals)
            if t is not None and t < size and t not in starts:
                reserved.add(t)
                todo.append(t)
            if is_switch(form, vals) and p + 5 <= size and not any(used[p + 2:p + 5]) and \
                    not any(k in reserved for k in (p + 2, p + 3, p + 4)):
                jf = isa.BY_MNEMONIC['jmpf'][0]
                code = jf.encode([rng.choice([0, 0x100, rng.randrange(65536), rng.randrange(size)])], p + 2)
                buf[p + 2:p + 5] = code
                for k in range(p + 2, p + 5):
                    used[k] = True
                starts.add(p + 2)
                break
            if form.mnemonic in isa.NO_FALL:
                break
            p += form.size
    k = 0
    while k < size:
        # what is left over is data
        run = rng.choice([1, 3, 16, 17, 40])
        mode = rng.randrange(4)
        for j in range(k, min(size, k + run)):
            if not used[j]:
                buf[j] = 0 if mode == 0 else rng.randrange(256) if mode < 3 else rng.choice(b' ;"\\\t\n\rAz~\x7f')
        k += run
    return bytes(buf)


def pick(rng, p, size, room, boundary_ok, used, starts, reserved, budget, far):
    """An instruction for p that leaves a way to go on."""
    if rng.random() < 0.04 and room >= 3:
        return NOT1, [0x10D, 0]
    for _ in range(20):
        form = rng.choice(isa.FORMS)
        if form.size > room or (budget < 0 and form.mnemonic not in isa.NO_FALL):
            continue
        falls = form.mnemonic not in isa.NO_FALL
        if falls and form.size == room and not boundary_ok and (p + room >= size or used[p + room]):
            continue
        vals = []
        ok = True
        for k in form.kinds:
            if k not in isa.TARGET_KINDS:
                vals.append(rng.choice([0x100 + rng.randrange(256), 0x101, rng.randrange(512)]) if k == 'd9' else
                            rng.randrange(1 << isa.WIDTH[k]))
                continue
            t = None
            for _ in range(8):
                if rng.random() < far and k in ('a16', 'r16', 'a12'):
                    c = rng.randrange(65536)
                elif rng.random() < 0.4 and starts:
                    c = rng.choice(sorted(starts)) if len(starts) < 40 else p - rng.randrange(120)
                elif rng.random() < 0.3 and reserved:
                    c = rng.choice(sorted(reserved)) if len(reserved) < 60 else p + rng.randrange(120)
                else:
                    c = p + rng.randint(-120, 120) if rng.random() < 0.7 else rng.randrange(size)
                if isa.to_field(k, c, p + form.size) is None:
                    continue
                if p < c < p + form.size:
                    continue
                if c >= size or c in starts or c in reserved or not used[c]:
                    t = c
                    break
            if t is None:
                ok = False
                break
            vals.append(t)
        if ok and not is_switch(form, vals):
            return form, vals
    if room >= 1:
        return isa.BY_MNEMONIC['ret'][0], []
    return isa.BY_MNEMONIC['ret'][0], []


SIZES = [127, 128, 129, 255, 256, 257, 258, 511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8191, 8193, 16385, 20000]


def shape(rng):
    """A large image in which one thing is long or numerous: a run of
    instructions, a chain of jumps, the ways to one place, the branches of a
    ladder, routines called from one place, data."""
    entry = isa.BY_MNEMONIC['jmpf'][0]
    ret = isa.BY_MNEMONIC['ret'][0].encode([], 0)
    image = bytearray(ret * 0x1F4)
    start = rng.choice([0x200, 0x200, 0x201, 0xFFE, rng.randrange(0x200, 0x3000)])
    image += bytes(start - len(image))
    what = rng.choice(['run', 'chain', 'ways', 'ladder', 'fan', 'data', 'pages'])
    n = rng.choice(SIZES)
    e = rng.choice([0, 0x130, 3, 0x4B])
    image[e:e + 3] = entry.encode([start], e)
    if e == 0:
        image[3:6] = ret * 3
    room = 65536 - start - 8

    def plain(size=None):
        while True:
            form = rng.choice(isa.FORMS)
            if not any(k in isa.TARGET_KINDS for k in form.kinds) and form.mnemonic not in isa.NO_FALL and size in (None, form.size):
                vals = [rng.randrange(1 << isa.WIDTH[k]) for k in form.kinds]
                if not is_switch(form, vals):
                    return form.encode(vals, 0)
    if what == 'pages':
        return pages(rng, bytes(image[:0x200]), e, plain), what
    if what == 'run':
        size = rng.choice([None, 1, 2])
        out = bytearray()
        while n and len(out) < room - 3:
            out += plain(size)
            n -= 1
        image += out + ret
    elif what == 'chain':
        # blocks in an order of their own, each jumping to the next
        gap = rng.choice([3, 3, 4, 7])
        n = min(n, room // gap)
        order = list(range(1, n))
        rng.shuffle(order)
        order = [0] + order
        out = bytearray(gap * n)
        for k, b in enumerate(order):
            p = start + b * gap
            code = b''.join(plain(1) for _ in range(rng.randrange(gap - 2)))
            p += len(code)
            if k + 1 < n:
                t = start + order[k + 1] * gap
                far = isa.BY_MNEMONIC['brf'][0].encode([t], p) if rng.random() < 0.5 else None
                code += far or entry.encode([t], p)
            else:
                code += ret
            out[b * gap:b * gap + len(code)] = code
        image += out
    elif what == 'ways':
        # calls of one place from everywhere
        t = start + 1
        n = min(n, room // 3 - 2)
        form = isa.BY_MNEMONIC[rng.choice(['callf', 'callr'])][0]
        first = start + 2
        image[e:e + 3] = entry.encode([first], e)
        out = bytearray(plain(1) + ret)
        for k in range(n):
            code = form.encode([t], start + len(out))
            if code is None:
                break
            out += code
        image += out + ret
    elif what == 'ladder':
        # conditional branches, each past the next few
        n = min(n, room // 2 - 20)
        form = isa.BY_MNEMONIC[rng.choice(['bz', 'bnz'])][0]
        out = bytearray()
        for k in range(n):
            p = start + 2 * k
            out += form.encode([p + 2 * rng.randrange(1, 12)], p)
        image += out + ret * 26
    elif what == 'fan':
        # routines of their own, all called from one place
        length = rng.choice([1, 20, 70, 140, 300])
        n = min(n, room // (3 + length))
        out = bytearray()
        for k in range(n):
            out += isa.BY_MNEMONIC['callf'][0].encode([start + 3 * n + 1 + k * length], 0)
        out += ret
        for k in range(n):
            out += b''.join(plain(1) for _ in range(length - 1)) + ret
        image += out
    else:
        image += plain(1) + ret
        left = rng.choice([n, 3 * n, 30000]) % room
        while left > 0:
            k = min(left, rng.choice(SIZES + [15, 16, 17]))
            image += rng.choice([bytes(k), bytes([rng.randrange(256)]) * k, rng.randbytes(k), bytes(k - 1) + b'\x01'])
            left -= k
    image = image[:65536]
    if rng.random() < 0.3:
        image += bytes(rng.choice([1, 17, 300]))
    return bytes(image[:65536]), what


def pages(rng, head, e, plain):
    """Transfers at the ends of the 4K pages: the page of the target is that
    of the next instruction."""
    image = bytearray(rng.choice([5000, 20000, 65536, rng.randrange(4200, 65536)]))
    image[:len(head)] = head
    image[e:e + 3] = isa.BY_MNEMONIC['jmpf'][0].encode([0x200], e)
    ret = isa.BY_MNEMONIC['ret'][0].encode([], 0)
    used = [False] * len(image)
    used[:0x300] = [True] * 0x300
    a12 = [f for f in isa.FORMS if 'a12' in f.kinds]
    others = [f for f in isa.FORMS if any(k in isa.TARGET_KINDS for k in f.kinds)]

    def put(p, code):
        if p < 0 or p + len(code) > len(image) or any(used[p:p + len(code)]):
            return False
        image[p:p + len(code)] = code
        used[p:p + len(code)] = [True] * len(code)
        return True
    at = 0x200
    for _ in range(rng.choice([1, 5, 40])):
        page = rng.randrange(1, 16) << 12
        lead = b''.join(plain(1) for _ in range(rng.choice([0, 0, 1, 3])))
        form = rng.choice(a12 if rng.random() < 0.7 else others)
        p = page - rng.choice([1, 2, 2, 3, 4, 5])
        nxt = p + form.size
        k = next(k for k in form.kinds if k in isa.TARGET_KINDS)
        for _ in range(30):
            t = (nxt & 0xF000) + rng.choice([rng.randrange(4096), 0, 0xFFF, rng.randrange(16)]) if k == 'a12' else \
                nxt + rng.randint(-120, 120) if k == 'r8' else rng.randrange(len(image))
            if not 0 <= t < len(image) or isa.to_field(k, t, nxt) is None or p - len(lead) <= t <= nxt:
                continue
            code = form.encode([t if x == k else rng.randrange(1 << isa.WIDTH[x]) for x in form.kinds], p)
            if used[t] or code is None:
                continue
            if put(p - len(lead), lead + code + ret):
                if not put(t, plain(1) + ret):
                    put(t, ret)
                call = isa.BY_MNEMONIC['callf'][0].encode([p - len(lead)], at)
                image[at:at + 3] = call
                at += 3
            break
    image[at:at + 1] = ret
    return bytes(image)


_PREFIX = re.compile(r'^(?:([0-9A-Fa-f]{4,})|\s+)\| ?(.*)$', re.S)


class Listing:
    """A listing printed with positions."""

    def __init__(self, text):
        self.instrs = {}            # position -> (mnemonic, [operand text], comment)
        self.data = {}              # position -> byte
        self.data_twice = []
        self.labels = {}            # name -> position of what follows
        self.equs = {}
        self.problems = []
        self.order = []
        pending = []
        for line in text.split('\n'):
            m = _PREFIX.match(line)
            if not m:
                continue
            pos = int(m.group(1), 16) if m.group(1) else None
            body, _, comment = m.group(2).partition(';')
            body = body.strip()
            if not body:
                continue
            low = body.lower()
            if low.endswith(':') and ' ' not in low:
                pending.append(low[:-1])
                continue
            w = low.split(None, 1)
            if w[0] in ('.org', '.cnop'):
                if pos is not None and w[0] == '.org' and value(w[1], {}) != pos:
                    self.problems.append('origin %s at %04X' % (w[1], pos))
                continue
            if len(w) > 1 and (w[1].startswith('equ ') or w[1].startswith('=')):
                self.equs[w[0]] = value(w[1][3:].strip() if w[1].startswith('equ') else w[1][1:].strip(), {})
                continue
            if pos is None:
                self.problems.append('statement without a position: ' + body)
                continue
            for name in pending:
                if name in self.labels:
                    self.problems.append('label twice: ' + name)
                self.labels[name] = pos
            pending = []
            self.order.append(pos)
            if w[0] in ('.byte', '.text', '.string', '.word'):
                if w[0] != '.byte':
                    self.problems.append('unexpected ' + w[0])
                    continue
                for k, x in enumerate(w[1].split(',')):
                    if pos + k in self.data:
                        self.data_twice.append(pos + k)
                    self.data[pos + k] = value(x.strip(), {})
            else:
                if pos in self.instrs:
                    self.problems.append('two instructions at %04X' % pos)
                self.instrs[pos] = (w[0], [x.strip() for x in w[1].split(',')] if len(w) > 1 else [], comment)
        if pending:
            self.problems.append('labels of nothing: %s' % pending)


def value(text, names):
    """Value of an operand of a listing, or None."""
    t = text.strip().lower()
    try:
        if t.startswith('$'):
            return int(t[1:], 16)
        if t.startswith('0x'):
            return int(t[2:], 16)
        if t.startswith('%'):
            return int(t[1:], 2)
        return int(t)
    except ValueError:
        return names.get(t)
