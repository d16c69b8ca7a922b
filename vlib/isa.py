"""The LC86k instruction set, transcribed from the documented bit patterns.

Independent of the code under test: encoder, decoder, control flow."""

_D8 = '[d7][d6][d5][d4][d3][d2][d1][d0]'
_I = '[i7][i6][i5][i4][i3][i2][i1][i0]'
_R = '[r7][r6][r5][r4][r3][r2][r1][r0]'
_RH = '[r15][r14][r13][r12][r11][r10][r9][r8]'
_A8 = '[a7][a6][a5][a4][a3][a2][a1][a0]'
_AH = '[a15][a14][a13][a12][a11][a10][a9][a8]'

# (mnemonic, operand kinds, bit pattern); x1 x0 is the indirection register
_TABLE = []
for _m, _imm, _hi, _ri in (
        ('add', '10000001', '1000001', '100001'), ('addc', '10010001', '1001001', '100101'),
        ('sub', '10100001', '1010001', '101001'), ('subc', '10110001', '1011001', '101101'),
        ('and', '11100001', '1110001', '111001'), ('or', '11010001', '1101001', '110101'),
        ('xor', '11110001', '1111001', '111101')):
    _TABLE += [(_m, ('i8',), _imm + _I), (_m, ('d9',), _hi + '[d8]' + _D8), (_m, ('ri',), _ri + '[x1][x0]')]
for _m, _hi, _ri in (('inc', '0110001', '011001'), ('dec', '0111001', '011101'), ('ld', '0000001', '000001'),
                     ('st', '0001001', '000101'), ('xch', '1100001', '110001')):
    _TABLE += [(_m, ('d9',), _hi + '[d8]' + _D8), (_m, ('ri',), _ri + '[x1][x0]')]
for _m, _op in (('mul', '00110000'), ('div', '01000000'), ('rol', '11100000'), ('rolc', '11110000'),
                ('ror', '11000000'), ('rorc', '11010000'), ('ldc', '11000001'), ('ldf', '01010000'),
                ('stf', '01010001'), ('ret', '10100000'), ('reti', '10110000'), ('nop', '00000000')):
    _TABLE += [(_m, (), _op)]
for _m, _op in (('clr1', '110'), ('set1', '111'), ('not1', '101')):
    _TABLE += [(_m, ('d9', 'b3'), _op + '[d8]1[b2][b1][b0]' + _D8)]
_TABLE += [
    ('mov', ('i8', 'd9'), '0010001[d8]' + _D8 + _I),
    ('mov', ('i8', 'ri'), '001001[x1][x0]' + _I),
    ('push', ('d9',), '0110000[d8]' + _D8),
    ('pop', ('d9',), '0111000[d8]' + _D8),
    ('jmp', ('a12',), '001[a11]1[a10][a9][a8]' + _A8),
    ('jmpf', ('a16',), '00100001' + _AH + _A8),
    ('br', ('r8',), '00000001' + _R),
    ('brf', ('r16',), '00010001' + _R + _RH),
    ('bz', ('r8',), '10000000' + _R),
    ('bnz', ('r8',), '10010000' + _R),
    ('bp', ('d9', 'b3', 'r8'), '011[d8]1[b2][b1][b0]' + _D8 + _R),
    ('bpc', ('d9', 'b3', 'r8'), '010[d8]1[b2][b1][b0]' + _D8 + _R),
    ('bn', ('d9', 'b3', 'r8'), '100[d8]1[b2][b1][b0]' + _D8 + _R),
    ('dbnz', ('d9', 'r8'), '0101001[d8]' + _D8 + _R),
    ('dbnz', ('ri', 'r8'), '010101[x1][x0]' + _R),
    ('be', ('i8', 'r8'), '00110001' + _I + _R),
    ('be', ('d9', 'r8'), '0011001[d8]' + _D8 + _R),
    ('be', ('ri', 'i8', 'r8'), '001101[x1][x0]' + _I + _R),
    ('bne', ('i8', 'r8'), '01000001' + _I + _R),
    ('bne', ('d9', 'r8'), '0100001[d8]' + _D8 + _R),
    ('bne', ('ri', 'i8', 'r8'), '010001[x1][x0]' + _I + _R),
    ('call', ('a12',), '000[a11]1[a10][a9][a8]' + _A8),
    ('callf', ('a16',), '00100000' + _AH + _A8),
    ('callr', ('r16',), '00010000' + _R + _RH),
]

_LETTER = {'i8': 'i', 'd9': 'd', 'b3': 'b', 'a12': 'a', 'a16': 'a', 'r8': 'r', 'r16': 'r', 'ri': 'x'}
WIDTH = {'i8': 8, 'd9': 9, 'b3': 3, 'a12': 12, 'a16': 16, 'r8': 8, 'r16': 16, 'ri': 2}


def _bits(pattern):
    out, i = [], 0
    while i < len(pattern):
        if pattern[i] == '[':
            j = pattern.index(']', i)
            out.append((pattern[i + 1], int(pattern[i + 2:j])))
            i = j + 1
        else:
            out.append(int(pattern[i]))
            i += 1
    assert len(out) % 8 == 0
    return out


class Form:
    def __init__(self, index, mnemonic, kinds, pattern):
        self.index, self.mnemonic, self.kinds = index, mnemonic, kinds
        self.bits = _bits(pattern)
        self.size = len(self.bits) // 8
        n = len(self.bits)
        self.mask = self.value = 0
        self.fields = {}
        for k, b in enumerate(self.bits):
            shift = n - 1 - k
            if isinstance(b, int):
                self.mask |= 1 << shift
                self.value |= b << shift
            else:
                self.fields.setdefault(b[0], []).append((b[1], shift))
        for kind in kinds:
            assert len(self.fields[_LETTER[kind]]) == WIDTH[kind], (mnemonic, kind)

    def __repr__(self):
        return self.mnemonic + ' ' + ','.join(self.kinds)

    @property
    def name(self):
        return self.mnemonic + '/' + ','.join(self.kinds)

    def encode_raw(self, raw):
        """Encodes unsigned field values."""
        word = self.value
        for kind, v in zip(self.kinds, raw):
            assert 0 <= v < 1 << WIDTH[kind]
            for bit, shift in self.fields[_LETTER[kind]]:
                word |= (v >> bit & 1) << shift
        return word.to_bytes(self.size, 'big')

    def decode_raw(self, data):
        word = int.from_bytes(data[:self.size], 'big')
        if word & self.mask != self.value:
            return None
        return [sum((word >> shift & 1) << bit for bit, shift in self.fields[_LETTER[k]]) for k in self.kinds]

    def encode(self, values, pos):
        """Encodes operand values (addresses for branches) of an instruction
        at pos, or returns None when some value doesn't fit its field."""
        raw = []
        for kind, v in zip(self.kinds, values):
            f = to_field(kind, v, pos + self.size)
            if f is None:
                return None
            raw.append(f)
        return self.encode_raw(raw)


def to_field(kind, v, next_pos):
    """The unsigned field for an operand value, or None if it doesn't fit."""
    if kind in ('i8', 'd9', 'b3', 'a16', 'ri'):
        return v if 0 <= v < 1 << WIDTH[kind] else None
    if not 0 <= v <= 0xFFFF:
        return None
    if kind == 'a12':
        return v & 0xFFF if v >> 12 == next_pos >> 12 else None
    if kind == 'r8':
        rel = v - next_pos
        return rel & 0xFF if -128 <= rel <= 127 else None
    if kind == 'r16':
        rel = v - next_pos + 1
        return rel & 0xFFFF if -32768 <= rel <= 32767 else None
    raise AssertionError(kind)


def from_field(kind, raw, next_pos):
    """The operand value (address for branches) of a field."""
    if kind == 'a12':
        return (next_pos & 0xF000) | raw
    if kind == 'r8':
        return next_pos + (raw - 256 if raw > 127 else raw)
    if kind == 'r16':
        # The 16-bit displacement counts from the last byte of the instruction
        return next_pos - 1 + (raw - 65536 if raw > 32767 else raw)
    return raw


FORMS = [Form(i, *row) for i, row in enumerate(_TABLE)]
MNEMONICS = sorted({f.mnemonic for f in FORMS})
BY_MNEMONIC = {}
for _f in FORMS:
    BY_MNEMONIC.setdefault(_f.mnemonic, []).append(_f)

_BY_BYTE = [[] for _ in range(256)]
for _f in FORMS:
    _m, _v = _f.mask >> 8 * (_f.size - 1), _f.value >> 8 * (_f.size - 1)
    for _b in range(256):
        if _b & _m == _v:
            _BY_BYTE[_b].append(_f)
FIRST = []
for _b in range(256):
    assert len(_BY_BYTE[_b]) <= 1, (_b, _BY_BYTE[_b])
    FIRST.append(_BY_BYTE[_b][0] if _BY_BYTE[_b] else None)


def decode(data, pos):
    """(form, values) of the instruction at pos; None if cut off or unknown."""
    if pos >= len(data):
        return None
    form = FIRST[data[pos]]
    if form is None or pos + form.size > len(data):
        return None
    raw = form.decode_raw(data[pos:pos + form.size])
    return form, [from_field(k, v, pos + form.size) for k, v in zip(form.kinds, raw)]


TARGET_KINDS = ('a12', 'a16', 'r8', 'r16')
# Control never falls through to the next instruction
NO_FALL = {'jmp', 'jmpf', 'br', 'brf', 'ret', 'reti'}


def target(form, values):
    for k, v in zip(form.kinds, values):
        if k in TARGET_KINDS:
            return v
    return None
