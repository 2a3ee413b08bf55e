"""An independent implementation of the message template and its wire format.

Written from the template file's own syntax and the packet layout (flags, 4
byte big endian id, offset byte, message number, blocks, appended acks), not
from the repository's serializer.  Content is represented as
  {block name: [ {var name: canonical value}, ... ]}
canonical values: int/long, float, tuple of floats, 16/4/n byte str, str.
"""
import struct

INT = {'U8': ('<B', 1, 0, 255), 'U16': ('<H', 2, 0, 65535), 'U32': ('<I', 4, 0, 2**32 - 1),
       'U64': ('<Q', 8, 0, 2**64 - 1), 'S8': ('<b', 1, -128, 127), 'S16': ('<h', 2, -32768, 32767),
       'S32': ('<i', 4, -2**31, 2**31 - 1), 'S64': ('<q', 8, -2**63, 2**63 - 1),
       'BOOL': ('<B', 1, 0, 1), 'IPPORT': ('>H', 2, 0, 65535)}
FLT = {'F32': ('<f', 4, 1), 'F64': ('<d', 8, 1), 'LLVector3': ('<3f', 12, 3),
       'LLVector3d': ('<3d', 24, 3), 'LLVector4': ('<4f', 16, 4), 'LLQuaternion': ('<3f', 12, 3)}
RAW = {'LLUUID': 16, 'IPADDR': 4}

ZERO, RELIABLE, RESENT, ACK = 0x80, 0x40, 0x20, 0x10


class Bad(Exception):
    """not a complete, well formed datagram"""


class Ambiguous(Exception):
    """the layout says nothing about this input"""


class Var(object):
    __slots__ = ('name', 'type', 'size')


class Blk(object):
    __slots__ = ('name', 'kind', 'number', 'vars')


class Msg(object):
    __slots__ = ('name', 'freq', 'num', 'trust', 'zero', 'blocks', 'prefix', 'has_uuid', 'weight', 'minsize')


def parse_template(text):
    lines = []
    for line in text.split('\n'):
        i = line.find('//')
        if i >= 0:
            line = line[:i]
        lines.append(line)
    text = '\n'.join(lines).replace('{', ' { ').replace('}', ' } ').replace('\r', ' ')
    toks = text.split()
    pos = 0
    if toks[0] == 'version':
        pos = 2
    out = {}
    n = len(toks)
    while pos < n:
        assert toks[pos] == '{', toks[pos:pos + 5]
        pos += 1
        m = Msg()
        head = []
        while toks[pos] not in '{}':
            head.append(toks[pos])
            pos += 1
        m.name, m.freq = head[0], head[1]
        num = int(head[2], 0)
        m.trust, m.zero = head[3], head[4] == 'Zerocoded'
        m.blocks = []
        while toks[pos] == '{':
            pos += 1
            b = Blk()
            b.name, b.kind = toks[pos], toks[pos + 1]
            pos += 2
            b.number = 1
            if b.kind == 'Multiple':
                b.number = int(toks[pos])
                pos += 1
            elif toks[pos] not in '{}':
                pos += 1
            b.vars = []
            while toks[pos] == '{':
                v = Var()
                v.name, v.type = toks[pos + 1], toks[pos + 2]
                pos += 3
                v.size = None
                if toks[pos] != '}':
                    v.size = int(toks[pos])
                    pos += 1
                assert toks[pos] == '}', (m.name, b.name, v.name, toks[pos])
                pos += 1
                b.vars.append(v)
            assert toks[pos] == '}'
            pos += 1
            m.blocks.append(b)
        assert toks[pos] == '}', (m.name, toks[pos])
        pos += 1
        if m.freq == 'High':
            m.num, m.prefix = num, struct.pack('>B', num)
        elif m.freq == 'Medium':
            m.num, m.prefix = num, '\xff' + struct.pack('>B', num)
        elif m.freq == 'Low':
            m.num, m.prefix = num, '\xff\xff' + struct.pack('>H', num)
        else:
            m.num = num & 0xff
            m.prefix = '\xff\xff\xff' + struct.pack('>B', num & 0xff)
        m.has_uuid = None
        for b in m.blocks:
            if b.kind == 'Single':
                for v in b.vars:
                    if v.type == 'LLUUID':
                        m.has_uuid = m.has_uuid or (b.name, v.name)
        out[m.name] = m
    return out


class Codec(object):

    def __init__(self, text):
        self.msgs = parse_template(text)
        self.names = sorted(self.msgs)
        self.by_prefix = dict((m.prefix, m) for m in self.msgs.values())

    # ---- encoding --------------------------------------------------------
    def body(self, name, content):
        m = self.msgs[name]
        out = [m.prefix]
        for b in m.blocks:
            rows = content.get(b.name, [])
            if b.kind == 'Variable':
                out.append(chr(len(rows)))
            else:
                assert len(rows) == b.number, (name, b.name)
            for row in rows:
                for v in b.vars:
                    out.append(enc_value(v, row[v.name]))
        return ''.join(out)

    def encode(self, name, content, seq, flags=0, acks=None, zero=False, hdr='', split=None):
        """`hdr`: extra header bytes, announced by the offset byte; `split`: an
        RNG which breaks runs of zeros up (any encoding of a run is legal)"""
        body = self.body(name, content)
        if zero:
            flags |= ZERO
            body = zero_encode(body, split)
            hdr = hdr.replace('\0', '\1')
        out = chr(flags | (acks and ACK or 0)) + struct.pack('>I', seq) + chr(len(hdr)) + hdr + body
        if acks:
            for a in acks:
                out += struct.pack('<I', a)
            out += chr(len(acks))
        return out

    # ---- decoding --------------------------------------------------------
    def header(self, data):
        """(flags, seq) of anything long enough to have them"""
        if len(data) < 5:
            raise Bad('short header')
        return ord(data[0]), struct.unpack('>I', data[1:5])[0]

    def split_acks(self, data):
        """(datagram without the ack trailer, ids)"""
        if not ord(data[0]) & ACK:
            return data, []
        n = ord(data[-1])
        if len(data) - 1 - 4 * n < 6:
            raise Bad('ack trailer longer than the datagram')
        end = len(data) - 1 - 4 * n
        ids = [struct.unpack('<I', data[end + 4 * i:end + 4 * i + 4])[0] for i in range(n)]
        return data[:end], ids

    def find(self, payload):
        """the message whose number starts the payload, or None"""
        if payload[:3] == '\xff\xff\xff':
            k = 4
        elif payload[:2] == '\xff\xff':
            k = 4
        elif payload[:1] == '\xff':
            k = 2
        else:
            k = 1
        if len(payload) < k:
            raise Bad('no message number')
        return self.by_prefix.get(payload[:k]), k

    def decode(self, data):
        """dict(name, flags, seq, acks, content, extra) or Bad / Ambiguous"""
        flags, seq = self.header(data)
        if len(data) < 7:
            raise Bad('no message number')
        core, acks = self.split_acks(data)
        if len(core) < 7:
            raise Bad('no message number')
        offset = ord(core[5])
        payload = core[6 + offset:]
        if not payload:
            raise Bad('no message number')
        if flags & ZERO:
            if '\0' in core[6:6 + offset]:
                raise Ambiguous('zero-coded extra header')
            payload = zero_decode(payload)
        m, k = self.find(payload)
        if m is None:
            return dict(name=None, flags=flags, seq=seq, acks=acks, content=None, extra='')
        pos = k
        content = {}
        for b in m.blocks:
            n = b.number
            if b.kind == 'Variable':
                if pos >= len(payload):
                    raise Bad('no block count')
                n = ord(payload[pos])
                pos += 1
            rows = content[b.name] = []
            for _ in range(n):
                row = {}
                for v in b.vars:
                    row[v.name], pos = dec_value(v, payload, pos)
                rows.append(row)
        if m.blocks and not [1 for b in m.blocks if content[b.name]]:
            raise Bad('empty')          # as the reference viewer has it
        return dict(name=m.name, flags=flags, seq=seq, acks=acks, content=content, extra=payload[pos:])


def enc_value(v, x):
    t = v.type
    if t in INT:
        return struct.pack(INT[t][0], x)
    if t in FLT:
        f, _, k = FLT[t]
        if k == 1:
            return struct.pack(f, x)
        return struct.pack(f, *x)
    if t in RAW:
        assert len(x) == RAW[t]
        return x
    if t == 'Fixed':
        assert len(x) == v.size
        return x
    assert t == 'Variable', t
    f = {1: '<B', 2: '<H', 4: '<I'}[v.size]
    return struct.pack(f, len(x)) + x


def dec_value(v, data, pos):
    t = v.type
    if t in INT:
        f, n = INT[t][:2]
    elif t in FLT:
        f, n = FLT[t][:2]
    elif t in RAW:
        f, n = None, RAW[t]
    elif t == 'Fixed':
        f, n = None, v.size
    else:
        f = {1: '<B', 2: '<H', 4: '<I'}[v.size]
        if pos + v.size > len(data):
            raise Bad('truncated length')
        n = struct.unpack(f, data[pos:pos + v.size])[0]
        pos += v.size
        f = None
    if pos + n > len(data):
        raise Bad('truncated %s' % v.name)
    raw = data[pos:pos + n]
    pos += n
    if f is None:
        return raw, pos
    x = struct.unpack(f, raw)
    if len(x) == 1:
        x = x[0]
    return x, pos


def zero_encode(body, split=None):
    out = []
    i, n = 0, len(body)
    while i < n:
        c = body[i]
        if c != '\0':
            out.append(c)
            i += 1
            continue
        j = i
        most = 255
        if split is not None and split.below(4) == 0:
            most = split.randint(1, 5)
        while j < n and body[j] == '\0' and j - i < most:
            j += 1
        out.append('\0' + chr(j - i))
        i = j
    return ''.join(out)


def zero_decode(data):
    out = []
    i, n = 0, len(data)
    while i < n:
        c = data[i]
        if c != '\0':
            out.append(c)
            i += 1
            continue
        if i + 1 >= n or data[i + 1] == '\0':
            raise Ambiguous('zero run without a count')
        out.append('\0' * ord(data[i + 1]))
        i += 2
    return ''.join(out)
