"""Generation of message content, and its translation to and from the values
the library under test uses."""
import math
import struct
import uuid as _uuid

from core import RNG
import codec as C

TEXT = [u'', u'a', u'hello world', u'Ruth', u'caf\xe9', u'\u65e5\u672c\u8a9e', u'x' * 60,
        u'line\nline', u'a\0b', u'\xff\xfe', u'%s %d', u'<llsd/>', u'0']


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def gen_f(rng, wide):
    k = rng.below(6)
    if k == 0:
        x = rng.choice([0.0, 1.0, -1.0, 0.5, 256.0, -0.25])
    elif k == 1:
        x = rng.uniform(-1e30, 1e30)
    elif k == 2:
        x = rng.uniform(-1e-20, 1e-20)
    else:
        x = rng.uniform(-4096, 4096)
    return wide and x or f32(x)


def gen_bytes(rng, n):
    k = rng.below(5)
    if k == 0:
        return '\0' * n
    if k == 1:
        return '\xff' * n
    if k == 2:
        return ''.join([chr(rng.below(3)) for _ in range(n)])
    if k == 3:
        m = rng.below(n + 1)
        return ''.join([chr(rng.below(256)) for _ in range(m)]) + '\0' * (n - m)
    return ''.join([chr(rng.below(256)) for _ in range(n)])


def gen_value(rng, v, small):
    t = v.type
    if t in C.INT:
        _, _, lo, hi = C.INT[t]
        k = rng.below(6)
        if k == 0:
            return lo
        if k == 1:
            return hi
        if k == 2 or hi <= 2:
            return rng.randint(0, 1)
        if k == 3:
            return rng.randint(0, min(hi, 1000))
        return rng.randint(lo, hi)
    if t == 'F32':
        return gen_f(rng, False)
    if t == 'F64':
        return gen_f(rng, True)
    if t == 'LLVector3' or t == 'LLVector4':
        return tuple([gen_f(rng, False) for _ in range(C.FLT[t][2])])
    if t == 'LLVector3d':
        return tuple([gen_f(rng, True) for _ in range(3)])
    if t == 'LLQuaternion':
        k = rng.below(5)
        if k == 0:
            return (0.0, 0.0, 0.0)
        if k == 1:
            return (f32(rng.choice([-0.5, 0.5])), 0.0, 0.0)
        v3 = [rng.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum([x * x for x in v3])) or 1.0
        r = rng.uniform(0.05, 0.98)
        return tuple([f32(x / n * r) for x in v3])
    if t == 'LLUUID':
        if rng.below(8) == 0:
            return '\0' * 16
        return ''.join([chr(rng.below(256)) for _ in range(16)])
    if t == 'IPADDR':
        return gen_bytes(rng, 4)
    if t == 'Fixed':
        return gen_bytes(rng, v.size)
    # Variable
    k = rng.below(8)
    if k < 4:
        return rng.choice(TEXT).encode('utf-8')
    if k == 4:
        return ''
    if v.size == 1:
        n = rng.choice([1, 2, 15, 100, 253, 254])
    else:
        n = rng.choice([1, 3, 255, 256, 257, 700, 1300, 2600])
    if small:
        n = min(n, 20)
    return gen_bytes(rng, n)


def make(codec, name, cs, token=None, small=True):
    """canonical content of message `name` as decided by the integer cs"""
    rng = RNG(cs)
    m = codec.msgs[name]
    content = {}
    total = 0
    for b in m.blocks:
        if b.kind == 'Single':
            n = 1
        elif b.kind == 'Multiple':
            n = b.number
        else:
            n = rng.weighted([(1, 5), (2, 3), (3, 2), (6, 1), (0, 1)])
            if not small and rng.below(4) == 0:
                n = rng.choice([20, 60, 255])
        rows = content[b.name] = []
        for _ in range(n):
            row = {}
            for v in b.vars:
                row[v.name] = x = gen_value(rng, v, small or n > 6)
                total += 24
                if v.type in ('Variable', 'Fixed'):
                    total += len(x)
            rows.append(row)
            if total > 7000 and b.kind == 'Variable':
                break
    if m.blocks and not [1 for b in m.blocks if content[b.name]]:
        b = m.blocks[0]
        content[b.name].append(dict((v.name, gen_value(rng, v, True)) for v in b.vars))
    if token is not None:
        bn, vn = m.has_uuid
        content[bn][0][vn] = struct.pack('>QQ', 0x5eed5eed5eed5eed, token)
    return content


def token_of(codec, name, content):
    m = codec.msgs.get(name)
    if m is None or m.has_uuid is None:
        return None
    bn, vn = m.has_uuid
    a, b = struct.unpack('>QQ', content[bn][0][vn])
    if a == 0x5eed5eed5eed5eed:
        return b
    return None


def resendable(codec, name, content):
    """what a received message contains once it is sent on, or None"""
    out = {}
    for b in codec.msgs[name].blocks:
        if not content[b.name]:
            return None
        out[b.name] = []
        for row in content[b.name]:
            new = {}
            for v in b.vars:
                x = row[v.name]
                if v.type == 'LLQuaternion' and not sum([c * c for c in x]) < 0.999:
                    return None
                if v.type == 'Variable':
                    if v.name != 'Data':
                        x = x.rstrip('\0')
                    if len(x) >= (v.size == 1 and 255 or 65535):
                        return None
                new[v.name] = x
            out[b.name].append(new)
    return out


# ---- library side --------------------------------------------------------

class Lib(object):
    """lazily imported names of the library under test"""

    def __init__(self):
        from pyogp.lib.base.message.message import Message, Block
        from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
        self.Message, self.Block = Message, Block
        self.UUID, self.Vector3, self.Quaternion = UUID, Vector3, Quaternion

LIB = None


def lib():
    global LIB
    if LIB is None:
        LIB = Lib()
    return LIB


def ints(xs, rng):
    """some whole numbers as the int they are"""
    return tuple([rng.below(2) and abs(x) < 2 ** 24 and x == int(x) and int(x) or x for x in xs])


def to_lib(v, x, rng):
    L = lib()
    t = v.type
    if t == 'BOOL':
        return rng.below(2) and bool(x) or x
    if t == 'LLUUID':
        u = _uuid.UUID(bytes=x)
        k = rng.below(3)
        if k == 0:
            return u
        if k == 1:
            return L.UUID(str(u))
        return L.UUID(bytes=x)
    if t == 'LLVector3':
        x = ints(x, rng)
        if rng.below(2):
            return L.Vector3(X=x[0], Y=x[1], Z=x[2])
        return x
    if t in ('F32', 'F64'):
        return ints((x,), rng)[0]
    if t in ('LLVector3d', 'LLVector4'):
        return ints(x, rng)
    if t == 'LLQuaternion':
        t2 = 1.0 - (x[0] * x[0] + x[1] * x[1] + x[2] * x[2])
        w = t2 > 0 and math.sqrt(t2) or 0.0
        if w > 0.01 and rng.below(2):
            q = (-x[0], -x[1], -x[2], -w)
        else:
            q = (x[0], x[1], x[2], w)
        if rng.below(2):
            return L.Quaternion(X=q[0], Y=q[1], Z=q[2], W=q[3])
        return q
    if t in ('Fixed', 'IPADDR') and rng.below(3) == 0:
        # text is as good as its UTF-8 encoding
        try:
            u = x.decode('utf-8')
            if u.encode('utf-8') == x:
                return u
        except UnicodeError:
            pass
    if t == 'Variable' and v.name != 'Data':
        if x == '' and rng.below(3) == 0:
            return None
        try:
            u = x.decode('utf-8')
            if u.encode('utf-8') == x and rng.below(2):
                return u
        except UnicodeError:
            pass
    return x


def build(codec, name, content, cs):
    """a Message of the library under test with this content, or None when
    the public API cannot express it (no instance of a variable block)"""
    L = lib()
    rng = RNG(cs ^ 0x77)
    m = codec.msgs[name]
    blocks = []
    for b in m.blocks:
        rows = content[b.name]
        if not rows:
            return None
        made = []
        for row in rows:
            kw = {}
            for v in b.vars:
                kw[v.name] = to_lib(v, row[v.name], rng)
            made.append(L.Block(b.name, **kw))
        if len(made) > 1 and rng.below(2):
            blocks.append(made)
        else:
            blocks.extend(made)
    return L.Message(name, *blocks)


def same_float(a, b):
    return a == b or (a != a and b != b)


def from_lib_matches(v, got, exp, trailing):
    """does the value the library delivered represent exp?"""
    t = v.type
    if t in C.INT:
        return not isinstance(got, (str, unicode, float)) and got == exp
    if t in ('F32', 'F64'):
        return isinstance(got, float) and same_float(got, exp)
    if t in ('LLVector3d', 'LLVector4'):
        got = tuple(got)
        return len(got) == len(exp) and not [1 for a, b in zip(got, exp) if not same_float(a, b)]
    if t == 'LLVector3':
        return same_float(got.X, exp[0]) and same_float(got.Y, exp[1]) and same_float(got.Z, exp[2])
    if t == 'LLQuaternion':
        if not (same_float(got.X, exp[0]) and same_float(got.Y, exp[1]) and same_float(got.Z, exp[2])):
            return False
        n = exp[0] * exp[0] + exp[1] * exp[1] + exp[2] * exp[2]
        if n != n or n > 1e30:
            return True
        w = n < 1 and math.sqrt(1 - n) or 0.0
        return abs(got.W - w) < 1e-3
    if t == 'LLUUID':
        return str(got) == str(_uuid.UUID(bytes=exp))
    if t == 'Variable':
        if v.name == 'Data':
            return isinstance(got, str) and got == exp
        return isinstance(got, str) and got == exp.rstrip('\0')
    return isinstance(got, str) and got == exp


def snapshot(msg):
    """the content of a delivered Message as plain lists (taken at delivery)"""
    out = {}
    for bname in msg.blocks:
        out[bname] = [[(n, row.vars[n].data) for n in row.var_list] for row in msg.blocks[bname]]
    return out


def same(a, b):
    return a is b or type(a) == type(b) and a == b


def dict_differs(msg, snap):
    """what the dictionary form of a message has different, or None"""
    try:
        d = msg.to_dict()
        body = d['body']
        if d['message'] != msg.name:
            return 'its name is %r' % (d['message'],)
        snap = dict((b, snap[b]) for b in snap if snap[b])
        body = dict((b, body[b]) for b in body if body[b])
        if sorted(body) != sorted(snap):
            return 'it has the blocks %s instead of %s' % (sorted(body), sorted(snap))
        for b in snap:
            if len(body[b]) != len(snap[b]):
                return '%d of %d blocks %s' % (len(body[b]), len(snap[b]), b)
            for got, row in zip(body[b], snap[b]):
                want = dict(row)
                if sorted(got) != sorted(want):
                    return 'block %s has the fields %s' % (b, sorted(got))
                for n in want:
                    if not same(got[n], want[n]):
                        return '%s of %s is %r instead of %r' % (n, b, got[n], want[n])
    except Exception, e:
        return 'it raised %r' % e


def diff_delivered(codec, name, snap, content):
    """None if the delivered snapshot equals the content, else a description"""
    m = codec.msgs[name]
    extra = [b for b in snap if b not in content]
    if extra:
        return 'unexpected blocks %s' % sorted(extra)
    for b in m.blocks:
        exp = content.get(b.name, [])
        got = snap.get(b.name, [])
        if len(exp) != len(got):
            return '%s: %d instances instead of %d' % (b.name, len(got), len(exp))
        for i in range(len(exp)):
            g = dict(got[i])
            if len(g) != len(b.vars):
                return '%s[%d]: fields %s' % (b.name, i, sorted(g))
            for v in b.vars:
                if v.name not in g:
                    return '%s[%d].%s missing' % (b.name, i, v.name)
                try:
                    ok = from_lib_matches(v, g[v.name], exp[i][v.name], True)
                except Exception, e:
                    return '%s[%d].%s (%s): %r: %s' % (b.name, i, v.name, v.type, g[v.name], e)
                if not ok:
                    return '%s[%d].%s (%s) is %r instead of %r' % (b.name, i, v.name, v.type, g[v.name], exp[i][v.name])
    return None


def diff_wire(codec, name, dec, content):
    """compare a decoded outgoing datagram with the content that was sent"""
    if dec['name'] != name:
        return 'name %r instead of %r' % (dec['name'], name)
    m = codec.msgs[name]
    for b in m.blocks:
        exp = content[b.name]
        got = dec['content'][b.name]
        if len(exp) != len(got):
            return '%s: %d instances instead of %d' % (b.name, len(got), len(exp))
        for i in range(len(exp)):
            for v in b.vars:
                g, e = got[i][v.name], exp[i][v.name]
                if v.type == 'Variable':
                    ok = g == e + '\0' or (v.name == 'Data' and g == e)
                elif v.type in C.FLT:
                    if C.FLT[v.type][2] == 1:
                        ok = same_float(g, e)
                    else:
                        ok = not [1 for a, c in zip(g, e) if not same_float(a, c)]
                else:
                    ok = g == e
                if not ok:
                    return '%s[%d].%s (%s) is %r instead of %r' % (b.name, i, v.name, v.type, g, e)
    return None
