"""What the demonstration needs: a stand-in for eventlet (not installed here) and for the UDP socket."""
import sys, types, struct, errno
import socket as _s


class Api(object):
    tasks = []            # (function, args, kwargs) in the order they were spawned
    on_sleep = None


def _spawn(fn, *a, **k):
    Api.tasks.append((fn, a, k))


def _sleep(n=0, *a):
    if Api.on_sleep:
        Api.__dict__['on_sleep'](n)


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


_api = _mod('eventlet.api', spawn=_spawn, sleep=_sleep)
_util = _mod('eventlet.util', wrap_socket_with_coroutine_socket=lambda *a: None)
_mod('eventlet', api=_api, util=_util, spawn=_spawn, sleep=_sleep)


class Sock(object):
    """records what is sent, hands out what is in the inbox"""
    made = []

    def __init__(self, *a):
        self.sent = []            # (data, address)
        self.inbox = []           # (data, address), an exception, or something to call first
        self.on_send = None
        self.on_empty = None
        Sock.made.append(self)

    def sendto(self, data, addr):
        if self.on_send:
            self.on_send(data, addr)
        self.sent.append((data, tuple(addr)))
        return len(data)

    def recvfrom(self, n):
        while self.inbox:
            x = self.inbox.pop(0)
            if isinstance(x, Exception):
                raise x
            if callable(x):
                x()
                continue
            return x
        if self.on_empty:
            self.on_empty()
        raise _s.error(errno.ECONNABORTED, 'nothing more')

    def settimeout(self, t):
        pass

    def close(self):
        pass


import pyogp.lib.base.network.net as _net
_net.socket = types.ModuleType('socket')
_net.socket.__dict__.update(_s.__dict__)
_net.socket.socket = Sock

from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.settings import Settings

A, B = ('10.0.0.1', 13000), ('10.0.0.2', 13000)


def host(addr=A):
    return Host(addr)


def quiet():
    s = Settings(quiet_logging=True)
    return s


def packet(seq, body, flags=0, acks=()):
    d = struct.pack('>BIB', flags | (acks and 0x10 or 0), seq, 0) + body
    if acks:
        d += ''.join([struct.pack('<I', a) for a in acks]) + chr(len(acks))
    return d


def ping(n, oldest=0):
    return '\x01' + chr(n) + struct.pack('<I', oldest)


def pong(n):
    return '\x02' + chr(n)


def packet_ack(ids):
    return '\xff\xff\xff\xfb' + chr(len(ids)) + ''.join([struct.pack('<I', a) for a in ids])


def seq_of(d):
    return struct.unpack('>I', d[1:5])[0]


def acks_in(d):
    """the acks a datagram carries"""
    out = []
    if ord(d[0]) & 0x10:
        n = ord(d[-1])
        out += struct.unpack('<%dI' % n, d[-1 - 4 * n:-1])
        d = d[:-1 - 4 * n]
    if d[6:10] == '\xff\xff\xff\xfb':
        n = ord(d[10])
        out += struct.unpack('<%dI' % n, d[11:11 + 4 * n])
    return out


def ping_msg(n=1, oldest=0):
    return Message('StartPingCheck', Block('PingID', PingID=n, OldestUnacked=oldest))


def pong_msg(n=1):
    return Message('CompletePingCheck', Block('PingID', PingID=n))


def dispatcher(settings=None, handler=None, **kw):
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    d = UDPDispatcher(settings=settings or quiet(), message_handler=handler, **kw)
    return d, Sock.made[-1]


def manager(addr=A, settings=None, **kw):
    from pyogp.lib.base.message_manager import MessageManager
    m = MessageManager(Host(addr), settings=settings or quiet(), **kw)
    k = Sock.made[-1]
    k.on_empty = m.stop_monitors
    return m, k


def run(task=None):
    """runs the next spawned coroutine to its end"""
    fn, a, k = task or Api.tasks.pop(0)
    return fn(*a, **k)


def receive(d, sock, data, addr=A):
    """one datagram through a bare dispatcher"""
    sock.inbox.append((data, addr))
    buf, n = d.udp_client.receive_packet(d.socket)
    return d.receive_check(d.udp_client.get_sender(), buf, n)


def expect(got, want, what):
    if got != want:
        print 'FAIL %s: got %r, expected %r' % (what, got, want)
        sys.stdout.flush()
        import os
        os._exit(1)
    print 'ok   %s' % what
