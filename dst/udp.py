"""Simulated UDP: sockets for the code under test, a faulty network, and a
reference peer that speaks the protocol through the independent codec."""
import errno
import socket as _socket

from core import CTX
import codec as C

CLIENT_IP = '10.0.0.1'


class SimUDPSocket(object):
    """what socket.socket(AF_INET, SOCK_DGRAM) returns inside a simulation;
    blocking calls suspend the calling coroutine, as a socket wrapped by
    eventlet does"""

    def __init__(self, *args, **kw):
        self.net = CTX.net
        self.sim = CTX.sim
        self.addr = self.net.attach(self)
        self.rx = []
        self.waiters = []
        self.closed = False
        self.timeout = None
        self.reading = False
        self.rx_errors = 0

    # configuration, mostly ignored
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = not flag and 0.0 or None

    def setsockopt(self, *args):
        pass

    def getsockopt(self, *args):
        return 0

    def bind(self, addr):
        pass

    def connect(self, addr):
        pass

    def fileno(self):
        return self

    def getsockname(self):
        return self.addr

    def close(self):
        self.closed = True
        for t in self.waiters:
            self.sim.wake(t)

    def sendto(self, data, *rest):
        addr = rest[-1]
        sim = self.sim
        if not isinstance(data, str):
            data = data.encode('ascii')
        addr = (addr[0], int(addr[1]))
        idx = self.net.tx_entry(self, data, addr)
        sim.yield_()                        # wait until writable
        err = self.net.tx_fault(self, data, addr, idx)
        if err:
            raise err
        self.net.tx_done(self, data, addr, idx)
        return len(data)

    def recvfrom(self, bufsize, *flags):
        sim = self.sim
        sim.yield_()                        # wait until readable
        self.net.rx_wait(self)
        waited = self.timeout
        while True:
            if self.closed:
                raise _socket.error(errno.EBADF, 'closed')
            if self.rx_errors:
                self.rx_errors -= 1
                sim.stat('fault.recv_error')
                sim.rec('recv_error', self.addr)
                self.net.errs += 1
                raise sock_error(self.net.errs)
            if self.rx:
                data, src, did = self.rx.pop(0)
                # what does not fit is cut off; the model knows the whole datagram
                self.net.rx_taken(self, data, src, did)
                return data[:bufsize], src
            if self.timeout == 0.0:
                raise _socket.error(errno.EAGAIN, 'would block')
            self.waiters.append(sim.current)
            r = sim.wait(waited)
            if sim.current in self.waiters:
                self.waiters.remove(sim.current)
            if r == 'timeout':
                raise _socket.timeout('timed out')

    def recv(self, bufsize, *flags):
        return self.recvfrom(bufsize)[0]

    # ---- simulator side
    def deliver(self, data, src, did):
        if self.closed:
            return
        self.rx.append((data, src, did))
        self.sim.rec('arrive', self.addr[1], did)
        if self.waiters:
            self.sim.wake(self.waiters.pop(0))

    def inject_error(self):
        self.rx_errors += 1
        if self.waiters:
            self.sim.wake(self.waiters.pop(0))


def sock_error(k):
    """the errors a UDP socket reports, in turn"""
    k %= 7
    if k == 5:
        return _socket.timeout('simulated timeout')
    if k == 6:
        return _socket.gaierror(-2, 'simulated failure of name resolution')
    return _socket.error((errno.ENETUNREACH, errno.ECONNREFUSED, errno.ECONNRESET, errno.ENOBUFS, errno.EPERM)[k], 'simulated socket error')


DEFAULTS = dict(drop=0.0, dup=0.0, slow=0.0, corrupt=0.0, senderr=0.0,
                lat=(0.02, 0.02, 0.05, 0.1, 0.3, 1.0))


class Net(object):
    """datagram network with per-link labelled faults"""

    def __init__(self, sim, cfg=None):
        self.sim = sim
        self.errs = 0
        self.cfg = dict(DEFAULTS)
        self.cfg.update(cfg or {})
        self.sockets = {}
        self.peers = {}
        self.cut = set()                   # addresses currently partitioned away
        self.next_port = 40000
        self.tx = []                       # every datagram handed to a client socket
        self.rx = []                       # every datagram a client socket returned
        self.did = 0
        self.on_tx = None                  # callbacks of the world
        self.on_rx = None
        self.on_rx_wait = None
        self.fail_next = {}                # addr -> number of sends to fail
        self.quiet = False                 # faults switched off

    def attach(self, sock):
        self.next_port += 1
        addr = (CLIENT_IP, self.next_port)
        self.sockets[addr] = sock
        return addr

    def name(self, addr):
        p = self.peers.get(addr)
        if p is not None:
            return p.name
        if addr[0] == CLIENT_IP:
            return 'c%d' % (addr[1] - 40000)
        return '%s:%s' % addr

    # ---- client socket hooks
    def tx_entry(self, sock, data, dst):
        sim = self.sim
        e = dict(i=len(self.tx), t=sim.now, sock=sock.addr, dst=dst, data=data, ok=None,
                 task=sim.current.tid, step=sim.steps, fin=None)
        self.tx.append(e)
        sim.rec('tx', self.name(sock.addr), self.name(dst), data)
        if self.on_tx:
            self.on_tx(e)
        return e

    def tx_fault(self, sock, data, dst, e):
        e['fin'] = self.sim.steps
        if len(data) > 65507:
            e['ok'] = False
            return _socket.error(errno.EMSGSIZE, 'too long')
        k = self.fail_next.get(dst, 0)
        if k:
            self.fail_next[dst] = k - 1
        elif self.quiet or not self.sim.choices.chance('senderr:' + self.name(dst), self.cfg['senderr']):
            return 0
        e['ok'] = False
        self.sim.stat('fault.send_error')
        self.sim.rec('send_error', self.name(dst))
        self.errs += 1
        return sock_error(self.errs)

    def tx_done(self, sock, data, dst, e):
        e['ok'] = True
        self.transmit(sock.addr, dst, data)

    def rx_wait(self, sock):
        if self.on_rx_wait:
            self.on_rx_wait(sock)

    def rx_taken(self, sock, data, src, did):
        e = dict(i=len(self.rx), t=self.sim.now, sock=sock.addr, src=src, data=data, did=did,
                 task=self.sim.current.tid, step=self.sim.steps, ntx=len(self.tx))
        self.rx.append(e)
        self.sim.rec('rx', self.name(sock.addr), self.name(src), data)
        if self.on_rx:
            self.on_rx(e)

    # ---- the wire
    def transmit(self, src, dst, data):
        sim, cfg, ch = self.sim, self.cfg, self.sim.choices
        self.did += 1
        did = self.did
        link = self.name(src) + '>' + self.name(dst)
        if src in self.cut or dst in self.cut:
            sim.stat('fault.partition_drop')
            return
        if self.quiet:
            sim.after(cfg['lat'][0], self._arrive, src, dst, data, did)
            return
        if ch.chance('drop:' + link, cfg['drop']):
            sim.stat('fault.drop')
            sim.rec('drop', link, did)
            return
        copies = 1
        if ch.chance('dup:' + link, cfg['dup']):
            sim.stat('fault.dup')
            copies = 2
        for k in range(copies):
            d = cfg['lat'][0]
            if ch.chance('slow:' + link, cfg['slow']):
                d = ch.pick('lat:' + link, cfg['lat'])
                sim.stat('fault.delay')
            if k:
                d = d + 0.01 + d * ch.draw('dupd:' + link, 4)
            out = data
            if ch.chance('corrupt:' + link, cfg['corrupt']):
                out = self.damage(link, data)
                sim.stat('fault.corrupt')
            sim.after(d, self._arrive, src, dst, out, did)

    def damage(self, link, data):
        ch = self.sim.choices
        kind = ch.draw('dmgk:' + link, 5)
        n = len(data)
        if not n:
            return data
        pos = ch.draw('dmgp:' + link, n)
        if kind <= 1:
            return data[:pos]
        if kind == 2:
            return data[:pos] + chr(ord(data[pos]) ^ (1 << ch.draw('dmgb:' + link, 8))) + data[pos + 1:]
        if kind == 3:
            return data[:pos] + chr(ch.draw('dmgv:' + link, 256)) + data[pos + 1:]
        return data + chr(ch.draw('dmgv:' + link, 256)) * (1 + pos % 5)

    def _arrive(self, src, dst, data, did):
        if src in self.cut or dst in self.cut:
            self.sim.stat('fault.partition_drop')
            return
        s = self.sockets.get(dst)
        if s is not None:
            s.deliver(data, src, did)
            return
        p = self.peers.get(dst)
        if p is not None:
            p.on_datagram(data, src)


class Peer(object):
    """a region/simulator (or any other party) at the far end"""

    def __init__(self, net, name, addr, codec, cfg=None):
        self.net, self.sim, self.name, self.addr, self.codec = net, net.sim, name, addr, codec
        net.peers[addr] = self
        self.cfg = dict(ack=1.0, ack_style='packet', ack_delay=0.0, dup_ack=0.0, resend=0, zero=True)
        self.cfg.update(cfg or {})
        self.seq = self.cfg.get('seq0', 0)
        self.sent = {}            # seq -> dict(name, content, data, reliable)
        self.sent_list = []
        self.got = []             # decoded datagrams
        self.owed = []            # ids to acknowledge
        self.acked_by_client = set()
        self.unacked = {}
        self.silent = False

    def send(self, dst, name, content, reliable=False, zero=False, acks=None, resent=False, seq=None, extra_flags=0, hdr='', split=None):
        if seq is None:
            seq = self.next_seq()
        flags = (reliable and C.RELIABLE or 0) | (resent and C.RESENT or 0) | extra_flags
        data = self.codec.encode(name, content, seq, flags, acks, zero, hdr, split)
        assert len(data) <= 10000, 'datagrams of more than 10000 bytes are not modelled'
        e = dict(name=name, content=content, data=data, reliable=reliable, seq=seq, acks=acks or [], t=self.sim.now)
        self.sent[seq] = e
        self.sent_list.append(e)
        if reliable:
            self.unacked[seq] = [data, dst, self.cfg['resend']]
        self.net.transmit(self.addr, dst, data)
        return e

    def next_seq(self):
        self.seq = (self.seq + 1) & 0xffffffff
        return self.seq

    def raw(self, dst, data):
        self.net.transmit(self.addr, dst, data)

    def resend_unacked(self):
        for seq in sorted(self.unacked):
            data, dst, left = self.unacked[seq]
            if left > 0:
                self.unacked[seq][2] -= 1
                self.sim.stat('peer.resend')
                self.net.transmit(self.addr, dst, chr(ord(data[0]) | C.RESENT) + data[1:])
            else:
                del self.unacked[seq]

    def send_acks(self, dst, ids, style='packet'):
        if style == 'packet':
            self.send(dst, 'PacketAck', {'Packets': [{'ID': i} for i in ids]})
        else:
            self.send(dst, 'StartPingCheck', {'PingID': [{'PingID': len(self.got) & 255, 'OldestUnacked': 0}]}, acks=ids)

    def on_datagram(self, data, src):
        try:
            d = self.codec.decode(data)
        except (C.Bad, C.Ambiguous), e:
            self.got.append(dict(bad=repr(e), data=data, src=src))
            return
        d['data'], d['src'] = data, src
        self.got.append(d)
        for a in d['acks']:
            self.unacked.pop(a, None)
        if d['name'] == 'PacketAck':
            for row in d['content']['Packets']:
                self.unacked.pop(row['ID'], None)
        if d['flags'] & C.RELIABLE and not self.silent:
            ch, cfg = self.sim.choices, self.cfg
            if cfg['ack'] > 0 and not ch.chance('noack:' + self.name, 1.0 - cfg['ack']):
                delay = cfg['ack_delay'] and ch.pick('ackd:' + self.name, (0.0, cfg['ack_delay'], 3 * cfg['ack_delay'])) or 0.0
                self.sim.after(delay, self._ack, src, d['seq'])
                if ch.chance('dupack:' + self.name, cfg['dup_ack']):
                    self.sim.stat('fault.dup_ack')
                    self.sim.after(delay + 0.5, self._ack, src, d['seq'])

    def _ack(self, src, seq):
        style = self.cfg['ack_style']
        if style == 'mixed':
            style = self.sim.choices.pick('acks:' + self.name, ('packet', 'append', 'batch'))
        if style == 'batch':
            self.owed.append(seq)
            if len(self.owed) < 3:
                self.sim.after(0.4, self._flush, src)
                return
            self._flush(src)
            return
        self.send_acks(src, [seq], style == 'append' and 'append' or 'packet')

    def _flush(self, src):
        if self.owed:
            ids, self.owed = self.owed, []
            self.send_acks(src, ids)
