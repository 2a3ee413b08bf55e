"""Puts the code under test into the simulator: a stand-in for eventlet (not
installed here), simulated sockets, simulated time.  Import before pyogp."""
import sys
import os
import types
import time
import socket
import logging

from core import CTX, GreenletExit, Sim
import udp

REPO = os.environ.get('DST_REPO', '/repo')


def of_library(path):
    return os.path.realpath(path).startswith(os.path.join(os.path.realpath(REPO), 'pyogp', 'lib', 'base') + os.sep)




# ---- eventlet ------------------------------------------------------------

def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


def spawn(fn, *args, **kw):
    sim = CTX.sim
    name = getattr(fn, '__name__', 'task')
    t = sim.spawn(name, fn, *args, **kw)
    if sim.spawn_hook:
        sim.spawn_hook(t, fn)
    return t


def sleep(seconds=0, *a):
    sim = CTX.sim
    h = sim.sleep_hook
    if h:
        seconds = h(seconds)
    sim.sleep(seconds or 0)


def kill(task, exc=None, *rest):
    sim = CTX.sim
    if task.done:
        return
    sim.throw(task, exc is None and GreenletExit() or (isinstance(exc, type) and exc() or exc))
    sim.yield_()


def getcurrent():
    return CTX.sim.current


class _Timer(object):
    def __init__(self):
        self.cancelled = False

    def cancel(self):
        self.cancelled = True


def call_after(seconds, fn, *args, **kw):
    t = _Timer()

    def fire():
        if not t.cancelled:
            spawn(fn, *args, **kw)
    CTX.sim.after(seconds, fire)
    return t


class TimeoutError(Exception):
    pass


def exc_after(seconds, *exc):
    t = _Timer()
    sim = CTX.sim
    task = sim.current
    e = exc and exc[0] or TimeoutError()
    if isinstance(e, type):
        e = e(*exc[1:2])

    def fire():
        if not t.cancelled:
            sim.throw(task, e)
    sim.after(seconds, fire)
    return t


def with_timeout(seconds, fn, *args, **kw):
    has = 'timeout_value' in kw
    val = kw.pop('timeout_value', None)
    err = TimeoutError()
    t = exc_after(seconds, err)
    try:
        try:
            return fn(*args, **kw)
        except TimeoutError, e:
            if e is err and has:
                return val
            raise
    finally:
        t.cancel()


class _Event(object):
    """eventlet.coros.event"""

    def __init__(self):
        self._result = self
        self._waiters = []

    def ready(self):
        return self._result is not self

    def wait(self):
        if self._result is self:
            self._waiters.append(CTX.sim.current)
            CTX.sim.wait()
        return self._result

    def send(self, result=None, exc=None):
        self._result = result
        for w in self._waiters:
            CTX.sim.wake(w)


def install():
    api = _mod('eventlet.api', spawn=spawn, sleep=sleep, kill=kill, getcurrent=getcurrent,
               call_after=call_after, call_after_local=call_after, call_after_global=call_after,
               exc_after=exc_after, with_timeout=with_timeout, TimeoutError=TimeoutError,
               GreenletExit=GreenletExit, spawn_after=call_after)
    util = _mod('eventlet.util', wrap_socket_with_coroutine_socket=lambda *a: None,
                wrap_select_with_coroutine_select=lambda *a: None,
                wrap_pipes_with_coroutine_pipes=lambda *a: None)
    coros = _mod('eventlet.coros', event=_Event)
    gt = _mod('eventlet.greenthread', spawn=spawn, sleep=sleep, kill=kill, getcurrent=getcurrent)
    _mod('eventlet', api=api, util=util, coros=coros, greenthread=gt, spawn=spawn, sleep=sleep,
         kill=kill, getcurrent=getcurrent, spawn_n=spawn, spawn_after=call_after,
         monkey_patch=lambda *a, **k: None, __path__=[])
    Sim.sleep_hook = None

    CTX.real_time, CTX.real_sleep = time.time, time.sleep
    time.time = _Time()
    time.sleep = _Sleep()
    socket.socket = udp.SimUDPSocket
    socket.create_connection = _connect
    logging.disable(logging.CRITICAL)
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]


class _Time(object):
    """not functions: attributes of Jython's time module would be bound"""

    def __call__(self):
        sim = CTX.sim
        if sim is not None:
            sim.clock_reads += 1
            if sim.clock_reads > 2000 and sim.current is not None:
                # spinning on the clock: time goes by, nobody else runs
                sim.block_all(0.01)
            return sim.now
        return CTX.real_time()


class _Sleep(object):

    def __call__(self, s):
        # not a coroutine operation: the whole process sleeps
        if CTX.sim is not None:
            CTX.sim.block_all(s)
        else:
            CTX.real_sleep(s)


def _connect(address, timeout=None, source_address=None, *a):
    return CTX.http.connect(address, timeout)


class Null(object):
    """swallows what the code under test prints"""

    def write(self, s):
        pass

    def writelines(self, s):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False


# ---- loading the code under test -------------------------------------------

def memoize(cls, pyogp_keys):
    """constructing with default arguments parses a big file every time; keep
    what the first construction produced and copy its attributes afterwards"""
    orig = cls.__init__
    cache = {}

    def __init__(self, *args, **kw):
        if args or [1 for v in kw.values() if v is not None]:
            return orig(self, *args, **kw)
        if 'd' not in cache:
            orig(self)
            cache['d'] = dict(self.__dict__)
        for k, v in cache['d'].items():
            if type(v) is dict:
                v = dict(v)
            elif type(v) is list:
                v = list(v)
            self.__dict__[k] = v
    cls.__init__ = __init__


class P(object):
    """the names of the library used by the worlds"""


def load():
    import pyogp.lib.base.message.template_dict as td
    import pyogp.lib.base.message.message_dot_xml as mx
    assert os.path.realpath(td.__file__.replace('$py.class', '.py')).startswith(os.path.realpath(REPO)), td.__file__
    memoize(td.TemplateDictionary, ())
    memoize(mx.MessageDotXML, ())
    from pyogp.lib.base.message_manager import MessageManager
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.message.message_handler import MessageHandler
    from pyogp.lib.base.message.circuit import Host
    from pyogp.lib.base.settings import Settings
    from pyogp.lib.base.event_queue import EventQueueClient
    from pyogp.lib.base.caps import Capability, SeedCapability
    from pyogp.lib.base.helpers import Wait
    from pyogp.lib.base import exc
    P.MessageManager, P.UDPDispatcher, P.MessageHandler = MessageManager, UDPDispatcher, MessageHandler
    P.Host, P.Settings, P.EventQueueClient = Host, Settings, EventQueueClient
    from pyogp.lib.base.network.stdlib_client import StdLibClient
    P.StdLibClient = StdLibClient
    P.Capability, P.SeedCapability, P.Wait, P.exc = Capability, SeedCapability, Wait, exc
    P.MessageDotXML = mx.MessageDotXML
    data = os.path.join(REPO, 'pyogp/lib/base/message/data/')
    P.template_text = open(data + 'message_template.msg', 'rb').read()
    P.xml_text = open(data + 'message.xml', 'rb').read()
    import codec
    P.codec = codec.Codec(P.template_text)
    P.flavors = flavors(P.xml_text)
    P.banned = sorted([n for n in P.codec.names if P.flavors.get(n, 'template') != 'template'])
    P.allowed = sorted([n for n in P.codec.names if P.flavors.get(n, 'template') == 'template'])


def flavors(text):
    """message name -> flavor, read with llbase"""
    from llbase import llsd
    return dict((k, v.get('flavor')) for k, v in llsd.parse(text)['messages'].items())


class Formatting(logging.Handler):
    """formats every record, as a real handler does, and drops the text"""

    def emit(self, record):
        try:
            self.format(record)
        except Exception:
            pass                         # logging reports these, it does not raise


_handler = Formatting()


def log_on():
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    root.setLevel(logging.DEBUG)
    root.addHandler(_handler)


def log_off():
    logging.getLogger().removeHandler(_handler)
    logging.disable(logging.CRITICAL)
