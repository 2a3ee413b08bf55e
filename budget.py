"""How many runs each check makes, and what its evidence file says."""

WALL = dict(quick=100, thorough=800)

UDP = ('MessageManager, UDPDispatcher, CircuitManager/Circuit, UDPMessageSerializer/Deserializer, DataPacker/Unpacker, template parser and dictionary, '
       'MessageHandler/Event, NetUDPClient, Settings')
EQ = ('MessageManager, EventQueueClient, Capability, StdLibClient over the real urllib2/httplib, LLSD helpers, MessageHandler/Event, TemplateDictionary')


def b(quick, thorough, nontrivial, real=UDP):
    return dict(quick=quick, thorough=thorough, nontrivial=nontrivial, real=real)


BUDGET = dict(
    C01=b(1000, 40000, 'messages were sent'),
    C02=b(1000, 40000, 'a reliable message was sent'),
    C03=b(1000, 40000, 'a reliable message was acknowledged'),
    C04=b(800, 30000, 'a reliable datagram was received'),
    C05=b(800, 30000, 'messages were sent or delivered'),
    C06=b(800, 40000, 'damaged datagrams were received'),
    C07=b(800, 30000, 'messages were dispatched to subscribers'),
    C08=b(1000, 40000, 'queued messages were sent'),
    C09=b(800, 40000, 'a running session was stopped'),
    C10=b(700, 20000, 'events were dispatched', EQ),
    C11=b(700, 20000, 'polls were made', EQ),
    C12=b(800, 40000, 'capabilities were called', 'Capability, SeedCapability, StdLibClient over the real urllib2/httplib, LLSD serializers and deserializers, exceptions'),
    C13=b(800, 30000, 'HTTP-only messages were sent or received'),
    C14=b(350, 10000, 'messages were sent or received'),
    C15=b(350, 10000, 'messages were sent or received', UDP + '; ' + EQ),
    C16=b(1000, 40000, 'waits ended', 'Wait (helpers); in part of the runs beside a session: ' + UDP),
    C17=b(800, 40000, 'a send failed or was refused'),
    C18=b(200, 6000, 'messages were sent or capabilities called', UDP + '; ' + EQ),
)
