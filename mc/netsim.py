"""A NETCONF server behind a real ncclient manager: the requests of a
ModelDevice are taken as they go out, and executed on the reference server of
data.py."""
from lxml import etree

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'


def q(name):
    return '{%s}%s' % (NC, name)


BASE = ['urn:ietf:params:netconf:base:1.0', 'urn:ietf:params:netconf:base:1.1']
CANDIDATE = 'urn:ietf:params:netconf:capability:candidate:1.0'
RUNNING = 'urn:ietf:params:netconf:capability:writable-running:1.0'
VALIDATE = 'urn:ietf:params:netconf:capability:validate:1.0'
ROLLBACK = 'urn:ietf:params:netconf:capability:rollback-on-error:1.0'


class Session(object):
    """An ncclient session.  ``answer`` gets each request (an rpc element
    parsed from what was sent) and returns the content of the reply."""

    def __init__(self, caps, answer):
        from ncclient.capabilities import Capabilities
        self.server_capabilities = Capabilities(caps)
        self._server_capabilities = self.server_capabilities
        self.client_capabilities = Capabilities(BASE)
        self.id = '1'
        self.connected = True
        self.listeners = []
        self.answer = answer
        self.sent = []

    def add_listener(self, listener):
        self.listeners.append(listener)

    def remove_listener(self, listener):
        self.listeners.remove(listener)

    def get_listener_instance(self, cls):
        for l in self.listeners:
            if isinstance(l, cls):
                return l

    def send(self, message):
        if isinstance(message, bytes):
            message = message.decode('utf-8')
        rpc = etree.fromstring(message.encode('utf-8'))
        self.sent.append(rpc)
        body = self.answer(rpc)
        mid = rpc.get('message-id')
        raw = '<?xml version="1.0" encoding="UTF-8"?>\n' \
            '<rpc-reply xmlns="{}" message-id="{}">{}</rpc-reply>'.format(
                NC, mid, body)
        for l in list(self.listeners):
            l.callback((q('rpc-reply'), {'message-id': mid}), raw)


def ok(rpc):
    return '<ok/>'


def device(caps, answer, folder=None, load=()):
    from ncdiff import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    session = Session(caps, answer)
    dev = ModelDevice(session, DefaultDeviceHandler())
    if folder is not None:
        dev.scan_models(folder=folder, download='ignore')
        for m in load:
            dev.load_model(m)
    return dev, session
