"""A device with one small model, on a fake session, in a scratch folder."""
import atexit
import logging
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
logging.disable(logging.CRITICAL)
from ncclient.devices.default import DefaultDeviceHandler  # noqa: E402
from ncdiff import Config, ConfigDelta, ModelDevice  # noqa: E402,F401

TYPES = '''module d-type {
  yang-version 1.1; namespace "urn:d:type"; prefix dt;
  revision 2024-01-01;
  identity base-id;
  identity id-a { base base-id; }
  identity id-b { base base-id; }
}
'''
MAIN = '''module d-main {
  yang-version 1.1; namespace "urn:d:main"; prefix dm;
  import d-type { prefix dt; }
  revision 2024-01-01;
  container c {
    leaf a { type string; }
    leaf d { type string; default "7"; }
    leaf-list sl { type string; }
    leaf-list ul { type string; ordered-by user; }
    leaf-list uld { type string; ordered-by user; default "1"; default "2"; }
    leaf id { type identityref { base dt:base-id; } }
    leaf iid { type instance-identifier; }
    container pc { presence "x"; leaf x { type string; } }
    container np { leaf y { type string; }
      container deep { leaf z { type string; }
        container pin { presence "x"; leaf q { type string; } } } }
    list l { key k; leaf k { type string; } leaf v { type string; }
      leaf w { type string; }
      list n { key nk; leaf nk { type string; } leaf nv { type string; } } }
    list ol { key k; ordered-by user; leaf k { type string; }
      leaf v { type string; } }
    list mk { key "k1 k2"; leaf k1 { type string; } leaf k2 { type string; }
      leaf v { type string; } }
    choice ch { case one { leaf o1 { type string; } leaf o2 { type string; } }
      case two { leaf t1 { type string; } } }
  }
}
'''
AUG = '''module d-aug {
  yang-version 1.1; namespace "urn:d:aug"; prefix da;
  import d-main { prefix dm; }
  revision 2024-01-01;
  augment "/dm:c" { leaf a { type string; } }
}
'''


class Session(object):
    connected = True
    id = 1

    def __init__(self, caps):
        self._server_capabilities = self.server_capabilities = set(caps)
        self.client_capabilities = set()
        self._connected = True

    def add_listener(self, x):
        pass

    def remove_listener(self, x):
        pass

    def get_listener_instance(self, x):
        return None

    def send(self, m):
        raise RuntimeError('not connected')


def folder():
    d = tempfile.mkdtemp(prefix='demo-')
    atexit.register(shutil.rmtree, d, True)
    return d


def caps(names):
    return ['urn:ietf:params:netconf:base:1.0'] + [
        'urn:{}?module={}&revision=2024-01-01'.format(
            n.replace('-', ':'), n) for n in names]


def device(texts=None):
    texts = texts or {'d-type': TYPES, 'd-main': MAIN, 'd-aug': AUG}
    d = folder()
    for n, t in texts.items():
        with open(os.path.join(d, n + '.yang'), 'w') as f:
            f.write(t)
    dev = ModelDevice(Session(caps(texts)), DefaultDeviceHandler())
    dev.scan_models(folder=d, download='ignore')
    return dev


NS = ('xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0" '
      'xmlns:yang="urn:ietf:params:xml:ns:yang:1" '
      'xmlns:dm="urn:d:main" xmlns:dt="urn:d:type" xmlns:da="urn:d:aug"')


def xml(body):
    return '<nc:config {}><c xmlns="urn:d:main">{}</c></nc:config>'.format(
        NS, body)


DEV = None


def dev():
    global DEV
    if DEV is None:
        DEV = device()
        DEV.load_model('d-main')
    return DEV


def cfg(body):
    return Config(dev(), xml(body))


def check(ok, what):
    if not ok:
        print('FAILED: ' + what)
        sys.exit(1)
