"""The real relay client over a captured datagram channel."""
from common import *
import gc, weakref
sim.std_setup()
import sippy.Rtp_proxy.Client.udp as rudp
import sippy.Rtp_proxy.client as rclient
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd
from sippy.Time.MonoTime import MonoTime
sim.seed_tokens()
RADDR = ('192.0.2.50', 22222)


class Chan:
    """stands for Udp_server"""
    cur = []

    def __init__(self, gconf, uopts):
        self.uopts = uopts
        self.down = False
        Chan.cur.append(self)
        self.out = []

    def send_to(self, data, addr):
        if isinstance(data, bytes):
            data = data.decode()
        need(not self.down, 'a datagram is sent over a closed channel: %r', data)
        need(addr == self.dest, 'datagram to %s instead of %s', addr, self.dest)
        self.out.append((sim.now(), data))

    def shutdown(self):
        self.down = True


rudp.Udp_server = Chan


def feed(w, ch, data):
    """a reply arrives; what escapes is dumped by the event loop, nothing more"""
    if isinstance(data, str):
        data = data.encode()
    try:
        ch.uopts.data_callback(data, RADDR, ch, MonoTime())
    except Violation:
        raise
    except Exception as e:
        return e


def split(data):
    need(data.count(' ') >= 1, 'no cookie in %r', data)
    return data.split(' ', 1)
