"""Stand-ins at the edges of the repository, recording what crosses them"""


import vcore


class UDP(object):
    """the UDP client a dispatcher uses"""

    def __init__(self):
        self.sent = []          # ((ip, port), bytes)
        self.inbox = []         # ((ip, port), bytes)
        self.sender = None
        self.log = None
        self.fail = 0           # so many sends to fail
        self.on_receive = None

    def start_udp_connection(self):
        return self

    def get_sender(self):
        return self.sender

    def send_packet(self, sock, data, host):
        if data is None:
            raise Exception('No data specified')
        if not isinstance(data, str):
            raise TypeError('bytes are sent, not %r' % (data,))
        self.sent.append(((host.ip, host.port), data))
        if self.log:
            vcore.guard(self.log)(((host.ip, host.port), data))

    def receive_packet(self, sock):
        if self.on_receive:
            self.on_receive()
        if not self.inbox:
            return '', 0
        addr, data = self.inbox.pop(0)
        from pyogp.lib.base.message.circuit import Host
        self.sender = Host(addr)
        return data, len(data)

    def take(self):
        out, self.sent[:] = self.sent[:], []
        return out

    # a socket, too
    def close(self):
        pass
