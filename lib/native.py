"""Access to the native library and to the controls of the in-process transport."""
import contextlib
import ctypes
import json
import os


def lib():
    from deepgnn.graph_engine.snark._lib import _get_c_lib

    return _get_c_lib()


_CTL = None


def ctl():
    global _CTL
    if _CTL is None:
        _CTL = ctypes.CDLL(os.environ["SNARK_LIB_PATH"])
        _CTL.vf_random_delay.argtypes = [ctypes.c_int64, ctypes.c_uint64]
        _CTL.vf_take_delay.argtypes = [ctypes.c_int64]
        _CTL.vf_address_delay.argtypes = [ctypes.c_char_p, ctypes.c_int64]
        _CTL.vf_fault.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_int, ctypes.c_int]
        _CTL.vf_in_flight.restype = ctypes.c_int64
        _CTL.vf_dump.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
    return _CTL


def clear():
    ctl().vf_clear()


def reset_counters():
    ctl().vf_reset_counters()


def random_delay(max_us, seed):
    ctl().vf_random_delay(int(max_us), int(seed) & (2**63 - 1))


def take_delay(max_us):
    """Threads wait before they use what they took out of a queue, so that several have something at once."""
    ctl().vf_take_delay(int(max_us))


def address_delay(addr, us):
    ctl().vf_address_delay(addr.encode(), int(us))


def fault(addr="", method="", skip=0, count=1, code=14, phase=0):
    """code is a status code (14 is unavailable); phase 0 fails the call before the server sees it, 1 drops the reply."""
    ctl().vf_fault(addr.encode(), method.encode(), skip, count, code, phase)


def dump():
    buf = ctypes.create_string_buffer(1 << 20)
    ctl().vf_dump(buf, len(buf))
    return json.loads(buf.value.decode())


_PORT = [20000]


def address():
    """The transport lives inside the process, so any name will do; each server gets one of its own."""
    _PORT[0] += 1
    return "localhost:%d" % _PORT[0]


class Cluster:
    """Servers over a converted graph, and a client connected to all of them."""

    def __init__(self, path, layout, **kw):
        """layout: one list of partition numbers per server; an empty list is a server without data."""
        from deepgnn.graph_engine.snark import server

        self.addresses = [address() for _ in layout]
        self.path = path
        self.servers = []
        for a, parts in zip(self.addresses, layout):
            self.servers.append(server.Server(path, [(path, p) for p in parts], a, **kw))

    def client(self, **kw):
        from deepgnn.graph_engine.snark import client

        return client.DistributedGraph(self.addresses, **kw)

    def close(self):
        for s in self.servers:
            s.reset()
        self.servers = []


@contextlib.contextmanager
def cluster(path, layout, **kw):
    c = Cluster(path, layout, **kw)
    try:
        yield c
    finally:
        c.close()


def memory_graph(path, partitions, **kw):
    from deepgnn.graph_engine.snark import client

    return client.MemoryGraph(path, [(path, p) for p in partitions], **kw)
