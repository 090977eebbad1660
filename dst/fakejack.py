"""A simulated JACK server behind the real ``jack`` module (JACK-Client for Python).

Only ``jack._lib`` (libjack) is replaced.  The behaviour has been calibrated against
jackd2 with the dummy driver (see DESIGN.md): connections need an active client, a
client's connections are dropped when it becomes inactive, raising ``CallbackExit``
ends and deactivates the client after the callback, activating an active client is a
no-op (even after the server's death), port handles are the lowest free port numbers,
an output port's buffer keeps its content until it is overwritten, an input port with
one connection aliases the buffer of the connected port, an unregistered port's buffer
is the null buffer, a changed graph becomes effective with the next cycle.
"""

import re
import weakref
import jack
import numpy
from .sched import HarnessError, SimAbort, current

ffi = jack._ffi
_real_lib = jack._lib
_real_init = jack.Client.__init__
AUDIO = b"32 bit float mono audio"
MAX_BLOCK = 8192
IS_INPUT, IS_OUTPUT, IS_PHYSICAL = 1, 2, 4


class SimPort:
    def __init__(self, index, client, shortname, flags):
        self.index = index
        self.client = client            # a client name; "system" for the external ports
        self.shortname = shortname
        self.flags = flags
        self.buffer = numpy.zeros(MAX_BLOCK, dtype=numpy.float32)
        self.cname = ffi.new("char[]", self.name.encode())
        self.cshort = ffi.new("char[]", shortname.encode())
        self.alive = True

    @property
    def name(self):
        return f"{self.client}:{self.shortname}"


class SimClient:
    def __init__(self, handle, name):
        self.handle = handle
        self.name = name
        self.cname = ffi.new("char[]", name.encode())
        self.active = False
        self.closed = False
        self.dead = False               # the connection to the server is lost
        self.callbacks = {}
        self.in_callback = False
        self.activations = 0


class Cycle:
    """What happened in one process cycle of the client"""
    __slots__ = ("number", "time", "frames", "first_frame", "client", "outs", "ins", "ret", "begin_seq", "end_seq", "generation")


class Server:
    def __init__(self, sched, samplerate=44100, blocksize=64, captures=2, playbacks=2):
        self.sched = sched
        self.samplerate = samplerate
        self.blocksize = blocksize
        self.alive = True
        self.clients = {}
        self.ports = {}                 # index -> SimPort
        self.tombstones = {}            # index -> SimPort (names remain readable)
        self.connections = set()        # (out index, in index)
        self.graph = frozenset()        # connections, that are effective in the current cycle
        self.cycles = []
        self.frame = 0                  # server frames, that have elapsed
        self.xrun_delay = 0.0
        self.notifications = []
        self.null = numpy.zeros(MAX_BLOCK, dtype=numpy.float32)
        self.keep = {}
        self.captures = []
        self.playbacks = []
        self.sequence = 0               # orders the history
        self.pending_faults = []        # faults, that are applied by the driver before a cycle: (kind, argument)
        self.cycle_end = None           # the time, at which a running callback must be finished
        self.next_cycle = sched.now
        self.fired = {}
        self.watch = None               # is called after each cycle by the driver thread
        self.unsupported = None
        self.notifying = False          # a notification is being delivered
        self.gate = False               # no notifications must be delivered
        self.client_objects = []        # weak references to the instances of jack.Client
        for i in range(captures):
            self.captures.append(self.__new_port("system", f"capture_{i + 1}", IS_OUTPUT | IS_PHYSICAL))
        for i in range(playbacks):
            self.playbacks.append(self.__new_port("system", f"playback_{i + 1}", IS_INPUT | IS_PHYSICAL))

    def count(self, name, n=1):
        self.fired[name] = self.fired.get(name, 0) + n

    def seq(self):
        self.sequence += 1
        return self.sequence

    def __new_port(self, client, shortname, flags):
        index = 1
        while index in self.ports:
            index += 1
        port = SimPort(index, client, shortname, flags)
        self.ports[index] = port
        return port

    # ------------------------------------------------------------ threads

    def driver(self):
        """the body of the thread, that runs the process cycles"""
        s = self.sched
        while True:
            s.block(None, self.next_cycle, "driver")
            while self.pending_faults:
                kind, arg = self.pending_faults.pop(0)
                self.__fault(kind, arg)
                if not self.alive:
                    return
            if s.now < self.next_cycle:
                continue
            period = int(1e9 * self.blocksize / self.samplerate)
            self.next_cycle = s.now + period
            self.graph = frozenset(self.connections)
            frames = self.blocksize
            for k, port in enumerate(self.captures):
                port.buffer[:frames] = capture_values(k, self.frame, frames)
            for client in list(self.clients.values()):
                if client.active and "process" in client.callbacks:
                    self.__process(client, frames, period)
            self.frame += frames
            if self.watch is not None:
                self.watch()

    def __process(self, client, frames, period):
        s = self.sched
        c = Cycle()
        c.number = len(self.cycles)
        c.time = s.now
        c.frames = frames
        c.first_frame = self.frame
        c.client = client.name
        c.generation = client.activations
        c.begin_seq = self.seq()
        client.in_callback = True
        self.cycle_end = s.now + period
        s.event("cycle", c.number, client.name, frames)
        try:
            c.ret = client.callbacks["process"](frames, ffi.NULL)
        finally:
            client.in_callback = False
        if s.aborting:
            raise SimAbort()
        c.end_seq = self.seq()
        c.outs = [(p.shortname, p.buffer[:frames].copy()) for p in self.own_ports(client.name, IS_OUTPUT)]
        c.ins = [(p.shortname, self.expected_input(p, frames)) for p in self.own_ports(client.name, IS_INPUT)]
        self.cycles.append(c)
        s.event("cycle-end", c.number, c.ret)
        if c.ret != 0:
            s.yield_point("exit")
            self.deactivate(client)
            s.event("client-exit", client.name)
        self.cycle_end = None

    def ceiling(self):
        """The process callback has to be finished, before the next cycle starts (otherwise it would be an xrun of this client)"""
        if self.cycle_end is not None:
            t = self.driver_thread
            if t.state == "blocked" and t.predicate is not None:
                return None
            return self.cycle_end
        return None

    def __fault(self, kind, arg):
        s = self.sched
        self.count(kind)
        s.event("fault", kind, arg)
        if kind == "xrun":              # the driver or another client was late: cycles are delayed
            self.xrun_delay = float(arg[0])
            self.next_cycle += int(arg[0] * 1000)
            if arg[1]:                  # the audio of some frames is lost
                self.frame += arg[1]
            self.notify("xrun", float(arg[0]))
        elif kind == "stall":           # the driver stalls without an xrun notification
            self.next_cycle += int(arg)
        elif kind == "blocksize":
            self.blocksize = int(arg)
            for p in self.ports.values():
                p.buffer[:] = 0.0
            self.notify("blocksize", int(arg))
        elif kind == "samplerate":
            self.samplerate = int(arg)
            self.notify("samplerate", int(arg))
        elif kind == "shutdown":
            self.alive = False
            for c in self.clients.values():
                c.dead = True
            self.notify("shutdown", b"JACK server has been closed")
        else:
            raise HarnessError(f"unknown fault {kind}")

    def notify(self, kind, arg):
        for c in list(self.clients.values()):
            if not c.closed:
                self.notifications.append((kind, arg, c))

    def notifier(self):
        """the body of the thread, that delivers the notifications"""
        s = self.sched
        while True:
            self.notifying = False
            s.block(lambda: self.notifications and not self.gate, None, "notifier")
            s.yield_point("notify")
            if self.gate:
                continue
            self.notifying = True
            kind, arg, client = self.notifications.pop(0)
            if client.closed or kind not in client.callbacks:
                continue
            s.event("notify", kind, arg)
            cb = client.callbacks[kind]
            begin = self.seq()
            if kind == "xrun":
                self.told_delay = None
                ret = cb(ffi.NULL)
                if self.told_delay is not None:     # the delay of a later xrun, if that occurred in the meantime
                    arg = self.told_delay
            elif kind == "shutdown":
                reason = ffi.new("char[]", arg)
                cb(0x21, reason, ffi.NULL)
                ret = 0
            else:
                ret = cb(arg, ffi.NULL)
            if s.aborting:
                raise SimAbort()
            s.event("notified", kind, ret)
            self.history_notifications.append((kind, arg, begin, self.seq(), ret))

    def start(self):
        self.history_notifications = []
        self.driver_thread = self.sched.spawn(self.driver, name="jack-driver", daemon=True)
        self.notifier_thread = self.sched.spawn(self.notifier, name="jack-notify", daemon=True)
        self.sched.ceiling = self.ceiling

    # ------------------------------------------------------------- graph

    def own_ports(self, client, flag):
        return [p for _, p in sorted(self.ports.items()) if p.client == client and p.flags & flag]

    def port_by_name(self, name):
        for p in self.ports.values():
            if p.name == name:
                return p
        return None

    def client_active(self, name):
        if name == "system":
            return True
        for c in self.clients.values():
            if c.name == name:
                return c.active and not c.closed
        return False

    def connected(self, port):
        """The ports, that are connected with the given port"""
        if port.flags & IS_INPUT:
            return [self.ports[o] for o, i in sorted(self.connections) if i == port.index]
        return [self.ports[i] for o, i in sorted(self.connections) if o == port.index]

    def expected_input(self, port, frames):
        """The audio on an input port in the current cycle"""
        result = numpy.zeros(frames, dtype=numpy.float32)
        for o, i in self.graph:
            if i == port.index and o in self.ports:
                result += self.ports[o].buffer[:frames]
        return result

    def deactivate(self, client):
        client.active = False
        own = {p.index for p in self.ports.values() if p.client == client.name}
        self.connections = {(o, i) for o, i in self.connections if o not in own and i not in own}

    def remove_port(self, port):
        port.alive = False
        self.connections = {(o, i) for o, i in self.connections if port.index not in (o, i)}
        del self.ports[port.index]
        self.tombstones[port.index] = port

    def connection_names(self, client):
        """All connections of a client as pairs of full port names"""
        own = {p.index for p in self.ports.values() if p.client == client}
        return {(self.ports[o].name, self.ports[i].name) for o, i in self.connections if o in own or i in own}

    # external tools, that manipulate the graph

    def external_connect(self, o, i):
        a, b = self.port_by_name(o), self.port_by_name(i)
        if a is None or b is None or not self.client_active(a.client) or not self.client_active(b.client):
            return False
        self.connections.add((a.index, b.index))
        return True

    def external_disconnect(self, o, i):
        a, b = self.port_by_name(o), self.port_by_name(i)
        if a is None or b is None or (a.index, b.index) not in self.connections:
            return False
        self.connections.remove((a.index, b.index))
        return True


def capture_values(port, first_frame, frames):
    """The audio, that comes from the simulated sound card: every sample is unique and exactly representable"""
    n = (numpy.arange(first_frame, first_frame + frames) % 65536).astype(numpy.float64)
    return (-(port + 1) - n / 65536.0).astype(numpy.float32)


class FakeLib:
    """Replaces the handle to libjack.  Each call releases the GIL in reality, so each call is a yield point."""

    def __init__(self, server):
        self._server = server

    def __getattr__(self, name):
        if name.startswith("jack_"):
            self._server.unsupported = name
            self._server.sched.fail(HarnessError(f"the simulated libjack does not implement {name}"))
        return getattr(_real_lib, name)

    # ---- helpers

    def _point(self, what=None):
        s = self._server.sched
        if current() is not None:
            s.yield_point("lib")

    def _client(self, ptr):
        if not ptr:
            return None
        return self._server.clients.get(int(ffi.cast("intptr_t", ptr)))

    def _port(self, ptr, dead=False):
        if not ptr:
            return None
        i = int(ffi.cast("intptr_t", ptr))
        p = self._server.ports.get(i)
        if p is None and dead:
            p = self._server.tombstones.get(i)
        return p

    def _names(self, names):
        if not names:
            return ffi.cast("const char**", ffi.NULL)
        strings = [ffi.new("char[]", n.encode()) for n in names]
        array = ffi.new("char*[]", strings + [ffi.NULL])
        address = int(ffi.cast("intptr_t", array))
        self._server.keep[address] = (strings, array)
        return ffi.cast("const char**", array)

    def jack_free(self, ptr):
        self._server.keep.pop(int(ffi.cast("intptr_t", ptr)), None)

    # ---- clients

    def jack_client_open(self, name, options, status, *args):   # pylint: disable=unused-argument
        self._point()
        server = self._server
        if not server.alive:
            status[0] = 0x11
            return ffi.cast("jack_client_t*", 0)
        name = name.decode()
        unique = name
        n = 1
        while any(c.name == unique and not c.closed for c in server.clients.values()):
            unique = f"{name}-{n:02}"
            n += 1
        handle = 1000 + len(server.clients)
        client = SimClient(handle, unique)
        server.clients[handle] = client
        status[0] = 0 if unique == name else 4
        return ffi.cast("jack_client_t*", handle)

    def jack_client_close(self, ptr):
        self._point()
        c = self._client(ptr)
        if c is None or c.closed:
            return -1
        s = self._server
        if current() is not None:
            s.sched.block(lambda: not c.in_callback, None, "close") if not s.sched.aborting else None
        s.deactivate(c)
        for p in [p for p in s.ports.values() if p.client == c.name]:
            s.remove_port(p)
        c.closed = True
        s.sched.event("close", c.name)
        return 0

    def jack_get_client_name(self, ptr):
        return self._client(ptr).cname

    def jack_activate(self, ptr):
        self._point()
        c = self._client(ptr)
        if c is None or c.closed:
            return -1
        if c.active:
            return 0
        if c.dead or not self._server.alive:
            return -1
        c.active = True
        c.activations += 1
        self._server.sched.event("activate", c.name)
        self._point()
        return 0

    def jack_deactivate(self, ptr):
        self._point()
        c = self._client(ptr)
        if c is None or c.closed:
            return -1
        if not c.active:
            return 0
        s = self._server
        if current() is not None and current() is not s.driver_thread and not s.sched.aborting:
            s.sched.block(lambda: not c.in_callback, None, "deactivate")
        s.deactivate(c)
        s.sched.event("deactivate", c.name)
        self._point()
        return 0

    def jack_get_sample_rate(self, ptr):
        c = self._client(ptr)
        return 0 if c is None or c.closed else self._server.samplerate

    def jack_get_buffer_size(self, ptr):
        c = self._client(ptr)
        return 0 if c is None or c.closed else self._server.blocksize

    def jack_is_realtime(self, ptr):    # pylint: disable=unused-argument
        return 0

    def jack_cpu_load(self, ptr):   # pylint: disable=unused-argument
        return 0.0

    def jack_get_xrun_delayed_usecs(self, ptr):     # pylint: disable=unused-argument
        self._server.told_delay = self._server.xrun_delay
        return self._server.xrun_delay

    def jack_frames_since_cycle_start(self, ptr):     # pylint: disable=unused-argument
        return 0

    def jack_last_frame_time(self, ptr):     # pylint: disable=unused-argument
        return self._server.frame

    def jack_frame_time(self, ptr):     # pylint: disable=unused-argument
        return self._server.frame

    # ---- callbacks

    def _set(self, ptr, kind, callback):
        c = self._client(ptr)
        if c is None or c.closed or c.active:
            return -1
        if callback:
            c.callbacks[kind] = callback
        else:
            c.callbacks.pop(kind, None)
        return 0

    def jack_set_process_callback(self, ptr, cb, arg):  # pylint: disable=unused-argument
        return self._set(ptr, "process", cb)

    def jack_set_sample_rate_callback(self, ptr, cb, arg):  # pylint: disable=unused-argument
        r = self._set(ptr, "samplerate", cb)
        if r == 0 and cb:
            cb(self._server.samplerate, ffi.NULL)   # libjack invokes it immediately
        return r

    def jack_set_buffer_size_callback(self, ptr, cb, arg):  # pylint: disable=unused-argument
        r = self._set(ptr, "blocksize", cb)
        if r == 0 and cb:
            cb(self._server.blocksize, ffi.NULL)
        return r

    def jack_set_xrun_callback(self, ptr, cb, arg):     # pylint: disable=unused-argument
        return self._set(ptr, "xrun", cb)

    def jack_on_info_shutdown(self, ptr, cb, arg):  # pylint: disable=unused-argument
        self._set(ptr, "shutdown", cb)

    def _ignored(self, ptr, cb, arg):    # pylint: disable=unused-argument
        return 0
    jack_set_freewheel_callback = _ignored
    jack_set_client_registration_callback = _ignored
    jack_set_port_registration_callback = _ignored
    jack_set_port_connect_callback = _ignored
    jack_set_port_rename_callback = _ignored
    jack_set_graph_order_callback = _ignored

    # ---- ports

    def jack_port_register(self, ptr, name, porttype, flags, size):     # pylint: disable=unused-argument
        self._point()
        c = self._client(ptr)
        s = self._server
        if c is None or c.closed or c.dead or not s.alive:
            return ffi.cast("jack_port_t*", 0)
        short = name.decode()
        if not short or s.port_by_name(f"{c.name}:{short}") is not None or len(short) > 256:
            return ffi.cast("jack_port_t*", 0)
        port = s._Server__new_port(c.name, short, flags)
        s.sched.event("register", port.name)
        self._point()
        return ffi.cast("jack_port_t*", port.index)

    def jack_port_unregister(self, ptr, port):
        self._point()
        c = self._client(ptr)
        s = self._server
        p = self._port(port)
        if c is None or c.closed or c.dead or p is None or p.client != c.name:
            return -1
        s.remove_port(p)
        s.sched.event("unregister", p.name)
        self._point()
        return 0

    def jack_port_name(self, port):
        return self._port(port, dead=True).cname

    def jack_port_short_name(self, port):
        return self._port(port, dead=True).cshort

    def jack_port_type(self, port):     # pylint: disable=unused-argument
        s = ffi.new("char[]", AUDIO)
        self._server.keep["type"] = s
        return s

    def jack_port_flags(self, port):
        p = self._port(port, dead=True)
        return p.flags if p is not None else 0

    def jack_port_is_mine(self, ptr, port):
        c = self._client(ptr)
        p = self._port(port)
        return int(p is not None and c is not None and p.client == c.name)

    def jack_port_by_name(self, ptr, name):     # pylint: disable=unused-argument
        self._point()
        p = self._server.port_by_name(name.decode())
        return ffi.cast("jack_port_t*", p.index if p is not None else 0)

    def jack_get_ports(self, ptr, pattern, type_pattern, flags):   # pylint: disable=unused-argument
        self._point()
        pattern = pattern.decode()
        names = [p.name for _, p in sorted(self._server.ports.items())
                 if (p.flags & flags) == flags and (not pattern or re.search(pattern, p.name))]
        return self._names(names)

    def jack_port_connected(self, port):
        p = self._port(port)
        return 0 if p is None else len(self._server.connected(p))

    def jack_port_connected_to(self, port, name):
        self._point()
        p = self._port(port)
        o = self._server.port_by_name(name.decode())
        if p is None or o is None:
            return 0
        return int(o in self._server.connected(p))

    def jack_port_get_connections(self, port):
        self._point()
        p = self._port(port)
        return self._names([] if p is None else [o.name for o in self._server.connected(p)])

    def jack_port_get_all_connections(self, ptr, port):     # pylint: disable=unused-argument
        return self.jack_port_get_connections(port)

    def jack_port_rename(self, ptr, port, name):    # pylint: disable=unused-argument
        self._point()
        p = self._port(port)
        if p is None:
            return -1
        p.shortname = name.decode()
        p.cname = ffi.new("char[]", p.name.encode())
        p.cshort = ffi.new("char[]", p.shortname.encode())
        return 0

    def _pair(self, ptr, source, destination):
        c = self._client(ptr)
        s = self._server
        if c is None or c.closed or c.dead or not s.alive:
            return None
        o = s.port_by_name(source.decode())
        i = s.port_by_name(destination.decode())
        if o is None or i is None or not o.flags & IS_OUTPUT or not i.flags & IS_INPUT:
            return None
        return o, i

    def jack_connect(self, ptr, source, destination):
        self._point()
        s = self._server
        pair = self._pair(ptr, source, destination)
        if pair is None or not s.client_active(pair[0].client) or not s.client_active(pair[1].client):
            return -1
        key = (pair[0].index, pair[1].index)
        if key in s.connections:
            return 17
        s.connections.add(key)
        s.sched.event("connect", pair[0].name, pair[1].name)
        self._point()
        return 0

    def jack_disconnect(self, ptr, source, destination):
        self._point()
        pair = self._pair(ptr, source, destination)
        if pair is None or (pair[0].index, pair[1].index) not in self._server.connections:
            return -1
        self._server.connections.remove((pair[0].index, pair[1].index))
        self._server.sched.event("disconnect", pair[0].name, pair[1].name)
        return 0

    def jack_port_disconnect(self, ptr, port):  # pylint: disable=unused-argument
        self._point()
        p = self._port(port)
        if p is None:
            return -1
        s = self._server
        s.connections = {(o, i) for o, i in s.connections if p.index not in (o, i)}
        return 0

    def jack_port_get_buffer(self, port, frames):
        self._point()
        s = self._server
        p = self._port(port)
        if p is None:
            s.null[:frames] = 0.0
            buffer = s.null
        elif p.flags & IS_OUTPUT:
            buffer = p.buffer
        else:
            sources = [s.ports[o] for o, i in sorted(s.graph) if i == p.index and o in s.ports]
            if len(sources) == 1:
                buffer = sources[0].buffer
            else:
                buffer = p.buffer
                buffer[:frames] = 0.0
                for o in sources:
                    buffer[:frames] += o.buffer[:frames]
        return ffi.cast("void*", buffer.ctypes.data)


def install(server):
    """Redirects the jack module to the simulated server"""
    jack._lib = FakeLib(server)

    def init(self, *args, **kwargs):
        _real_init(self, *args, **kwargs)
        server.client_objects.append(weakref.ref(self))
    jack.Client.__init__ = init


def uninstall():
    """Restores the connection to the real library"""
    jack._lib = _real_lib
    jack.Client.__init__ = _real_init
