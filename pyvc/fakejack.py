"""A stand-in for the JACK audio server and its Python interface (a trusted contract).

* the server calls the process callback with a number of frames; during such a cycle,
  every input port has a buffer with the captured samples and every output port has
  a buffer, that has to be filled by the client and that is not cleared by the server;
* a callback, that raises :class:`CallbackExit`, is not called again until the client is activated again;
* the callback is not called for clients, that are not active.
"""
import contextlib
import sys
import threading


class JackError(Exception):
    pass


class CallbackExit(Exception):
    pass


class Status:
    pass


class Port:
    def __init__(self, client, shortname, is_input):
        self.client, self.shortname, self.is_input = client, shortname, is_input
        self.name = f"{client.name}:{shortname}"
        self.connections = []
        self.buffer = None

    def is_connected_to(self, port):
        return port in self.connections


class OwnPort(Port):
    def get_array(self):
        if self.buffer is None:
            raise JackError("there are no buffers outside of a process cycle")
        return self.buffer

    get_buffer = get_array

    def unregister(self):
        ports = self.client.inports if self.is_input else self.client.outports
        ports.remove(self)


class Ports(list):
    def __init__(self, client, is_input):
        super().__init__()
        self.client, self.is_input = client, is_input

    def register(self, shortname, is_terminal=False, is_physical=False):
        if any(p.shortname == shortname for p in self):
            raise JackError("port name is not unique")
        self.append(OwnPort(self.client, shortname, self.is_input))
        return self[-1]


class Client:
    def __init__(self, name, use_exact_name=False, no_start_server=False, servername=None, session_id=None):
        server = current
        self.name, self.samplerate, self.blocksize = name, server.samplerate, server.blocksize
        self.inports, self.outports = Ports(self, True), Ports(self, False)
        self.callbacks = {}
        self.active = self.exited = False
        server.client = self

    def activate(self):
        self.active, self.exited = True, False

    def deactivate(self, ignore_errors=True):
        self.active = False

    def close(self, ignore_errors=True):
        pass

    def owns(self, port):
        return getattr(port, "client", None) is self

    def connect(self, source, destination):
        if not self.active:
            raise JackError("not active")

    def get_ports(self, name_pattern="", is_audio=False, is_midi=False, is_input=False, is_output=False, is_physical=False, can_monitor=False, is_terminal=False):
        return [p for p in list(self.inports) + list(self.outports) if (p.is_input or not is_input) and (not p.is_input or not is_output)]

    def set_process_callback(self, callback):
        self.callbacks["process"] = callback

    def set_shutdown_callback(self, callback):
        self.callbacks["shutdown"] = callback

    def set_samplerate_callback(self, callback):
        self.callbacks["samplerate"] = callback

    def set_xrun_callback(self, callback):
        self.callbacks["xrun"] = callback

    def set_blocksize_callback(self, callback):
        self.callbacks["blocksize"] = callback


class Server:
    """the state of the stand-in"""

    def __init__(self, samplerate=48000, blocksize=0):
        self.samplerate, self.blocksize, self.client = samplerate, blocksize, None

    def cycle(self, frames, captured, played):
        """
        :param captured: the buffers of the input ports
        :param played: the buffers of the output ports
        :returns: True, if the callback has been called, False, if it has ended the processing with that, and None if it has not been called
        """
        c = self.client
        if not c.active or c.exited:
            return None
        if len(captured) != len(c.inports) or len(played) != len(c.outports):
            raise JackError("wrong number of buffers")
        for p, b in zip(list(c.inports) + list(c.outports), list(captured) + list(played)):
            p.buffer = b
        try:
            c.callbacks["process"](frames)
        except CallbackExit:
            c.exited = True
        finally:
            for p in list(c.inports) + list(c.outports):
                p.buffer = None
        return not c.exited


class Blocked(Exception):
    """is raised instead of waiting forever"""


class Event(threading.Event):
    def wait(self, timeout=None):
        if not self.is_set():
            raise Blocked()
        return True


current = Server()


@contextlib.contextmanager
def server(samplerate=48000, blocksize=0):
    """a server, whose clients do not wait for other threads, because there are none"""
    global current      # pylint: disable=global-statement
    old, original = current, threading.Event
    current = Server(samplerate, blocksize)
    threading.Event = Event
    try:
        yield current
    finally:
        current = old
        threading.Event = original


sys.modules["jack"] = sys.modules[__name__]
