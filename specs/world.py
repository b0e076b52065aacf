"""Stand-ins for the outside world: a console behind a socket, with scripted replies and failures.

Every case sets up its own World; the stand-in socket class finds it here.  The verifier executes this text like any other
code; natively it is a module global."""
_WORLD = [None]


def put(w):
    _WORLD[0] = w


def get():
    return _WORLD[0]


class SocketFailure(OSError):
    """An error of a socket operation (the stand-in raises it where the script says so)."""


class Trouble(Exception):
    """An error that is no error of the operating system, like a port number out of range."""


class World(object):
    def __init__(self, reply=b'', fail_create=False, fail_connect=False, fail_close=False, fail_makefile=False,
                 fail_handle_close=False, fail_send=False, trouble=False):
        self.trouble = trouble
        self.reply = reply
        self.pos = 0
        self.sent = []
        self.log = []
        self.sockets = []
        self.handles = []
        self.fail_create, self.fail_connect, self.fail_close = fail_create, fail_connect, fail_close
        self.fail_makefile, self.fail_handle_close, self.fail_send = fail_makefile, fail_handle_close, fail_send

    def take(self, n):
        chunk = self.reply[self.pos:self.pos + n]
        self.pos = self.pos + len(chunk)
        return chunk

    def opened(self):
        """Sockets not closed yet."""
        return [s for s in self.sockets if not s.closed]


class FakeSocket(object):
    def __init__(self, *args, **kwargs):
        self.world = get()
        self.closed = False
        self.address = None
        self.args, self.kwargs = args, kwargs
        if self.world.fail_create:
            raise SocketFailure('socket')
        self.world.sockets.append(self)

    def connect(self, address):
        if self.world.fail_connect:
            if self.world.trouble:
                raise Trouble('connect')
            raise SocketFailure('connect')
        self.address = address

    def close(self):
        self.closed = True
        self.world.log.append('close')
        if self.world.fail_close:
            raise SocketFailure('close')

    def shutdown(self, how):
        if self.address is None or self.world.fail_close:
            raise SocketFailure('shutdown')

    def setsockopt(self, *args):
        pass

    def settimeout(self, value):
        pass

    def sendall(self, data):
        if self.world.fail_send:
            raise SocketFailure('send')
        self.world.log.append('send')
        self.world.sent.append(data)

    def send(self, data):
        self.sendall(data)
        return len(data)

    def recv(self, n, *flags):
        self.world.log.append('receive')
        return self.world.take(n)

    def makefile(self, *args, **kwargs):
        if self.world.fail_makefile:
            raise SocketFailure('makefile')
        return FakeHandle(self.world)


class FakeHandle(object):
    """A blocking file over the connection: reads exactly as much as is asked for, less only at the end of the data."""

    def __init__(self, world):
        self.world = world
        self.closed = False
        world.handles.append(self)

    def read(self, n=-1):
        self.world.log.append('read')
        return self.world.take(len(self.world.reply) if n is None or n < 0 else n)

    def flush(self):
        pass

    def close(self):
        self.closed = True
        if self.world.fail_handle_close:
            raise SocketFailure('handle close')

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
