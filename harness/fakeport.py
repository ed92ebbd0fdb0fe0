"""A serial port in virtual time, put in the place of pyserial's: records every byte in either direction."""
import io
import vsched
import serial as _real

SerialException = _real.SerialException


class Module(object):
    """stands in for the name `serial` inside the library"""
    def __init__(self, factory):
        self.Serial = factory

    def __getattr__(self, n):
        return getattr(_real, n)


class Port(object):
    def __init__(self, rec, on_write=None, port=None, baudrate=None, timeout=None, **kw):
        self.rec = rec
        self.on_write = on_write
        self.timeout = timeout
        self.rx = []
        self.isopen = True
        self.reading = 0
        self.read_error = None        # exception to raise at the next read
        self.write_faults = {}        # number of the write -> exception
        self.writes = 0
        self.write_delay = 0
        self.close_error = None       # exception to raise when the port is closed after a failure
        self.injected, self.writing = [], 0

    # device side
    def push(self, text):
        self.rx.extend(text)

    # library side
    def is_open(self):
        return self.isopen
    isOpen = is_open

    def read(self, size=1):
        s = vsched.S
        s.point()
        if not self.isopen:
            raise _real.SerialException("port is closed")
        self.reading += 1
        try:
            if not self.rx and self.read_error is None:
                s.block(lambda: self.rx or self.read_error is not None, self.timeout, "read")
            if not self.isopen:
                raise _real.SerialException("port closed while reading")
            if self.read_error is not None and not self.rx:
                e, self.read_error = self.read_error, None
                self.failed = e
                self.rec.readfail()
                raise e
            data = "".join(self.rx[:size])
            del self.rx[:size]
            if data:
                self.rec.read(data)
        finally:
            self.reading -= 1
        s.point()
        return data

    def read_until(self, expected="\n", size=None):
        out = ""
        while not out.endswith(expected):
            c = self.read(1)
            if not c:
                break
            out += c
        return out
    readline = read_until

    def inWaiting(self):
        s = vsched.S
        s.point()
        if not self.isopen:
            raise _real.SerialException("port is closed")
        n = len(self.rx)
        s.point()
        return n

    @property
    def in_waiting(self):
        return self.inWaiting()

    def write(self, data):
        s = vsched.S
        s.point()
        n = self.writes
        self.writes += 1
        if self.write_delay:
            self.writing += 1
            try:
                s.block(lambda: False, self.write_delay, "write")
            finally:
                self.writing -= 1
        if not self.isopen:
            e = _real.SerialException("port is closed")
        else:
            e = self.write_faults.get(n)
        if e is not None:
            self.injected.append(e)
            self.rec.write(data, False)
            raise e
        self.rec.write(data, True)
        if self.on_write:
            self.on_write(data)
        s.point()
        return len(data)

    def flush(self):
        pass
    flushInput = flushOutput = reset_input_buffer = reset_output_buffer = flush

    def close(self):
        s = vsched.S
        if s.on():
            s.point()
        self.rec.close(self.reading > 0)
        self.isopen = False
        if self.close_error is not None and getattr(self, "failed", None) is not None:
            e, self.close_error = self.close_error, None
            raise e


class BytePort(Port, io.RawIOBase):
    """the same port as pyserial has it on Python 3: bytes in either direction"""
    def read(self, size=1):
        return Port.read(self, size).encode("latin-1")

    def write(self, data):
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError("unicode strings are not supported, please encode to bytes: %r" % (data,))
        return Port.write(self, bytes(data).decode("utf-8"))

    def __del__(self):
        pass


def kind(scn):
    """which kind of port a scenario uses (decided by its seed)"""
    return BytePort if scn["sched"]["seed"] % 8 == 5 else Port


class Device(object):
    """delivers text to the port: one virtual thread, so that arrival interleaves with everything else"""
    def __init__(self, s, rec):
        self.s, self.rec, self.q, self.port = s, rec, [], None
        self.vt = s.spawn("device", self.loop)

    def later(self, delay, text):
        if delay <= 0:
            self.q.append(text)
        else:
            self.s.call_at(delay, lambda: self.q.append(text))

    def loop(self):
        while True:
            self.s.block(lambda: self.q, None, "device idle")
            item = self.q.pop(0)
            self.s.point()
            self.deliver(item)

    def deliver(self, item):
        if callable(item):
            item()
        else:
            self.rec.arrive(item)
            self.port.push(item)
