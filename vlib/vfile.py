"""File objects the compound file layer runs on, observed from outside.

TraceFile: paged sparse memory file (gigabyte offsets cost nothing) that records
every write / truncate and can inject faults at a chosen operation.
"""
import io


class InjectedFault(OSError):
    pass


PAGE = 1 << 16


class TraceFile(object):
    def __init__(self, data=None, fail_at=None, fail_kinds=("write", "truncate", "flush"), short=None, readonly=False):
        self.pages = {}
        self.size = 0
        self.pos = 0
        self.nwrites = self.nreads = self.ntrunc = 0
        self.bytes_written = 0
        self.ops = 0
        self.fail_at = fail_at
        self.fail_kinds = fail_kinds
        self.fail_sticky = True
        self.failed = 0
        self.readonly = readonly
        self.closed = False
        self.write_log = None
        self.mode = "rb+"
        if data is not None:
            self._put(0, bytes(data))

    # raw access, not counted
    def _put(self, off, data):
        mv = memoryview(data)
        end = off + len(mv)
        while len(mv):
            p, o = divmod(off, PAGE)
            n = min(PAGE - o, len(mv))
            pg = self.pages.get(p)
            if pg is None:
                pg = self.pages[p] = bytearray(PAGE)
            pg[o:o + n] = mv[:n]
            mv = mv[n:]
            off += n
        if end > self.size:
            self.size = end

    def truncate_raw(self):
        self.pages = {}
        self.size = 0
        self.pos = 0

    def at(self, off, n):
        n = max(0, min(n, self.size - off))
        if n == 0:
            return b""
        p, o = divmod(off, PAGE)
        if o + n <= PAGE:
            pg = self.pages.get(p)
            return bytes(n) if pg is None else bytes(pg[o:o + n])
        out = bytearray()
        while n > 0:
            p, o = divmod(off, PAGE)
            k = min(PAGE - o, n)
            pg = self.pages.get(p)
            out += bytes(k) if pg is None else pg[o:o + k]
            off += k
            n -= k
        return bytes(out)

    def getvalue(self):
        return self.at(0, self.size)

    # file protocol
    def _op(self, kind):
        self.ops += 1
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if self.fail_at is not None and kind in self.fail_kinds:
            self.fail_at -= 1
            if self.fail_at < 0 and (self.fail_sticky or self.fail_at == -1):
                self.failed += 1
                raise InjectedFault(28, "injected fault in " + kind)

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self._op("seek")
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += self.size
        if off < 0:
            raise ValueError("negative seek")
        self.pos = off
        return off

    def read(self, n=-1):
        self._op("read")
        self.nreads += 1
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        d = self.at(self.pos, n)
        self.pos += len(d)
        return d

    def readinto(self, buf):
        d = self.read(len(buf))
        buf[:len(d)] = d
        return len(d)

    def write(self, data):
        if self.readonly:
            raise io.UnsupportedOperation("not writable")
        self._op("write")
        data = bytes(data)
        self.nwrites += 1
        self.bytes_written += len(data)
        if self.write_log is not None:
            self.write_log.append((self.pos, data))
        self._put(self.pos, data)
        self.pos += len(data)
        return len(data)

    def truncate(self, size=None):
        if self.readonly:
            raise io.UnsupportedOperation("not writable")
        self._op("truncate")
        self.ntrunc += 1
        if size is None:
            size = self.pos
        if size < self.size:
            last = size // PAGE
            for p in [p for p in self.pages if p > last]:
                del self.pages[p]
            pg = self.pages.get(last)
            if pg is not None:
                o = size - last * PAGE
                pg[o:] = bytes(PAGE - o)
        self.size = size
        return size

    def flush(self):
        self._op("flush")

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable(self):
        return True

    def writable(self):
        return not self.readonly

    def seekable(self):
        return True


class RawFault(io.RawIOBase):
    """a raw device over a TraceFile, so that the standard library's own buffering sits on top of it"""

    def __init__(self, tf, writable):
        self.tf = tf
        self.w = writable

    def readable(self):
        return True

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return self.tf.seek(off, whence)

    def tell(self):
        return self.tf.tell()

    def readinto(self, b):
        return self.tf.readinto(b)

    def write(self, b):
        return self.tf.write(b)

    def truncate(self, size=None):
        return self.tf.truncate(size)
