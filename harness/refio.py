"""A private copy of the standard library's _pyio, the reference of differential tests, whose known differences with
the C version are repaired, each in favour of the latter: readinto() of BufferedReader raises ValueError when several reads are needed to
fill the target; readinto() of FileIO fails on would-block, and consumes data when the target is read-only; tell() of a closed text stream
complains about iterations, and fails an assertion after some seeks; buffered data can be read after closing; refused sizes and failed seeks corrupt the position."""
import importlib.util
import operator
import sys


def _load():
    import _pyio

    spec = importlib.util.spec_from_file_location("_refpyio", _pyio.__file__)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["_refpyio"] = mod
    spec.loader.exec_module(mod)
    return mod


ref = _load()
_base = ref.BufferedReader._readinto


def _readinto(self, buf, read1):
    count = _base(self, buf, True)
    if not read1 and count:
        view = memoryview(buf).cast("B")
        while count < len(view):
            more = _base(self, view[count:], True)
            if not more:
                break
            count += more
    return count


ref.BufferedReader._readinto = _readinto


def _file_readinto(self, b):  # the original one raises TypeError when the descriptor would block
    self._checkClosed()
    self._checkReadable()
    m = memoryview(b).cast("B")
    if m.readonly:
        raise TypeError("read-only target")
    data = self.read(len(m))
    if data is None:
        return None
    m[:len(data)] = data
    return len(data)


ref.FileIO.readinto = _file_readinto


def _read_unlocked(self, n=None, _base=ref.BufferedReader._read_unlocked):
    self._checkClosed()
    return _base(self, n if n is None else operator.index(n))


def _text_tell(self, _base=ref.TextIOWrapper.tell):
    self._checkClosed()
    if self._snapshot and self._decoded_chars_used:  # a hint only, outdated after a seek(), which then fails an assertion
        self._b2cratio = min(self._b2cratio, len(self._snapshot[1]) / self._decoded_chars_used)
    return _base(self)


def _random_seek(self, pos, whence=0, _base=ref.BufferedRandom.seek):
    if whence in ref.valid_seek_flags:
        self.flush()
        if self._read_buf:
            self.raw.seek(self._read_pos - len(self._read_buf), 1)
            self._reset_read_buf()
    return _base(self, pos, whence)


ref.BufferedReader._read_unlocked = _read_unlocked
ref.TextIOWrapper.tell = _text_tell
ref.BufferedRandom.seek = _random_seek


def _readline(self, size=-1):  # the original one might exceed size when several reads are needed
    if size is None:
        size = -1
    elif not hasattr(size, "__index__"):
        raise TypeError("not an integer")
    size = operator.index(size)
    if size == 0 and self.closed:
        raise ValueError("closed")
    res = b""
    while size < 0 or len(res) < size:
        n = 1
        if hasattr(self, "peek"):
            ahead = self.peek(1)
            n = (ahead.find(b"\n") + 1) or len(ahead) or 1
        b = self.read(n if size < 0 else min(n, size - len(res)))
        if not b:
            break
        res += b
        if res.endswith(b"\n"):
            break
    return res


def _random_truncate(self, pos=None, _base=ref.BufferedRandom.truncate):  # what was read in advance might disappear
    self.seek(0, 1)
    return _base(self, pos)


def _quiet_flush(self):
    telling = self._telling
    self.flush()
    self._telling = telling


def _text_truncate(self, pos=None):
    if pos is None:
        _quiet_flush(self) if self.readable() else self.flush()
        pos = self.tell()
    self.flush()
    return self.buffer.truncate(pos)


def _text_reconfigure(self, *, encoding=None, errors=None, newline=Ellipsis, line_buffering=None, write_through=None, _base=ref.TextIOWrapper.reconfigure):
    if encoding is not None or errors is not None or newline is not Ellipsis:
        return _base(self, encoding=encoding, errors=errors, newline=newline, line_buffering=line_buffering, write_through=write_through)
    _quiet_flush(self)  # the codecs keep their state
    if line_buffering is not None:
        self._line_buffering = line_buffering
    if write_through is not None:
        self._write_through = write_through


ref.BufferedReader.readline = _readline
ref.BufferedRandom.truncate = _random_truncate
ref.TextIOWrapper.truncate = _text_truncate
ref.TextIOWrapper.reconfigure = _text_reconfigure
ref.TextIOWrapper.newlines = property(lambda self: getattr(self._decoder, "newlines", None))
