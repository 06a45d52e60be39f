"""A simulated disk over a scratch directory.

Python level opens of paths under the root go through SimRaw, which injects
the scenario's faults and applies the process-crash model: data handed to
write(2) survives, data still buffered in the process is lost, and nothing
the process does after the crash reaches the disk. Libraries that read
below Python (numpy.fromfile) are given the damaged file itself."""
import builtins
import errno
import io
import os
import shutil

from .core import SimCrash

_real_open = io.open
_real = dict(replace=os.replace, rename=os.rename, unlink=os.unlink,
             remove=os.remove)


class SimRaw(io.FileIO):
    def __init__(self, fs, path, mode, name):
        super().__init__(path, mode)
        self._fs, self._name = fs, name
        self._nread = 0
        fs.handles.append(self)

    # ------------------------------------------------------------ read
    def readinto(self, b):
        fs = self._fs
        fs.op('read', self._name)
        f = fs.match('read_error', self._name)
        if f and f['nth'] <= fs.count('read', self._name):
            fs.fire(f, 'read error')
            raise OSError(errno.EIO, 'Input/output error (simulated)')
        f = fs.match('short_reads', self._name)
        if f:
            b = memoryview(b)[:max(1, f['max'])]
            fs.fire(f, 'short read')
        return super().readinto(b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(65536)
            k = self.readinto(buf)
            if not k:
                return bytes(out)
            out += buf[:k]

    # ----------------------------------------------------------- write
    def write(self, b):
        fs = self._fs
        b = bytes(b)
        if fs.dead:
            return len(b)
        fs.op('write', self._name)
        f = fs.match('write_error', self._name)
        if f and f['nth'] == fs.count('write', self._name):
            fs.fire(f, 'write error')
            raise OSError(f.get('errno', errno.EIO), 'simulated write error')
        f = fs.match('disk_full', self._name)
        if f:
            room = f['after'] - fs.written
            if room <= 0:
                fs.fire(f, 'disk full')
                raise OSError(errno.ENOSPC,
                              'No space left on device (simulated)')
            b = b[:room]
        f = fs.match('short_writes', self._name)
        if f and len(b) > f['max']:
            b = b[:max(1, f['max'])]
            fs.fire(f, 'short write')
        f = fs.match('crash_in_write', self._name)
        if f and fs.written + len(b) >= f['after']:
            keep = max(0, f['after'] - fs.written)
            super().write(b[:keep])
            fs.fire(f, 'crash (torn write)')
            fs.die()
        n = super().write(b)
        fs.written += n
        return n

    def close(self):
        if self.closed:
            return
        fs = self._fs
        writing = self.writable()
        super().close()
        if writing and not fs.dead:
            f = fs.match('close_error', self._name)
            if f and not f.get('_done'):
                f['_done'] = True
                fs.fire(f, 'close error')
                raise OSError(errno.EIO, 'simulated error on close')

    def truncate(self, size=None):
        if self._fs.dead:
            return 0
        return super().truncate(size)


class SimFS:
    def __init__(self, run, root, faults=(), buffer=None):
        self.run = run
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.buffer = buffer
        self.dead = False
        self.active = True
        self.handles = []
        self.counts = {}
        self.written = 0
        self.ops = 0

    # ---------------------------------------------------------- plumbing
    def rel(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        p = os.path.join(os.path.realpath(os.path.dirname(p)),
                         os.path.basename(p))
        if p == self.root or not p.startswith(self.root + os.sep):
            return None
        return p[len(self.root) + 1:]

    def match(self, kind, name):
        for f in self.faults:
            if f['kind'] == kind and (f.get('file') in (None, name)
                                      or name.endswith(f.get('file', '\0'))):
                return f
        return None

    def fire(self, f, label):
        self.run.fault(label)
        if not f.get('_logged'):
            f['_logged'] = True
            self.run.log('fault', label)

    def count(self, op, name):
        return self.counts.get((op, name), 0)

    def op(self, kind, name):
        if self.dead:
            raise SimCrash()
        self.ops += 1
        self.run.steps += 1
        self.counts[kind, name] = self.counts.get((kind, name), 0) + 1
        for f in self.faults:
            if f['kind'] == 'crash_at_op' and f['op'] == self.ops:
                self.fire(f, 'crash')
                self.die()

    def die(self):
        self.dead = True
        raise SimCrash()

    # ------------------------------------------------------------- hooks
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        name = None
        if self.active and not isinstance(file, int):
            name = self.rel(file)
        if name is None:
            return _real_open(file, mode, buffering, encoding, errors,
                              newline, closefd, opener)
        self.op('open', name)
        self.run.log('open', name, mode)
        path = os.path.join(self.root, name)
        nth = self.count('open', name)
        for f in self.faults:
            if f['kind'] == 'other_process' and f['nth'] == nth and \
                    name.endswith(f['file']) and not f.get('_done'):
                # another process got there between check and open
                f['_done'] = True
                self.fire(f, 'file created/replaced by another process')
                data = f['data'].encode('latin-1')
                with _real_open(path + '.other', 'wb') as g:
                    g.write(data)
                _real['replace'](path + '.other', path)
        f = self.match('open_error', name)
        if f and f['nth'] == nth:
            self.fire(f, 'open error')
            raise OSError(f.get('errno', errno.EIO),
                          'simulated error on open', str(file))
        reading = 'r' in mode and '+' not in mode
        f = self.match('truncate', name)
        if reading and f and nth >= f.get('from_open', 1):
            # the file as a crashed or failed copy left it
            with _real_open(path, 'rb') as g:
                data = g.read()
            cut = min(len(data), f['at'])
            alt = os.path.join(self.root, f'.cut-{nth}-{cut}')
            with _real_open(alt, 'wb') as g:
                g.write(data[:cut])
            if cut < len(data):
                self.fire(f, 'truncated file')
            path = alt
        rawmode = ''.join(c for c in mode if c in 'rwxa+')
        raw = SimRaw(self, path, rawmode, name)
        if buffering == 0:
            return raw
        size = self.buffer or io.DEFAULT_BUFFER_SIZE
        if '+' in mode:
            buf = io.BufferedRandom(raw, size)
        elif reading:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                                line_buffering=buffering == 1)
        try:
            text._CHUNK_SIZE = max(2, size)
        except AttributeError:
            pass
        text.mode = mode
        return text

    def _rename(self, src, dst, **kw):
        a, b = self.rel(src), self.rel(dst)
        if not self.active or (a is None and b is None):
            return _real['replace'](src, dst, **kw)
        self.op('rename', b or a)
        f = self.match('rename_error', b or a)
        if f:
            self.fire(f, 'rename error')
            raise OSError(errno.EIO, 'simulated error on rename')
        self.run.log('rename', a, b)
        _real['replace'](src, dst, **kw)
        f = self.match('crash_after_rename', b or a)
        if f:
            self.fire(f, 'crash')
            self.die()

    def _unlink(self, path, **kw):
        name = self.rel(path) if self.active else None
        if name is not None:
            self.op('unlink', name)
            self.run.log('unlink', name)
        return _real['unlink'](path, **kw)

    def __enter__(self):
        builtins.open = self.open
        io.open = self.open
        os.replace = os.rename = self._rename
        os.unlink = os.remove = self._unlink
        import numpy.lib._datasource as ds
        openers = ds._file_openers
        openers._load()
        self._np = openers._file_openers
        self._np_old = self._np.get(None)
        self._np[None] = self.open
        return self

    def __exit__(self, *a):
        builtins.open = _real_open
        io.open = _real_open
        os.replace, os.rename = _real['replace'], _real['rename']
        os.unlink, os.remove = _real['unlink'], _real['remove']
        self._np[None] = self._np_old
        return False

    # ------------------------------------------------------- observations
    def open_handles(self):
        return [h._name for h in self.handles if not h.closed]

    def crash_cleanup(self):
        """The process is dead: its descriptors go away, its buffers are
        lost."""
        self.dead = True
        for h in self.handles:
            try:
                if not h.closed:
                    io.FileIO.close(h)
            except OSError:
                pass

    def restart(self, faults=()):
        fs = SimFS(self.run, self.root, faults, self.buffer)
        return fs
