"""Simulated file system seam.

Data is really stored in a scratch folder (so that the real code paths of io, os and shutil run), but every operation
of the code under test on it goes through here: operations are numbered, can fail, be short, or be the last one before
a crash, and are journaled so that the states a power loss could leave behind can be rebuilt.
"""

import builtins
import errno
import io
import os
import shutil
import stat
import tempfile

_real = {name: getattr(os, name) for name in (
    'open', 'close', 'read', 'write', 'pread', 'pwrite', 'fsync', 'fdatasync', 'rename', 'replace', 'unlink', 'remove', 'mkdir', 'rmdir',
    'link', 'symlink', 'truncate', 'ftruncate', 'chmod', 'fchmod', 'sync', 'utime', 'listdir', 'scandir', 'sendfile', 'copy_file_range')
    if hasattr(os, name)}
_real_open = builtins.open
_real_io_open = io.open


class SimCrash(BaseException):
    """The (simulated) process died here."""


def scratch_base():
    for base in ('/dev/shm', '/tmp'):
        if os.path.isdir(base) and os.access(base, os.W_OK | os.X_OK):
            return base
    return tempfile.gettempdir()


class SimFileIO(io.FileIO):

    def __init__(self, fs, path, mode, fd=None, closefd=True, opener=None):
        self._fs = None
        if fd is not None:
            super().__init__(fd, mode, closefd=closefd)
        else:
            super().__init__(path, mode, opener=opener)
        self._sim_path = path
        self._fs = fs

    # Reading
    def readinto(self, b):
        n = self._fs.before_read(self._sim_path, len(b))
        data = super().read(n)
        if data is None:
            return None
        b[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._fs.before_read(self._sim_path, size))

    def readall(self):
        chunks = []
        while True:
            chunk = super().read(self._fs.before_read(self._sim_path, 1 << 16))
            if not chunk:
                return b''.join(chunks)
            chunks.append(chunk)

    # Writing
    def write(self, b):
        data = bytes(b)
        fs = self._fs
        if fs is None or fs.dead:
            return len(data)
        n = fs.before_write(self._sim_path, len(data))
        torn = n < 0
        if torn:
            n = -n - 1
        offset = os.lseek(self.fileno(), 0, os.SEEK_END) if 'a' in self.mode else super().tell()
        if n:
            super().write(data[:n])
        fs.wrote(self.fileno(), offset, data[:n])
        if torn:
            fs.die()
        return n

    def truncate(self, size=None):
        fs = self._fs
        if fs.dead:
            return 0
        if size is None:
            size = self.tell()
        fs.op('write', self._sim_path, 'truncate')
        result = super().truncate(size)
        fs.truncated(self.fileno(), size)
        return result

    def close(self):
        if not self.closed:
            fs = self._fs
            error = None
            if fs is not None:
                fs.fds.pop(self.fileno(), None)
            if fs is not None and not fs.dead and fs.active and self.writable():
                try:
                    fs.op('close', self._sim_path, '')
                except (OSError, SimCrash) as e:
                    error = e
            super().close()
            if error is not None:
                raise error
        else:
            super().close()


class SimFS():

    READ_KINDS = ('eio_read', 'short_read')
    ELIGIBLE = {
        'eio_read': ('read',), 'eio_write': ('write',), 'enospc': ('write', 'create', 'mkdir'), 'eio_fsync': ('fsync',), 'eio_close': ('close',),
        'eio_rename': ('rename',), 'eacces_open': ('create', 'open'), 'emfile_open': ('create', 'open'), 'eio_mkdir': ('mkdir',),
        'eio_unlink': ('unlink',), 'edquot': ('write',)}
    ERRNO = {
        'eio_read': errno.EIO, 'eio_write': errno.EIO, 'enospc': errno.ENOSPC, 'eio_fsync': errno.EIO, 'eio_close': errno.EIO, 'eio_rename': errno.EIO,
        'eacces_open': errno.EACCES, 'emfile_open': errno.EMFILE, 'eio_mkdir': errno.EIO, 'eio_unlink': errno.EIO, 'edquot': errno.EDQUOT}

    def __init__(self, ctx=None):
        self.base = tempfile.mkdtemp(prefix='dst-', dir=scratch_base())
        self.root = os.path.join(self.base, 'root')
        os.mkdir(self.root)
        self.ctx = ctx
        self.active = False
        self.default_encoding = None
        self.reset()

    def reset(self, faults=(), total=None, short=None):
        """Forget about the past operations and set the faults to come: [{'kind':..., 'at': fraction of the operations}]."""
        self.dead = False
        self.count = 0
        self.trail = []
        self.journal = []
        self.data_journal = []
        self.faults = []
        self.fds = {}
        self.inodes = {}
        self.inode_count = 0
        self.short = short     # random.Random for short reads and writes, or None
        self.fired = []
        self.hooks = {}        # What others do, at a given operation
        for fault in faults:
            at = fault['op'] if 'op' in fault else int(fault['at'] * (total or 1))
            self.faults.append({'kind': fault['kind'], 'at': at, 'left': fault.get('times', 1), 'part': fault.get('part', 0.5)})
        self._initial = None

    def arm(self, faults=(), total=None, short=None):
        """Set the faults to come starting from now, without forgetting about what was not yet durable."""
        self.dead = False
        self.count = 0
        self.trail = []
        self.faults = []
        self.short = short
        self.fired = []
        self.hooks = {}
        for fault in faults:
            self.faults.append({'kind': fault['kind'], 'at': int(fault['at'] * (total or 1)), 'left': fault.get('times', 1), 'part': fault.get('part', 0.5)})

    #----------------------------
    #  Operations and faults
    #----------------------------

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def op(self, kind, path, what=''):
        if self.dead:
            raise SimCrash()
        hook = self.hooks.pop(self.count, None)
        if hook is not None:
            hook()
        i = self.count
        self.count += 1
        self.trail.append((i, kind, self.mask(self.rel(path)), what))
        if self.ctx is not None:
            self.ctx.step()
            self.ctx.log('fs', i, kind, self.mask(self.rel(path)), what)
        for fault in self.faults:
            if fault['left'] <= 0 or i < fault['at']:
                continue
            name = fault['kind']
            if name == 'crash':
                fault['left'] -= 1
                self.note(name, i)
                self.die()
            if name == 'crash_torn':
                if kind == 'write':
                    continue            # handled by before_write
                if kind in ('rename', 'fsync', 'close'):
                    fault['left'] -= 1
                    self.note('crash', i)
                    self.die()
                continue
            if name == 'interrupt' or name == 'memory':
                fault['left'] -= 1
                self.note(name, i)
                raise KeyboardInterrupt() if name == 'interrupt' else MemoryError('simulated')
            if kind in self.ELIGIBLE.get(name, ()):
                fault['left'] -= 1
                self.note(name, i)
                raise OSError(self.ERRNO[name], os.strerror(self.ERRNO[name]), self.rel(path))
        return i

    def mask(self, name):
        # Names of temporary files may have process and thread identifiers, or random parts
        known = getattr(self, 'known_names', None)
        parts = name.split(os.sep)
        if known is not None and parts[0] not in known:
            parts = ['<tmp>'] + parts[1:]
        return os.sep.join(parts)

    def note(self, name, i):
        self.fired.append((name, i))
        if self.ctx is not None:
            self.ctx.fault(name)

    def die(self):
        self.dead = True
        raise SimCrash()

    def before_read(self, path, n):
        self.op('read', path, '')
        if self.short is not None and n > 1 and self.short.random() < 0.5:
            if self.ctx is not None:
                self.ctx.fault('short_read')
            return min(n, self.short.choice((1, 2, 3, 7, max(1, n // 2))))
        return n

    def before_write(self, path, n):
        i = self.count
        for fault in self.faults:
            if fault['kind'] == 'crash_torn' and fault['left'] > 0 and i >= fault['at']:
                fault['left'] -= 1
                self.op('write', path, n)
                self.note('crash_torn', i)
                return -int(n * fault['part']) - 1
            if fault['kind'] == 'enospc_partial' and fault['left'] > 0 and i >= fault['at'] and n > 1:
                # The disk gets full: a short write, and then nothing more
                fault['kind'] = 'enospc'
                fault['left'] = 10**9
                fault['at'] = 0
                self.count += 1
                self.note('enospc_partial', i)
                return max(1, min(n - 1, int(n * fault['part'])))
        self.op('write', path, '')
        if self.short is not None and n > 1 and self.short.random() < 0.5:
            if self.ctx is not None:
                self.ctx.fault('short_write')
            return min(n, self.short.choice((1, 2, 3, 7, max(1, n // 2))))
        return n

    #----------------------------
    #  Journal
    #----------------------------

    def inode(self, fd, new=False):
        # The numbers of deleted files can be reused by the real file system, so use our own ones
        ino = os.fstat(fd).st_ino
        if new or ino not in self.inodes:
            self.inode_count += 1
            self.inodes[ino] = self.inode_count
        return self.inodes[ino]

    def wrote(self, fd, offset, data):
        self.data_journal.append((len(self.journal), 'write', self.inode(fd), offset, data))

    def truncated(self, fd, size):
        self.data_journal.append((len(self.journal), 'truncate', self.inode(fd), size))

    def synced(self, fd):
        if stat.S_ISDIR(os.fstat(fd).st_mode):
            self.journal.append(('dirsync',))
        else:
            self.data_journal.append((len(self.journal), 'fsync', self.inode(fd)))

    def mark(self):
        """Take what is now stored as durable: the journal starts here."""
        self._initial = self._capture()
        self.journal = []
        self.data_journal = []

    def _capture(self):
        names, data = {}, {}
        for folder, dirs, files in os.walk(self.root):
            for d in dirs:
                if os.path.islink(os.path.join(folder, d)):
                    names[self.rel(os.path.join(folder, d))] = ('symlink', os.readlink(os.path.join(folder, d)))
                else:
                    names[self.rel(os.path.join(folder, d))] = ('dir', None)
            for f in files:
                path = os.path.join(folder, f)
                if os.path.islink(path):
                    names[self.rel(path)] = ('symlink', os.readlink(path))
                    continue
                self.inode_count += 1
                ino = self.inodes[os.stat(path).st_ino] = self.inode_count
                names[self.rel(path)] = ('file', ino)
                with _real_open(path, 'rb') as fh:
                    data[ino] = fh.read()
        return names, data

    def power_loss(self, rng):
        """Replace what is stored with one of the states that could be found after losing power now: an ordered prefix of the
        changes to the names, and for every file the writes up to its last fsync plus an arbitrary number of the following ones."""
        names, data = dict(self._initial[0]), dict(self._initial[1])
        durable = 0
        for i, entry in enumerate(self.journal):
            if entry[0] == 'dirsync':
                durable = i + 1
        upto = rng.randint(durable, len(self.journal)) if rng.random() < 0.5 else len(self.journal)
        for entry in self.journal[:upto]:
            kind = entry[0]
            if kind == 'create':
                names[entry[1]] = ('file', entry[2])
                data.setdefault(entry[2], b'')
            elif kind == 'mkdir':
                names[entry[1]] = ('dir', None)
            elif kind == 'unlink':
                names.pop(entry[1], None)
            elif kind == 'rmdir':
                names.pop(entry[1], None)
            elif kind == 'rename':
                src, dst = entry[1], entry[2]
                moved = {n: v for n, v in names.items() if n == src or n.startswith(src + os.sep)}
                for n in moved:
                    names.pop(n)
                for n, v in moved.items():
                    names[dst + n[len(src):]] = v
            elif kind == 'link':
                if entry[1] in names:
                    names[entry[2]] = names[entry[1]]
        # Data
        events = {}
        for entry in self.data_journal:
            events.setdefault(entry[2], []).append(entry)
        lost = 0
        for ino in sorted(events, key=lambda i: self.data_journal.index(events[i][0])):
            entries = events[ino]
            synced = max([i + 1 for i, e in enumerate(entries) if e[1] == 'fsync'] or [0])
            mode = rng.random()
            upto_data = synced if mode < 0.5 else (len(entries) if mode < 0.6 else rng.randint(synced, len(entries)))
            content = bytearray(data.get(ino, b''))
            for i, e in enumerate(entries[:upto_data]):
                if e[1] == 'write':
                    chunk = e[4]
                    if i >= synced and i == upto_data - 1 and rng.random() < 0.5:
                        chunk = chunk[:rng.randint(0, len(chunk))]
                        lost += 1
                    if len(content) < e[3]:
                        content.extend(b'\0' * (e[3] - len(content)))
                    content[e[3]:e[3]+len(chunk)] = chunk
                elif e[1] == 'truncate':
                    del content[e[3]:]
                    if len(content) < e[3]:
                        content.extend(b'\0' * (e[3] - len(content)))
            lost += sum(1 for e in entries[upto_data:] if e[1] == 'write')
            data[ino] = bytes(content)
        if self.ctx is not None:
            self.ctx.fault('power_loss')
            if lost:
                self.ctx.fault('lost_write', lost)
        # Materialise
        self.wipe()
        for name in sorted(names):
            kind, ino = names[name]
            path = os.path.join(self.root, name)
            if kind == 'dir':
                os.makedirs(path, exist_ok=True)
        for name in sorted(names):
            kind, ino = names[name]
            path = os.path.join(self.root, name)
            if kind == 'file':
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with _real_open(path, 'wb') as f:
                    f.write(data.get(ino, b''))
            elif kind == 'symlink':
                os.makedirs(os.path.dirname(path), exist_ok=True)
                _real['symlink'](ino, path)

    def wipe(self):
        for name in _real['listdir'](self.root):
            path = os.path.join(self.root, name)
            if os.path.isdir(path) and not os.path.islink(path):
                shutil.rmtree(path)
            else:
                _real['unlink'](path)

    #----------------------------
    #  Patches
    #----------------------------

    def inside(self, path, dir_fd=None):
        """The absolute path if inside the simulated file system, or None."""
        try:
            if isinstance(path, int):
                return self.fds.get(path)
            path = os.fspath(path)
            if isinstance(path, bytes):
                path = os.fsdecode(path)
        except TypeError:
            return None
        if dir_fd is not None:
            try:
                path = os.path.join(os.readlink('/proc/self/fd/{}'.format(dir_fd)), path)
            except OSError:
                return None
        path = os.path.abspath(path)
        if path == self.root or path.startswith(self.root + os.sep):
            return path
        return None

    def __enter__(self):
        fs = self

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            path = fs.inside(file) if fs.active else None
            if path is None:
                return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            binary = 'b' in mode
            raw_mode = mode.replace('b', '').replace('t', '')
            if not binary and (encoding is None or encoding == 'locale') and fs.default_encoding:
                encoding = fs.default_encoding
            if isinstance(file, int):
                raw = SimFileIO(fs, path, raw_mode, fd=file, closefd=closefd)
            else:
                creating = any(c in raw_mode for c in 'wxa+')
                existed = os.path.exists(path)
                if creating and (not existed or 'w' in raw_mode):
                    fs.op('create', path, raw_mode)
                else:
                    fs.op('open', path, raw_mode)
                raw = SimFileIO(fs, path if opener is None else file, raw_mode, opener=opener)
                raw._sim_path = path
                if creating and opener is None:
                    fs.created(raw.fileno(), path, existed, 'w' in raw_mode)
                fs.fds[raw.fileno()] = path
            if buffering == 0:
                return raw
            size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
            if '+' in raw_mode:
                buffer = io.BufferedRandom(raw, size)
            elif any(c in raw_mode for c in 'wxa'):
                buffer = io.BufferedWriter(raw, size)
            else:
                buffer = io.BufferedReader(raw, size)
            if binary:
                return buffer
            text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering=(buffering == 1))
            text.mode = mode
            return text

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            full = fs.inside(path, dir_fd) if fs.active else None
            if full is None:
                return _real['open'](path, flags, mode, dir_fd=dir_fd)
            existed = os.path.exists(full)
            creates = bool(flags & os.O_CREAT) and not existed
            trunc = bool(flags & os.O_TRUNC)
            fs.op('create' if (creates or trunc) else 'open', full, 'os')
            fd = _real['open'](path, flags, mode, dir_fd=dir_fd)
            fs.fds[fd] = full
            if creates or trunc:
                fs.created(fd, full, existed, trunc)
            return fd

        def os_write(fd, data):
            full = fs.fds.get(fd) if fs.active else None
            if full is None:
                return _real['write'](fd, data)
            data = bytes(data)
            if fs.dead:
                raise SimCrash()
            n = fs.before_write(full, len(data))
            torn = n < 0
            if torn:
                n = -n - 1
            offset = os.lseek(fd, 0, os.SEEK_CUR)
            if n:
                _real['write'](fd, data[:n])
            fs.wrote(fd, offset, data[:n])
            if torn:
                fs.die()
            return n

        def os_read(fd, n):
            full = fs.fds.get(fd) if fs.active else None
            if full is None:
                return _real['read'](fd, n)
            return _real['read'](fd, fs.before_read(full, n))

        def os_close(fd):
            fs.fds.pop(fd, None)
            return _real['close'](fd)

        def os_fsync(fd):
            number = fd if isinstance(fd, int) else fd.fileno()
            full = fs._fd_path(number) if fs.active else None
            if full is None:
                return _real['fsync'](fd)
            fs.op('fsync', full)
            fs.synced(number)

        def os_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
            full_src = fs.inside(src, src_dir_fd) if fs.active else None
            full_dst = fs.inside(dst, dst_dir_fd) if fs.active else None
            if full_src is None and full_dst is None:
                return _real['rename'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            fs.op('rename', full_src or full_dst, fs.mask(fs.rel(full_dst)) if full_dst else '')
            if full_src is None:
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), dst)
            _real['rename'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            fs.journal.append(('rename', fs.rel(full_src), fs.rel(full_dst) if full_dst else '..'))

        def os_unlink(path, *, dir_fd=None):
            full = fs.inside(path, dir_fd) if fs.active else None
            if full is None:
                return _real['unlink'](path, dir_fd=dir_fd)
            fs.op('unlink', full)
            _real['unlink'](path, dir_fd=dir_fd)
            fs.journal.append(('unlink', fs.rel(full)))

        def os_mkdir(path, mode=0o777, *, dir_fd=None):
            full = fs.inside(path, dir_fd) if fs.active else None
            if full is None:
                return _real['mkdir'](path, mode, dir_fd=dir_fd)
            fs.op('mkdir', full)
            _real['mkdir'](path, mode, dir_fd=dir_fd)
            fs.journal.append(('mkdir', fs.rel(full)))

        def os_rmdir(path, *, dir_fd=None):
            full = fs.inside(path, dir_fd) if fs.active else None
            if full is None:
                return _real['rmdir'](path, dir_fd=dir_fd)
            fs.op('unlink', full, 'rmdir')
            _real['rmdir'](path, dir_fd=dir_fd)
            fs.journal.append(('rmdir', fs.rel(full)))

        def os_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
            full_src = fs.inside(src, src_dir_fd) if fs.active else None
            full_dst = fs.inside(dst, dst_dir_fd) if fs.active else None
            if full_src is not None:
                fs.op('create', full_dst or full_src, 'link')
            _real['link'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, follow_symlinks=follow_symlinks)
            if full_src is not None and full_dst is not None:
                fs.journal.append(('link', fs.rel(full_src), fs.rel(full_dst)))

        def os_truncate(path, length):
            full = fs.inside(path) if fs.active else None
            if full is None:
                return _real['truncate'](path, length)
            fs.op('write', full, 'truncate')
            _real['truncate'](path, length)
            ino = fs.inodes.get(os.stat(path).st_ino)
            if ino is not None:
                fs.data_journal.append((len(fs.journal), 'truncate', ino, length))

        def os_ftruncate(fd, length):
            full = fs.fds.get(fd) if fs.active else None
            if full is None:
                return _real['ftruncate'](fd, length)
            fs.op('write', full, 'truncate')
            _real['ftruncate'](fd, length)
            fs.truncated(fd, length)

        def os_chmod(path, mode, *args, **kwargs):
            full = fs.inside(path, kwargs.get('dir_fd')) if fs.active else None
            if full is not None and fs.dead:
                raise SimCrash()
            return _real['chmod'](path, mode, *args, **kwargs)

        self._patched = {'open': os_open, 'write': os_write, 'read': os_read, 'close': os_close, 'fsync': os_fsync, 'fdatasync': os_fsync,
                         'rename': os_rename, 'replace': os_rename, 'unlink': os_unlink, 'remove': os_unlink, 'mkdir': os_mkdir, 'rmdir': os_rmdir,
                         'link': os_link, 'truncate': os_truncate, 'ftruncate': os_ftruncate, 'chmod': os_chmod}
        for name, function in self._patched.items():
            setattr(os, name, function)
        # What the standard library looks for in these sets
        self._sets = []
        for attr in ('supports_dir_fd', 'supports_fd', 'supports_follow_symlinks', 'supports_effective_ids'):
            value = getattr(os, attr, None)
            if value is None:
                continue
            added = {function for name, function in self._patched.items() if _real[name] in value}
            self._sets.append((value, added))
            value |= added
        # No kernel-side copies: they would not go through the seam
        self._shutil = {}
        for name in ('_USE_CP_SENDFILE', '_USE_CP_COPY_FILE_RANGE'):
            if hasattr(shutil, name):
                self._shutil[name] = getattr(shutil, name)
                setattr(shutil, name, False)
        builtins.open = sim_open
        io.open = sim_open
        self.active = True
        return self

    def __exit__(self, *exc):
        self.active = False
        for name in self._patched:
            setattr(os, name, _real[name])
        for value, added in self._sets:
            value -= added
        for name, value in self._shutil.items():
            setattr(shutil, name, value)
        builtins.open = _real_open
        io.open = _real_io_open
        return False

    def _fd_path(self, fd):
        if fd in self.fds:
            return self.fds[fd]
        try:
            return self.inside(os.readlink('/proc/self/fd/{}'.format(fd)))
        except OSError:
            return None

    def created(self, fd, path, existed, truncates):
        if not existed:
            # Possibly created through a (dangling) symbolic link
            self.journal.append(('create', self.rel(os.path.realpath(path)), self.inode(fd, new=True)))
        elif truncates:
            self.truncated(fd, 0)

    def destroy(self):
        self.active = False
        if os.path.isdir(self.base) and os.path.basename(self.base).startswith('dst-'):
            shutil.rmtree(self.base, ignore_errors=True)
