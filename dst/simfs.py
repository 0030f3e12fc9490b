"""In-memory POSIX-like file system of the simulation.

Flat table of absolute path -> inode.  Every mutation goes through a method of
``SimFS`` so that observers (invariants) see each state and so that a journal
for power loss can be kept.  No real file system is ever touched.
"""

import errno
import os
import stat as st_mod

VROOT = '/simfs'


class Inode:
    __slots__ = ('ino', 'kind', 'data', 'mode', 'version', 'nlink', 'mtime',
                 'log', 'target')

    def __init__(self, ino, kind, mode, target=None):
        self.ino = ino
        self.kind = kind            # 'file', 'dir', 'link'
        self.data = bytearray() if kind == 'file' else None
        self.mode = mode
        self.version = 0
        self.nlink = 1
        self.mtime = 0.0
        self.log = []               # [(seq, 'w'|'t', off, bytes)] since durable
        self.target = target


def oserr(code, *paths):
    return OSError(code, os.strerror(code), *paths)


class SimFS:
    def __init__(self):
        self.next_ino = 1000
        self.seq = 0
        self.table = {}
        self.observers = []
        self.capacity = None          # bytes of free space, None = unlimited
        self.journal = []             # [(seq, kind, args)] metadata since durable
        self.durable_base = None
        self._mk(VROOT, 'dir', 0o755)

    # -- helpers -----------------------------------------------------------
    def _mk(self, path, kind, mode, target=None):
        node = Inode(self.next_ino, kind, mode, target)
        self.next_ino += 1
        self.table[path] = node
        return node

    def _changed(self, what, *paths):
        self.seq += 1
        for fn in self.observers:
            fn(what, *paths)

    def norm(self, path, cwd):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith('/'):
            path = cwd + '/' + path
        parts = []
        for p in path.split('/'):
            if p in ('', '.'):
                continue
            if p == '..':
                if parts:
                    parts.pop()
                continue
            parts.append(p)
        return '/' + '/'.join(parts)

    def resolve(self, path, follow=True, _depth=0):
        """Follow symbolic links of intermediate components (and the last)."""
        if _depth > 20:
            raise oserr(errno.ELOOP, path)
        parts = path.strip('/').split('/')
        cur = ''
        for i, p in enumerate(parts):
            nxt = cur + '/' + p
            node = self.table.get(nxt)
            last = i == len(parts) - 1
            if node is not None and node.kind == 'link' and (follow or not last):
                tgt = self.norm(node.target, cur or '/')
                rest = '/'.join(parts[i + 1:])
                return self.resolve(tgt + ('/' + rest if rest else ''), follow,
                                    _depth + 1)
            cur = nxt
        return cur

    def get(self, path):
        return self.table.get(path)

    def parent(self, path):
        return path.rsplit('/', 1)[0] or '/'

    def need_parent(self, path):
        par = self.parent(path)
        node = self.table.get(par)
        if node is None:
            # distinguish ENOTDIR from ENOENT
            up = self.parent(par)
            while up != '/' and up not in self.table:
                up = self.parent(up)
            n = self.table.get(up)
            if n is not None and n.kind != 'dir':
                raise oserr(errno.ENOTDIR, path)
            raise oserr(errno.ENOENT, path)
        if node.kind != 'dir':
            raise oserr(errno.ENOTDIR, path)
        return node

    def files(self):
        return {p: n for p, n in self.table.items() if n.kind == 'file'}

    def snapshot(self):
        """Immutable picture: path -> bytes for files, None for directories."""
        out = {}
        for p, n in self.table.items():
            if n.kind == 'file':
                out[p] = bytes(n.data)
            elif n.kind == 'dir':
                out[p] = None
            else:
                out[p] = ('link', n.target)
        return out

    def restore(self, snap, modes=None):
        self.table = {}
        for p in sorted(snap):
            v = snap[p]
            if v is None:
                self._mk(p, 'dir', 0o755)
            elif isinstance(v, tuple):
                self._mk(p, 'link', 0o777, v[1])
            else:
                self._mk(p, 'file', 0o644).data = bytearray(v)
            if modes and p in modes:
                self.table[p].mode = modes[p]
        self.mark_durable()

    def modes(self):
        return {p: n.mode for p, n in self.table.items()
                if (n.kind == 'dir' and n.mode != 0o755)
                or (n.kind == 'file' and n.mode != 0o644)}

    # -- mutations (already permission checked by the caller) --------------
    def used(self):
        seen = set()
        tot = 0
        for n in self.table.values():
            if n.kind == 'file' and n.ino not in seen:
                seen.add(n.ino)
                tot += len(n.data)
        return tot

    def create(self, path, mode=0o644):
        self.need_parent(path)
        node = self._mk(path, 'file', mode)
        self.journal.append((self.seq, 'create', (path, node)))
        self._changed('create', path)
        return node

    def mkdir(self, path, mode=0o755):
        if path in self.table:
            raise oserr(errno.EEXIST, path)
        self.need_parent(path)
        node = self._mk(path, 'dir', mode)
        self.journal.append((self.seq, 'create', (path, node)))
        self._changed('mkdir', path)

    def symlink(self, target, path):
        if path in self.table:
            raise oserr(errno.EEXIST, path)
        self.need_parent(path)
        node = self._mk(path, 'link', 0o777, target)
        self.journal.append((self.seq, 'create', (path, node)))
        self._changed('symlink', path)

    def unlink(self, path):
        node = self.table.get(path)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind == 'dir':
            raise oserr(errno.EISDIR, path)
        del self.table[path]
        node.nlink -= 1
        self.journal.append((self.seq, 'unlink', (path,)))
        self._changed('unlink', path)

    def rmdir(self, path):
        node = self.table.get(path)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind != 'dir':
            raise oserr(errno.ENOTDIR, path)
        pre = path + '/'
        if any(p.startswith(pre) for p in self.table):
            raise oserr(errno.ENOTEMPTY, path)
        del self.table[path]
        self.journal.append((self.seq, 'unlink', (path,)))
        self._changed('rmdir', path)

    def link(self, src, dst):
        node = self.table.get(src)
        if node is None:
            raise oserr(errno.ENOENT, src, None, dst)
        if dst in self.table:
            raise oserr(errno.EEXIST, src, None, dst)
        self.need_parent(dst)
        self.table[dst] = node
        node.nlink += 1
        self.journal.append((self.seq, 'create', (dst, node)))
        self._changed('link', src, dst)

    def rename(self, src, dst):
        node = self.table.get(src)
        if node is None:
            raise oserr(errno.ENOENT, src, None, dst)
        self.need_parent(dst)
        old = self.table.get(dst)
        if old is node:
            return
        if old is not None:
            if old.kind == 'dir' and node.kind != 'dir':
                raise oserr(errno.EISDIR, src, None, dst)
            if old.kind != 'dir' and node.kind == 'dir':
                raise oserr(errno.ENOTDIR, src, None, dst)
            if old.kind == 'dir' and any(p.startswith(dst + '/') for p in self.table):
                raise oserr(errno.ENOTEMPTY, src, None, dst)
        moved = [(src, dst)]
        if node.kind == 'dir':
            pre = src + '/'
            moved += [(p, dst + p[len(src):]) for p in list(self.table)
                      if p.startswith(pre)]
        nodes = [self.table.pop(a) for a, _ in moved]
        for (_, b), n in zip(moved, nodes):
            self.table[b] = n
        self.journal.append((self.seq, 'rename', (moved,)))
        self._changed('rename', src, dst)

    def truncate(self, node, size, path=None):
        if len(node.data) == size:
            return
        if size < len(node.data):
            del node.data[size:]
        else:
            node.data.extend(bytes(size - len(node.data)))
        node.version += 1
        self.journal.append((self.seq, 'trunc', (node, size)))
        node.log.append((self.seq, 't', size, None))
        self._changed('trunc', path)

    def write(self, node, off, data, path=None):
        data = bytes(data)
        if not data:
            return
        end = off + len(data)
        if len(node.data) < off:
            node.data.extend(bytes(off - len(node.data)))
        node.data[off:end] = data
        node.version += 1
        node.log.append((self.seq, 'w', off, data))
        self._changed('write', path)

    def chmod(self, path, mode):
        node = self.table.get(path)
        if node is None:
            raise oserr(errno.ENOENT, path)
        node.mode = mode & 0o777
        self._changed('chmod', path)

    # -- power loss ---------------------------------------------------------
    def mark_durable(self):
        """Everything written so far has reached the disk."""
        self.durable_base = {p: (n, bytes(n.data) if n.kind == 'file' else None)
                             for p, n in self.table.items()}
        self.journal = []
        for n in self.table.values():
            n.log = []

    def fsync(self, node):
        # metadata journal is committed up to now, data of this inode too
        self.journal.append((self.seq, 'fsync', (node, len(node.log))))

    def power_loss(self, rng):
        """Return the file system image found after the power came back.

        Model: an ordered metadata journal of which an arbitrary prefix has
        been committed; of each file an arbitrary prefix of its data writes
        (the last one possibly torn) has reached the disk, independently of
        the journal; a committed truncation always shows.
        """
        jr = self.journal
        lo = 0
        synced = {}
        for i, (_, kind, args) in enumerate(jr):
            if kind == 'fsync':
                lo = i + 1
                synced[args[0].ino] = args[1]
        cut = rng.randint(lo, len(jr))
        table = {p: n for p, (n, _) in self.durable_base.items()}
        base_data = {n.ino: d for n, d in self.durable_base.values()}
        truncs = {}
        for _, kind, args in jr[:cut]:
            if kind == 'create':
                table[args[0]] = args[1]
            elif kind == 'unlink':
                table.pop(args[0], None)
            elif kind == 'rename':
                nodes = [table.pop(a, None) for a, _ in args[0]]
                for (_, b), n in zip(args[0], nodes):
                    if n is not None:
                        table[b] = n
            elif kind == 'trunc':
                truncs[args[0].ino] = truncs.get(args[0].ino, 0) + 1
        out = {}
        done = {}
        for p in sorted(table):
            n = table[p]
            if n.kind == 'dir':
                out[p] = None
                continue
            if n.kind == 'link':
                out[p] = ('link', n.target)
                continue
            if n.ino in done:
                out[p] = done[n.ino]
                continue
            buf = bytearray(base_data.get(n.ino) or b'')
            keep = rng.randint(synced.get(n.ino, 0), len(n.log))
            nt = truncs.get(n.ino, 0)
            for i, (_, k, off, d) in enumerate(n.log):
                if k == 't':
                    if nt <= 0:
                        break          # an uncommitted truncation: nothing after it
                    nt -= 1
                    if off < len(buf):
                        del buf[off:]
                    else:
                        buf.extend(bytes(off - len(buf)))
                elif i < keep:
                    if i == keep - 1 and rng.random() < 0.5 \
                            and i >= synced.get(n.ino, 0):
                        d = d[:rng.randint(0, len(d))]
                    if len(buf) < off:
                        buf.extend(bytes(off - len(buf)))
                    buf[off:off + len(d)] = d
            out[p] = done[n.ino] = bytes(buf)
        return out


def st_result(node, now):
    kind = {'file': st_mod.S_IFREG, 'dir': st_mod.S_IFDIR,
            'link': st_mod.S_IFLNK}[node.kind]
    size = len(node.data) if node.kind == 'file' else 4096
    t = int(node.mtime)
    return os.stat_result((kind | node.mode, node.ino, 42, node.nlink, 1000,
                           1000, size, t, t, t,
                           float(t), float(t), float(t),
                           t * 10**9, t * 10**9, t * 10**9, 4096,
                           (size + 511) // 512, 0)[:19])
