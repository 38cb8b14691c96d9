"""Models of what lies below the encoded code: the text of one number, and files.

A symbolic double is written as a number of its own ("token"); reading happens in the real
code, and a value read that is a token stands for the double it was written for."""
import os
import re
from . import terms as T
from . import rt as R


def token(ex, t):
    tk = ex.cur.tokens
    if t.id not in tk:
        k = len(tk)
        st = ex.token_style
        if st == 1: s = '-%d.%d5' % (16777217 + 3 * k, k)
        elif st == 2: s = '%d.%03d7e-%d' % (1 + k % 9, k, 20 + k // 9)
        elif st == 3: s = '%d.%03d3e%d' % (1 + k % 9, k, 20 + k // 9)
        else: s = '%d.0625' % (33554433 + 5 * k)
        tk[t.id] = (s, t)
        ex.cur.detok[float(s)] = t
        ex.cur.tokvals.append(float(s))
    return tk[t.id][0].encode()


def untoken(ex, v):
    """the double a concrete value that was read stands for"""
    if v.__class__ is not float: return v
    d = ex.cur.detok
    if v in d: return d[v]
    if v != v or abs(v) == T.INF: return v
    for w in ex.cur.tokvals:
        if abs(v - w) <= 4e-16 * abs(w): return d[w]
    return v


def number(ex, x):
    return repr(x).encode() if x.__class__ is float else token(ex, x)


def ryu(rt, name):
    def format64(x, buf):
        b = number(rt.ex, x)
        rt.write_bytes(buf, b)
        return len(b)
    return format64
ryu._factory = True


def zmij(rt, name):
    def write(x, buf):
        b = number(rt.ex, x)
        rt.write_bytes(buf, b)
        return buf + len(b)
    return write
zmij._factory = True

R.MODELS += [(re.compile(r'3ryu6pretty8format64$'), ryu), (re.compile(r'4zmij7privated\w*20write_to_zmij_buffer$'), zmij)]


# ------------------------------------------------------------------ files
# One directory of regular files and directories, per path. Names may hold symbolic bytes.
# The only fault that does not follow from the names is a limit on the size of files, after
# which writing fails: the input fs.limit.
O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 0o100, 0o200, 0o1000, 0o2000
ENOENT, EIO, EBADF, EEXIST, ENOTDIR, EISDIR, EINVAL, EFBIG, ENOSYS = 2, 5, 9, 17, 20, 21, 22, 27, 38


class FS:
    def __init__(self):
        self.files = []          # [name (list of byte values), content (list) or None for a directory]
        self.fds = {}
        self.errno = 0
        self.limited = False

    def find(self, name):
        for f in self.files:
            if f[0] is not None and len(f[0]) == len(name) and all(a is b or bool(a == b) for a, b in zip(f[0], name)): return f

    def live(self): return [f for f in self.files if f[0] is not None]


def fs(ex):
    p = ex.cur
    if not hasattr(p, 'fs'): p.fs = FS()
    return p.fs


def install(rt):
    X, E = rt.ext, rt.env
    M = (1 << 64) - 1

    def S(): return fs(rt.ex)

    def name(a):
        out = []
        while True:
            c = E['LD1'](a + len(out))
            if c.__class__ is int:
                if c == 0: return out
            elif c == 0: return out
            out.append(c)

    def err(e, w=32):
        S().errno = e
        return (1 << w) - 1

    def errno_location():
        s = S()
        if not hasattr(s, 'loc'): s.loc = X['malloc'](4)
        rt.write_bytes(s.loc, s.errno.to_bytes(4, 'little'))
        return s.loc

    def parent(n):
        """0, or the error of a name whose directories are not there"""
        k = [i for i, c in enumerate(n) if c.__class__ is int and c == 47]
        for i in k:
            if i == 0: continue
            d = S().find(n[:i])
            if d is None: return ENOENT
            if d[1] is not None: return ENOTDIR
        return 0

    def open64(path, flags, mode=0):
        n = name(path)
        s = S()
        if not n: return err(ENOENT)
        e = parent(n)
        if e: return err(e)
        f = s.find(n)
        acc = flags & 3
        if f is None and all(c.__class__ is int for c in n) and bytes(n) in (b'.', b'..'):
            f = [n, None]
        if f is None:
            if not flags & O_CREAT: return err(ENOENT)
            f = [n, []]
            s.files.append(f)
        else:
            if flags & O_CREAT and flags & O_EXCL: return err(EEXIST)
            if f[1] is None and (acc or flags & O_CREAT): return err(EISDIR)
            if flags & O_TRUNC and f[1] is not None: f[1][:] = []
        fd = 3
        while fd in s.fds: fd += 1
        s.fds[fd] = [f, 0, flags]
        return fd

    def close(fd):
        if fd not in S().fds: return err(EBADF)
        del S().fds[fd]
        return 0

    def read(fd, buf, n):
        d = S().fds.get(fd)
        if d is None: return err(EBADF, 64)
        if d[0][1] is None: return err(EISDIR, 64)
        b = d[0][1][d[1]:d[1] + rt.conc(n)]
        if all(x.__class__ is int for x in b): b = bytes(b)
        rt.write_bytes(buf, b)
        d[1] += len(b)
        return len(b)

    def room(pos, n):
        """how much of n bytes at pos can be written"""
        l = rt.ex.input_full('u', 'fs.limit')
        if l.__class__ is int: return max(0, min(n, l - pos))
        if not (l < pos + n): return n
        if not (pos < l): return 0
        return rt.ex.concretize(l) - pos

    def write(fd, buf, n):
        if fd in (1, 2): return n
        s = S()
        d = s.fds.get(fd)
        if d is None or not d[2] & 3: return err(EBADF, 64)
        n = rt.conc(n)
        if n == 0: return 0
        pos = len(d[0][1]) if d[2] & O_APPEND else d[1]
        k = room(pos, n)
        if k == 0:
            s.limited = True
            return err(EFBIG, 64)
        b = list(rt.read_bytes(buf, k))
        c = d[0][1]
        c += [0] * (pos - len(c))
        c[pos:pos + k] = b
        d[1] = pos + k
        return k

    def writev(fd, iov, cnt):
        done = 0
        for i in range(rt.conc(cnt)):
            p, n = E['LD8'](iov + 16 * i), rt.conc(E['LD8'](iov + 16 * i + 8))
            if n == 0: continue
            k = write(fd, p, n)
            if k == M: return done if done else M
            done += k
            if k < n: break
        return done

    def lseek64(fd, off, how):
        d = S().fds.get(fd)
        if d is None: return err(EBADF, 64)
        off = rt.conc(off)
        if off >> 63: off -= 1 << 64
        p = {0: 0, 1: d[1], 2: len(d[0][1] or [])}[how] + off
        if p < 0: return err(EINVAL, 64)
        d[1] = p
        return p

    def fill(f, buf, size, mode_at, mode_w, size_at):
        rt.write_bytes(buf, bytes(size))
        mode = 0o40755 if f[1] is None else 0o100644
        rt.write_bytes(buf + mode_at, mode.to_bytes(mode_w, 'little'))
        rt.write_bytes(buf + size_at, len(f[1] or []).to_bytes(8, 'little'))
        return 0

    def look(n):
        e = parent(n)
        f = None if e else S().find(n)
        return f, e or ENOENT

    def fstat64(fd, buf):
        d = S().fds.get(fd)
        return err(EBADF) if d is None else fill(d[0], buf, 144, 24, 4, 48)

    def stat64(path, buf):
        f, e = look(name(path))
        return err(e) if f is None else fill(f, buf, 144, 24, 4, 48)

    def statx(dfd, path, flags, mask, buf):
        if path == 0 or buf == 0: return err(14)
        n = name(path)
        if not n and flags & 0x1000:
            d = S().fds.get(dfd)
            if d is None: return err(EBADF)
            f = d[0]
        else:
            f, e = look(n)
            if f is None: return err(e)
        fill(f, buf, 256, 28, 2, 40)
        rt.write_bytes(buf, (0x7ff).to_bytes(4, 'little'))
        return 0

    def unlink(path):
        f, e = look(name(path))
        if f is None: return err(e)
        if f[1] is None: return err(EISDIR)
        f[0] = None
        return 0

    def rename(a, b):
        f, e = look(name(a))
        if f is None: return err(e)
        n = name(b)
        e = parent(n)
        if e: return err(e)
        g = S().find(n)
        if g is f: return 0
        if g is not None:
            if g[1] is None and f[1] is not None: return err(EISDIR)
            g[0] = None
        f[0] = n
        return 0

    def ftruncate64(fd, n):
        d = S().fds.get(fd)
        if d is None or not d[2] & 3: return err(EINVAL)
        n = rt.conc(n)
        c = d[0][1]
        c[n:] = [0] * max(0, n - len(c))
        return 0

    def strerror(e, buf, n):
        rt.write_bytes(buf, b'error\0')
        return 0

    def fine(*a): return 0

    X.update(open64=open64, open=open64, close=close, read=read, write=write, writev=writev, lseek64=lseek64, fstat64=fstat64, stat64=stat64, lstat64=stat64,
             statx=statx, unlink=unlink, rename=rename, ftruncate64=ftruncate64, fsync=fine, fdatasync=fine, chmod=fine, fchmod=fine,
             __errno_location=errno_location, __xpg_strerror_r=strerror)


class Scratch:
    """what a scenario's files are at the start, in the model and in a directory"""
    def __init__(self, init=None):
        """init: None (nothing there), 'dir', or the bytes of a file of the scenario's name"""
        self.init = init

    def setup(self, ex):
        if self.init is None: return
        n = ex.input_full('u', 'name.len')
        nm = [T.trunc(v, 8) if T.is_t(v) else v & 255 for v in (ex.input_full('u', 'name.%d' % i) for i in range(n))]
        fs(ex).files.append([nm, None if self.init == 'dir' else list(self.init)])

    def prepare(self, d, get):
        """d: a scratch directory; get(kind, name): the inputs -> most bytes a file may hold"""
        if self.init is not None:
            n = get('u', 'name.len')
            p = os.path.join(os.fsencode(d), bytes(get('u', 'name.%d' % i) & 255 for i in range(n)))
            if self.init == 'dir': os.mkdir(p)
            else:
                with open(p, 'wb') as f: f.write(self.init)
        return get('u', 'fs.limit')

R.INSTALL.append(install)
