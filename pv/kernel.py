"""Model of the kernel's file-descriptor table: ghost array fd -> open file description (0 = closed).  Used by contracts
of functions that make descriptor calls.  Descriptions are fresh positive integers; every call may also fail."""
import z3
from .engine import *
from .std import unit, errno_after, event, val, TABLE, libc_call

AII = z3.ArraySort(I, I)


AIB = z3.ArraySort(I, B)


def install(st, fdt=None):
    st.ghost['fdt'] = fdt if fdt is not None else z3.Const('fdt0', AII)
    st.ghost['cx'] = z3.Const('cx0', AIB)            # close-on-exec


def setcx(st, fd, v):
    if 'cx' in st.ghost:
        st.ghost['cx'] = z3.Store(st.ghost['cx'], fd, v if z3.is_expr(v) else z3.BoolVal(v))


def o_cloexec(flags):
    return (flags / 524288) % 2 == 1


def is_open(st, fd):
    return z3.Select(st.ghost['fdt'], fd) > 0


def setfd(st, fd, d):
    st.ghost['fdt'] = z3.Store(st.ghost['fdt'], fd, d)


def newdesc(E, st):
    d = E.fresh_const(I, 'desc')
    st.assume(d > 0)
    for o in st.ghost.get('descs', ()):
        st.assume(d != o)
    st.ghost['descs'] = st.ghost.get('descs', ()) + (d,)
    return d


def newfd(E, st, name):
    fd = E.fresh_const(I, name)
    st.assume(z3.And(fd >= 0, fd <= 1 << 30))        # fs.nr_open is at most 2^30 by default and 2^31 - 64 at most
    st.assume(z3.Select(st.ghost['fdt'], fd) == 0)
    return fd


def k_close(E, st, c):
    fd = c.args[0]
    o = is_open(st, fd)
    if E.decide(st, simp(o)):
        event(E, st, 'close', [fd], z3.IntVal(0))
        setfd(st, fd, z3.IntVal(0))
        return z3.IntVal(0)
    errno_after(E, st)
    event(E, st, 'close', [fd], z3.IntVal(-1))
    return z3.IntVal(-1)


def k_dup2(E, st, c):
    a, b = c.args
    fails = E.fresh_const(B, 'dup2_fails')
    st.assume(z3.Implies(z3.Or(z3.Not(is_open(st, a)), b < 0), fails))
    if E.decide(st, fails):
        errno_after(E, st)
        event(E, st, 'dup2', [a, b], z3.IntVal(-1))
        return z3.IntVal(-1)
    setfd(st, b, z3.Select(st.ghost['fdt'], a))
    if 'cx' in st.ghost:
        setcx(st, b, z3.And(a == b, z3.Select(st.ghost['cx'], b)))
    event(E, st, 'dup2', [a, b], b)
    return b


def k_open(E, st, c):
    if E.decide(st, E.fresh_const(B, 'open_fails')):
        errno_after(E, st)
        event(E, st, 'open', list(c.args), z3.IntVal(-1))
        return z3.IntVal(-1)
    fd, d = newfd(E, st, 'open_fd'), newdesc(E, st)
    setfd(st, fd, d)
    setcx(st, fd, o_cloexec(c.args[1]))
    st.ghost['opened'] = st.ghost.get('opened', ()) + (((val(E, st, c.args[0]),) + tuple(c.args[1:]), fd, d),)
    event(E, st, 'open', list(c.args), fd)
    return fd


def k_mkstemp(E, st, c):
    ref = c.args[0]
    v = val(E, st, ref)
    if E.decide(st, E.fresh_const(B, 'mkstemp_fails')):
        errno_after(E, st)
        event(E, st, 'mkstemp', [v], z3.IntVal(-1))
        return z3.IntVal(-1)
    fd, d = newfd(E, st, 'tmp_fd'), newdesc(E, st)
    setfd(st, fd, d)
    setcx(st, fd, False)
    name = E.fresh_const(S, 'tmpname')
    st.assume(z3.Function('is_utf8_str', S, B)(name))
    st.assume(z3.Not(z3.Contains(name, z3.StringVal('\x00'))))
    if isinstance(ref, RefV):
        E.store_addr(st, ref.root, ref.path, name)
    st.ghost['opened'] = st.ghost.get('opened', ()) + ((('mkstemp', name), fd, d),)
    event(E, st, 'mkstemp', [v], fd)
    return fd


def k_pipe(E, st, c):
    if E.decide(st, E.fresh_const(B, 'pipe_fails')):
        errno_after(E, st)
        event(E, st, 'pipe', [], z3.IntVal(-1))
        return z3.IntVal(-1)
    a = c.args[0]
    v = E.load_ref(st, a)
    r = newfd(E, st, 'pipe_r')
    dr = newdesc(E, st)
    setfd(st, r, dr)
    w = newfd(E, st, 'pipe_w')
    dw = newdesc(E, st)
    setfd(st, w, dw)
    setcx(st, r, False)
    setcx(st, w, False)
    E.store_addr(st, a.root, a.path, VecV(v.ety, [r, w]))
    st.ghost['pipes'] = st.ghost.get('pipes', ()) + ((r, dr, w, dw),)
    event(E, st, 'pipe', [r, w], z3.IntVal(0))
    return z3.IntVal(0)


def k_fcntl(E, st, c):
    args = list(c.args)
    fd, cmd = args[0], as_int(args[1])
    if E.decide(st, simp(z3.Or(z3.Not(is_open(st, fd)), E.fresh_const(B, 'fcntl_fails')))):
        errno_after(E, st)
        event(E, st, 'fcntl', args, z3.IntVal(-1))
        return z3.IntVal(-1)
    if cmd in (0, 1030):                             # F_DUPFD, F_DUPFD_CLOEXEC: the lowest free one at or above
        st.assume(args[2] >= 0)                      # else it fails
        r = newfd(E, st, 'dup_fd')
        st.assume(r >= args[2])
        setfd(st, r, z3.Select(st.ghost['fdt'], fd))
        setcx(st, r, cmd == 1030)
    elif cmd == 1:                                   # F_GETFD
        r = E.fresh_const(I, 'fdflags')
        st.assume(z3.And(r >= 0, r <= INTS['i32'][1], (r % 2 == 1) == z3.Select(st.ghost['cx'], fd)))
    elif cmd == 2:                                   # F_SETFD
        r = z3.IntVal(0)
        setcx(st, fd, simp(args[2] % 2 == 1))
    else:
        r = E.fresh_const(I, 'fcntl')
        st.assume(z3.And(r >= 0, r <= INTS['i32'][1]))
    event(E, st, 'fcntl', args, r)
    return r


OVERRIDES = {'libc::close': k_close, 'libc::dup2': k_dup2, 'libc::open': k_open, 'libc::mkstemp': k_mkstemp, 'libc::pipe': k_pipe, 'libc::fcntl': k_fcntl}
ASSUMES = ['kernel model: close/dup2/open/mkstemp/pipe act on a per-process descriptor table as POSIX specifies, and may fail at any call']
