"""Types of the crate, read from rustdoc's JSON of the current sources."""
import json
import re
from .tys import Ty, UNIT, parse_ty, canon_path, NEVER

EXT_ALIAS = {
    'RawFd': 'i32', 'c_int': 'i32', 'c_long': 'i64', 'c_ulong': 'u64', 'c_uint': 'u32', 'pid_t': 'i32',
    'mode_t': 'u32', 'uid_t': 'u32', 'gid_t': 'u32', 'time_t': 'i64', 'off_t': 'i64', 'c_char': 'i8', 'ssize_t': 'isize', 'size_t': 'usize', 'suseconds_t': 'i64', 'sighandler_t': 'usize',
}

# Enums of std and of the dependencies that the code matches on: variants in discriminant order.
EXT_ENUMS = {
    'Option': [('None', 0, []), ('Some', 1, [('0', 'T0')])],
    'Result': [('Ok', 0, [('0', 'T0')]), ('Err', 1, [('0', 'T1')])],
    'Poll': [('Ready', 0, [('0', 'T0')]), ('Pending', 1, [])],
    'ControlFlow': [('Continue', 0, [('0', 'T1')]), ('Break', 1, [('0', 'T0')])],
    'Ordering': [('Less', -1, []), ('Equal', 0, []), ('Greater', 1, [])],
    'Cow': [('Borrowed', 0, [('0', '&T0')]), ('Owned', 1, [('0', 'String')])],
    'Infallible': [],
    'SeekFrom': [('Start', 0, [('0', 'u64')]), ('End', 1, [('0', 'i64')]), ('Current', 2, [('0', 'i64')])],
    'RecvError': [('Closed', 0, []), ('Lagged', 1, [('0', 'u64')])],
    'Message': [('Text', 0, [('0', 'String')]), ('Binary', 1, [('0', 'Vec<u8>')]), ('Ping', 2, [('0', 'Vec<u8>')]),
                ('Pong', 3, [('0', 'Vec<u8>')]), ('Close', 4, [('0', 'Option<CloseFrame>')]), ('Frame', 5, [('0', 'Frame')])],
    'ErrorKind': [('NotFound', 0, []), ('PermissionDenied', 1, []), ('ConnectionRefused', 2, []), ('ConnectionReset', 3, []), ('HostUnreachable', 4, []), ('NetworkUnreachable', 5, []), ('ConnectionAborted', 6, []), ('NotConnected', 7, []), ('AddrInUse', 8, []), ('AddrNotAvailable', 9, []), ('NetworkDown', 10, []), ('BrokenPipe', 11, []), ('AlreadyExists', 12, []), ('WouldBlock', 13, []), ('NotADirectory', 14, []), ('IsADirectory', 15, []), ('DirectoryNotEmpty', 16, []), ('ReadOnlyFilesystem', 17, []), ('FilesystemLoop', 18, []), ('StaleNetworkFileHandle', 19, []), ('InvalidInput', 20, []), ('InvalidData', 21, []), ('TimedOut', 22, []), ('WriteZero', 23, []), ('StorageFull', 24, []), ('NotSeekable', 25, []), ('QuotaExceeded', 26, []), ('FileTooLarge', 27, []), ('ResourceBusy', 28, []), ('ExecutableFileBusy', 29, []), ('Deadlock', 30, []), ('CrossesDevices', 31, []), ('TooManyLinks', 32, []), ('InvalidFilename', 33, []), ('ArgumentListTooLong', 34, []), ('Interrupted', 35, []), ('Unsupported', 36, []), ('UnexpectedEof', 37, []), ('OutOfMemory', 38, []), ('InProgress', 39, []), ('Kind40', 40, []), ('Kind41', 41, []), ('Other', 42, []), ('Uncategorized', 43, [])],
    'Connector': [('Plain', 0, []), ('NativeTls', 1, [('0', 'native_tls::TlsConnector')])],
    'Bound': [('Included', 0, [('0', 'T0')]), ('Excluded', 1, [('0', 'T0')]), ('Unbounded', 2, [])],
}


EXT_STRUCTS = {
    'rusage': [('ru_utime', 'timeval'), ('ru_stime', 'timeval')] + [(n, 'i64') for n in (
        'ru_maxrss ru_ixrss ru_idrss ru_isrss ru_minflt ru_majflt ru_nswap ru_inblock ru_oublock ru_msgsnd '
        'ru_msgrcv ru_nsignals ru_nvcsw ru_nivcsw').split()],
    'timeval': [('tv_sec', 'i64'), ('tv_usec', 'i64')],
    'Range': [('start', 'T0'), ('end', 'T0')],
    'RangeTo': [('end', 'T0')],
    'RangeFrom': [('start', 'T0')],
    'RangeFull': [],
    'StatusCode': [('0', 'u16')],
    'Method': [('0', 'Inner')],
}
EXT_ENUMS['Inner'] = [(n, i, []) for i, n in enumerate('Options Get Post Put Delete Head Trace Connect Patch'.split())] \
    + [('ExtensionInline', 9, [('0', 'InlineExtension')]), ('ExtensionAllocated', 10, [('0', 'AllocatedExtension')])]

FULL = {
    'std::io::error::Error': 'io::Error',
    'core::io::error::Error': 'io::Error',
    'serde_json::error::Error': 'serde_json::Error',
    'tungstenite::error::Error': 'tungstenite::Error',
    'core::fmt::Error': 'fmt::Error',
}


class AdtInfo:
    def __init__(self, name, kind, generics):
        self.name = name
        self.kind = kind            # struct | enum
        self.generics = generics    # names
        self.fields = []            # struct: [(name, Ty)]
        self.variants = []          # enum: [(name, discr, [(name, Ty)])]
        self.span = None


class TypeDB:
    def __init__(self, *paths):
        self.adts = {}
        self.impls = []       # (file, line, for Ty, trait name or None, derived)
        self.consts = {}      # literal constants of the crate
        for path in paths:    # the library, and the binary that uses it
            d = json.load(open(path))
            self.idx = d['index']
            self.paths = d['paths']
            self.byid = {}
            self._names()
            for iid, it in self.idx.items():
                self._item(iid, it)

    def _names(self):
        for pid, p in self.paths.items():
            full = '::'.join(p['path'])
            if full in FULL:
                self.byid[pid] = FULL[full]
            else:
                self.byid[pid] = canon_path(full) if p['crate_id'] != 0 else canon_path('::'.join(p['path'][1:]))

    def _name_of(self, pid, fallback):
        n = self.byid.get(str(pid))
        return n or canon_path(fallback)

    def _item(self, iid, it):
        inner = it['inner']
        k = next(iter(inner))
        if it['crate_id'] != 0:
            return
        if k in ('struct', 'enum'):
            name = self.byid.get(str(iid)) or it['name']
            g = [p['name'] for p in inner[k]['generics']['params'] if 'type' in p['kind']]
            a = AdtInfo(name, k, g)
            if k == 'struct':
                a.fields = self._fields(inner[k]['kind'])
            else:
                nxt = 0
                for vid in inner[k]['variants']:
                    v = self.idx[str(vid)]
                    vi = v['inner']['variant']
                    if vi['discriminant']:
                        nxt = int(vi['discriminant']['value'])
                    a.variants.append((v['name'], nxt, self._fields(vi['kind'])))
                    nxt += 1
            self.adts[name] = a
        elif k == 'constant':
            c = inner[k]['const']
            path = self.paths.get(str(iid))
            if path is not None and c.get('is_literal'):
                full = '::'.join(path['path'][1:])
                v = c.get('value')
                m = re.match(r'(-?[\d_]+?)_?[iu](?:8|16|32|64|128|size)$', v or '')
                self.consts[full] = int(m.group(1).replace('_', '')) if m else c['expr']
        elif k == 'impl':
            im = inner[k]
            sp = it.get('span')
            tr = im['trait']
            self.impls.append((sp['filename'] if sp else None, sp['begin'][0] if sp else None, self.ty(im['for']),
                               (self._name_of(tr['id'], tr['path']) if tr else None),
                               'automatically_derived' in str(it.get('attrs'))))

    def _fields(self, kind):
        if kind == 'unit' or kind == 'plain':
            return []
        if 'plain' in kind:
            ids = kind['plain']['fields']
        elif 'tuple' in kind:
            ids = kind['tuple']
        elif 'struct' in kind:
            ids = kind['struct']['fields']
        else:
            return []
        out = []
        for n, i in enumerate(ids):
            f = self.idx[str(i)]
            out.append((f['name'], self.ty(f['inner']['struct_field'])))
        return out

    def ty(self, t):
        k = next(iter(t)) if isinstance(t, dict) else t
        v = t[k] if isinstance(t, dict) else None
        if k == 'resolved_path':
            args = []
            if v['args'] and 'angle_bracketed' in v['args']:
                for a in v['args']['angle_bracketed']['args']:
                    if isinstance(a, dict) and 'type' in a:
                        args.append(self.ty(a['type']))
            it = self.idx.get(str(v['id']))
            if it and 'type_alias' in it['inner']:
                al = it['inner']['type_alias']
                t2 = self.ty(al['type'])
                names = [p['name'] for p in al['generics']['params'] if 'type' in p['kind']]
                return subst(t2, dict(zip(names, args)))
            name = self._name_of(v['id'], v['path'])
            last = name.rsplit('::', 1)[-1]
            if last in EXT_ALIAS:
                return Ty('adt', EXT_ALIAS[last])
            if name in ('io::Result', 'error::Result') or (last == 'Result' and len(args) == 1):
                p = self.paths.get(str(v['id']))
                return Ty('adt', 'Result', args + [Ty('adt', 'io::Error')])
            if last == 'Result':
                name = 'Result'
            return Ty('adt', name, args)
        if k == 'primitive':
            if v == 'never':
                return NEVER
            if v == 'unit':
                return UNIT
            return Ty('adt', v)
        if k == 'borrowed_ref':
            return Ty('ref', '', [self.ty(v['type'])], bool(v['is_mutable']))
        if k == 'raw_pointer':
            return Ty('ptr', '', [self.ty(v['type'])], 'mut' if v['is_mutable'] else 'const')
        if k == 'tuple':
            return Ty('tuple', '', [self.ty(x) for x in v])
        if k == 'slice':
            return Ty('slice', '', [self.ty(v)])
        if k == 'array':
            return Ty('array', '', [self.ty(v['type'])], v['len'])
        if k == 'generic':
            return Ty('adt', v)
        if k == 'dyn_trait':
            return Ty('dyn', ' + '.join(self._name_of(x['trait']['id'], x['trait']['path']) for x in v['traits']))
        return Ty('adt', f'?{k}')

    def info(self, ty):
        """AdtInfo-like for an ADT type with its arguments substituted, or None"""
        if ty.kind == 'tuple':
            a = AdtInfo(str(ty), 'struct', [])
            a.fields = [(str(i), t) for i, t in enumerate(ty.args)]
            return a
        if ty.kind != 'adt':
            return None
        a = self.adts.get(ty.name)
        if a is not None:
            if not a.generics:
                return a
            s = dict(zip(a.generics, ty.args))
            b = AdtInfo(a.name, a.kind, [])
            b.fields = [(n, subst(t, s)) for n, t in a.fields]
            b.variants = [(n, d, [(m, subst(t, s)) for m, t in fs]) for n, d, fs in a.variants]
            return b
        last = ty.last
        if ty.name == 'Out' or ty.name.endswith('__tokio_select_util::Out'):
            # what select! declares: the result of each branch, or that all are disabled
            b = AdtInfo(ty.name, 'enum', [])
            b.variants = [(f'_{i}', i, [('0', t)]) for i, t in enumerate(ty.args)] + [('Disabled', len(ty.args), [])]
            return b
        if last in EXT_ENUMS:
            b = AdtInfo(ty.name, 'enum', [])
            s = {f'T{i}': t for i, t in enumerate(ty.args)}
            for n, dsc, fs in EXT_ENUMS[last]:
                try:
                    b.variants.append((n, dsc, [(m, subst(parse_ty(t), s)) for m, t in fs]))
                except Exception:
                    return None
            return b
        if last in EXT_STRUCTS:
            b = AdtInfo(ty.name, 'struct', [])
            sb = {f'T{i}': t for i, t in enumerate(ty.args)}
            b.fields = [(n, subst(parse_ty(t), sb)) for n, t in EXT_STRUCTS[last]]
            return b
        return None


def subst(t, s):
    if not s:
        return t
    if t.kind == 'adt' and not t.args and t.name in s:
        return s[t.name]
    if not t.args:
        return t
    return Ty(t.kind, t.name, [subst(a, s) for a in t.args], t.extra)
