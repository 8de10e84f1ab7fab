"""Mechanical extraction of the verified text from /repo's current working tree: rustc's own MIR (before the coroutine
transform, after borrow checking and drop elaboration) and rustdoc's JSON type information."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get('PV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('PV_CACHE', os.path.join(VERIF, '.cache'))
TARGET = os.path.join(CACHE, 'target')


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_BOOTSTRAP='1', RUSTC_WRAPPER='',
             CARGO_TARGET_DIR=TARGET)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def source_key():
    h = hashlib.sha256()
    fs = sorted(glob.glob(os.path.join(REPO, 'src/**/*.rs'), recursive=True)) + [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')]
    for f in fs:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def seed_target():
    os.makedirs(CACHE, exist_ok=True)
    if os.path.isdir(os.path.join(TARGET, 'debug', 'deps')):
        return
    src = os.path.join(REPO, 'target', 'debug')
    if os.path.isdir(os.path.join(src, 'deps')):
        os.makedirs(os.path.join(TARGET, 'debug'), exist_ok=True)
        for d in ('deps', 'build', '.fingerprint'):
            if os.path.isdir(os.path.join(src, d)):
                subprocess.run(['cp', '-a', os.path.join(src, d), os.path.join(TARGET, 'debug', d)], check=False)


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def run(cmd, cwd, e, what, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise ExtractError(f'{what} failed:\n' + p.stdout[-4000:])
    return p.stdout


def extract():
    """-> dict(dir, mir, doc, secs); raises ExtractError if /repo does not build"""
    t0 = time.time()
    with Lock():
        key = source_key()
        out = os.path.join(CACHE, 'x-' + key)
        if os.path.exists(os.path.join(out, 'done')):
            return dict(dir=out, key=key, mir=os.path.join(out, 'mir'), doc=os.path.join(out, 'doc', 'procstar.json'),
                        binmir=os.path.join(out, 'binmir'), bindoc=os.path.join(out, 'bindoc', 'procstar.json'), secs=0.0)
        for old in glob.glob(os.path.join(CACHE, 'x-*')):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        seed_target()
        e = env()
        # a path that changes every time keeps cargo from considering the unit fresh
        tag = f'{os.getpid()}-{int(time.time()*1000)}'
        res = {}
        for kind, flag in (('mir', ['--lib']), ('binmir', ['--bin', 'procstar'])):
            d = os.path.join(out, kind + '-' + tag)
            log = run(['cargo', 'rustc', *flag, '--offline', '--locked', '-v', '--', '-Ztrim-diagnostic-paths=no', '-Zmir-opt-level=0',
                       '-Zdump-mir=StateTransform', '-Zdump-mir-dir=' + d], REPO, e, 'cargo rustc ' + kind)
            os.rename(d, os.path.join(out, kind))
            res[kind] = log
        ver = re.search(r'(?m)^version = "([^"]*)"', open(os.path.join(REPO, 'Cargo.toml')).read())
        e.update(CARGO_PKG_NAME='procstar', CARGO_PKG_VERSION=ver.group(1) if ver else '0', CARGO_PKG_AUTHORS='', CARGO_PKG_DESCRIPTION='',
                 CARGO_MANIFEST_DIR=REPO, CARGO_CRATE_NAME='procstar', CARGO_PKG_VERSION_MAJOR='0', CARGO_PKG_VERSION_MINOR='0',
                 CARGO_PKG_VERSION_PATCH='0', CARGO_PKG_HOMEPAGE='', CARGO_PKG_REPOSITORY='')
        for kind, src, crate_type, dst in (('mir', 'src/lib.rs', 'lib', 'doc'), ('binmir', 'src/main.rs', 'bin', 'bindoc')):
            line = [x for x in res[kind].splitlines() if re.search(r'Running `.*rustc --crate-name procstar ', x) and (f'--crate-type {crate_type}' in x)]
            ext = re.findall(r'--extern (\S+)', line[-1]) if line else []
            cmd = ['rustdoc', '--crate-name', 'procstar', '--edition=2021', '--crate-type', crate_type, src, '-L',
                   'dependency=' + os.path.join(TARGET, 'debug', 'deps')]
            for x in ext:
                cmd += ['--extern', x]
            cmd += ['-Zunstable-options', '--output-format', 'json', '--document-private-items', '-o', os.path.join(out, dst)]
            run(cmd, REPO, e, 'rustdoc ' + kind)
        for f in glob.glob(os.path.join(out, '*mir', '*.after.mir')):
            os.unlink(f)
        open(os.path.join(out, 'done'), 'w').close()
    return dict(dir=out, key=key, mir=os.path.join(out, 'mir'), doc=os.path.join(out, 'doc', 'procstar.json'),
                binmir=os.path.join(out, 'binmir'), bindoc=os.path.join(out, 'bindoc', 'procstar.json'), secs=time.time() - t0)


def build_harness():
    """compile the replay harness against /repo's current tree; returns the binary path"""
    with Lock():
        seed_target()
        e = env()
        e.pop('RUSTC_BOOTSTRAP', None)
        run(['cargo', 'build', '--offline'], os.path.join(VERIF, 'harness'), e, 'harness build')
        src = os.path.join(TARGET, 'debug', 'pvharness')
        dst = os.path.join(CACHE, 'pvharness-' + source_key())
        shutil.copy2(src, dst)
        return dst


def build_cmd():
    """the command's own option source, as a program that prints what it makes of its command line"""
    with Lock():
        seed_target()
        e = env()
        e.pop('RUSTC_BOOTSTRAP', None)
        run(['cargo', 'build', '--offline'], os.path.join(VERIF, 'harness-cmd'), e, 'options harness build')
        dst = os.path.join(CACHE, 'pvcommand-' + source_key())
        shutil.copy2(os.path.join(TARGET, 'debug', 'pvcommand'), dst)
        return dst


def build_bin():
    """the real agent binary of the current tree"""
    with Lock():
        seed_target()
        e = env()
        e.pop('RUSTC_BOOTSTRAP', None)
        run(['cargo', 'build', '--offline', '--locked', '--bin', 'procstar'], REPO, e, 'cargo build')
        dst = os.path.join(CACHE, 'procstar-' + source_key())
        shutil.copy2(os.path.join(TARGET, 'debug', 'procstar'), dst)
        return dst


if __name__ == '__main__':
    print(extract())
