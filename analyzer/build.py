"""Builds the MIR exporter and exports the resolved program of /repo's working tree."""
import fcntl, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HTRPC_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
INLINE = ','.join([
    'std::option::', 'std::result::', 'std::iter::', '<std::option::', '<std::result::', '<std::iter::',
    '<T as std::convert::', '<U as std::convert::', '<I as std::iter::', '<std::ops::ControlFlow',
    'std::ops::ControlFlow', 'std::cmp::Ordering', 'std::ops::Residual', 'std::ops::Try', '<std::boxed::Box<F'])


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def run(cmd, e, what):
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-4000:]))
    return p.stdout


def driver(e):
    src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'mirdump-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + '.tmp'
        run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp], e, 'building the MIR exporter')
        os.rename(tmp, out)
    return out


def dump():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        drv = driver(e)
        sysroot = run(['rustc', '+nightly', '--print', 'sysroot'], e, 'rustc').strip()
        tag = hashlib.sha256(REPO.encode()).hexdigest()[:8]
        out = os.path.join(BUILD, 'dump-%s-%d.json' % (tag, os.getpid()))
        e.update({
            'LD_LIBRARY_PATH': os.path.join(sysroot, 'lib'),
            'CARGO_TARGET_DIR': os.path.join(BUILD, 'target'),
            'RUSTC_WORKSPACE_WRAPPER': drv,
            'MIRDUMP_OUT': out,
            'MIRDUMP_INLINE': INLINE,
            'RUSTFLAGS': '-Zmir-opt-level=0',
            'CARGO_INCREMENTAL': '0',
        })
        m = os.path.join(REPO, 'Cargo.toml')
        run(['cargo', '+nightly', 'clean', '-p', 'htrpc', '--offline', '--manifest-path', m], e, 'cargo clean')
        if os.path.exists(out):
            os.remove(out)
        run(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', m], e, 'cargo check')
        if not os.path.exists(out):
            raise BuildError('the exporter produced no dump (was the wrapper skipped?)')
        return out


if __name__ == '__main__':
    p = dump()
    if '--keep' in sys.argv:
        print(p)
    else:
        os.remove(p)
        print('exporter built, export of %s works' % REPO)
