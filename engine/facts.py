"""Builds the compiler driver and extracts the facts of /repo's current source together with contract
files."""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
TARGET = os.environ.get('KV_TARGET', os.path.join(VERIF, 'target'))


class BuildError(Exception):
    pass


def sh(cmd, cwd, env, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def base_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def driver():
    out = os.path.join(TARGET, 'driver')
    e = base_env()
    e['CARGO_TARGET_DIR'] = out
    rc, log = sh(['cargo', 'build', '--offline', '-q'], os.path.join(VERIF, 'driver'), e)
    if rc:
        raise RuntimeError('driver build failed:\n' + log)
    return os.path.join(out, 'debug', 'kfacts-driver')


def extract(spec_files, out, features=(), repo=None):
    """facts of the crate in `repo` with the contract files as extra modules"""
    repo = repo or REPO
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        e = base_env()
        sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, stdout=subprocess.PIPE).stdout.decode().strip()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib') + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
        e['CARGO_TARGET_DIR'] = os.path.join(TARGET, 'facts')
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['KFACTS_CRATE'] = 'k'
        e['KFACTS_OUT'] = out
        e['KFACTS_EXTRA'] = ':'.join(spec_files)
        if os.path.exists(out):
            os.remove(out)
        lockfile = os.path.join(repo, 'Cargo.lock')
        had = open(lockfile, 'rb').read() if os.path.exists(lockfile) else None
        if had is None:
            # the lock file is not tracked; without it cargo could not resolve anything offline
            import shutil
            shutil.copyfile(os.path.join(VERIF, 'driver', 'repo.Cargo.lock'), lockfile)
        # cargo decides freshness by time stamps and does not know about the contract files
        sh(['cargo', 'clean', '--offline', '-q', '-p', 'k'], repo, e)
        cmd = ['cargo', 'check', '--lib', '--offline', '-q']
        if features:
            cmd += ['--features', ','.join(features)]
        rc, log = sh(cmd, repo, e)
        if had is not None and open(lockfile, 'rb').read() != had:
            open(lockfile, 'wb').write(had)
        if rc or not os.path.exists(out):
            raise BuildError(log[-6000:])
    return out


def warm():
    """compile the driver and the dependencies of the crate once, so that the checks only check the crate"""
    for f in ((), ('serde-serialize',)):
        extract([], os.path.join(TARGET, 'facts-setup.json'), features=f)
