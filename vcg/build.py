"""Builds what a check needs from the current /repo tree: the MIR dumper, the MIR of the generated
code, and the replay program."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import rustgen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VCG_REPO', '/repo')      # another tree only while the checks themselves are developed
BUILD = os.environ.get('VCG_BUILD', VERIF + '/build')
KIND = '-thorough' if sys.argv[2:3] == ['thorough'] else ''


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, p.stdout.decode(errors='replace')[-6000:]))
    return p.stdout.decode(errors='replace')


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + '/.%s.lock' % name, 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def mirdump():
    with lock('mirdump'):
        sh(['cargo', 'build', '--offline', '-q'], VERIF + '/mirdump', {'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_TARGET_DIR': BUILD + '/mirdump'})
    return BUILD + '/mirdump/debug/mirdump'


def copy_lock(d):
    if not os.path.exists(d + '/Cargo.lock'):
        shutil.copy(VERIF + '/tools/Cargo.lock.harness', d + '/Cargo.lock')


def mir():
    """-> path of the JSON program extracted from /repo's current tree"""
    exe = mirdump()
    d = BUILD + '/harness' + KIND
    out = d + '/mir.json'
    with lock('harness'):
        rustgen.write_harness(d, REPO)
        if os.path.exists(VERIF + '/tools/Cargo.lock.harness'):
            copy_lock(d)
        # always re-extract from what is in /repo now
        os.utime(d + '/src/lib.rs')
        if os.path.exists(out):
            os.remove(out)
        # the derive crate too
        derive = d + '/derive.json'
        if os.path.exists(derive):
            os.remove(derive)
        for fp in (d + '/target/debug/.fingerprint', d + '/target/debug/build'):
            for x in os.listdir(fp) if os.path.isdir(fp) else []:
                if x == 'yaserde_derive' or x.startswith('yaserde_derive-'):
                    shutil.rmtree(fp + '/' + x)
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot']).decode().strip()
        sh(['cargo', 'check', '--offline', '-q'], d, {
            'RUSTUP_TOOLCHAIN': 'nightly', 'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings', 'LD_LIBRARY_PATH': sysroot + '/lib',
            'RUSTC_WRAPPER': exe, 'MIRDUMP_CRATE': 'harness', 'MIRDUMP_ROOTS': 'root_', 'MIRDUMP_OUT': out, 'CARGO_TARGET_DIR': d + '/target',
            'CARGO_INCREMENTAL': '0', 'MIRDUMP_CRATE_2': 'yaserde_derive', 'MIRDUMP_ROOTS_2': 'common::,ser::label', 'MIRDUMP_OUT_2': derive,
            'MIRDUMP_DENY_2': 'syn::,proc_macro2::,quote::,heck::,serde,proc_macro::'})
        if not os.path.exists(out):
            raise BuildError('no MIR was extracted')
    return out


def derive_mir():
    """-> path of the MIR of the derive crate's helper functions, left by mir(); None when it could not be extracted"""
    out = BUILD + '/harness' + KIND + '/derive.json'
    return out if os.path.exists(out) else None


def replay():
    """-> path of the replay program, built against /repo's current tree"""
    d = BUILD + '/replay' + KIND
    with lock('replay'):
        rustgen.write_replay(d, REPO)
        if os.path.exists(VERIF + '/tools/Cargo.lock.harness'):
            copy_lock(d)
        sh(['cargo', 'build', '--offline', '-q'], d, {'RUSTFLAGS': '-Awarnings', 'CARGO_TARGET_DIR': d + '/target', 'CARGO_INCREMENTAL': '0'})
    return d + '/target/debug/replay'


if __name__ == '__main__':
    import time
    t = time.time()
    print(mir(), time.time() - t)
