"""Builds the extractor if needed, re-extracts the facts of /repo's current tree, loads them."""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
DRIVER = os.path.join(VERIF, 'driver')
DBIN = os.path.join(DRIVER, 'target', 'release', 'vdriver')


class ExtractError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'], cwd=VERIF)
    return r.stdout.strip().splitlines()[-1]


def build_driver():
    src = [os.path.join(DRIVER, 'src', 'main.rs'), os.path.join(DRIVER, 'src', 'json.rs'),
           os.path.join(DRIVER, 'Cargo.toml')]
    if os.path.exists(DBIN) and all(os.path.getmtime(DBIN) >= os.path.getmtime(s) for s in src):
        return
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=DRIVER, env=env)
    if r.returncode or not os.path.exists(DBIN):
        raise ExtractError('extractor does not build:\n' + r.stdout[-3000:])


def extract():
    """Type-checks /repo's current tree under the extractor; returns the directory with the facts."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        out = tempfile.mkdtemp(prefix='facts.', dir=CACHE)
        tgt = os.path.join(CACHE, 'target')
        # forget the crate itself (dependencies stay built), so that it is always re-analysed
        for root in (os.path.join(tgt, 'debug', 'build'), os.path.join(tgt, 'debug', '.fingerprint')):
            if os.path.isdir(root):
                for d in os.listdir(root):
                    if d == 'rekordcrate' or d.startswith('rekordcrate-'):
                        shutil.rmtree(os.path.join(root, d))
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_RUSTFLAGS',
                  'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC'):
            env.pop(k, None)
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        env['RUSTC_WORKSPACE_WRAPPER'] = DBIN
        env['VDRIVER_OUT'] = out
        env['CARGO_INCREMENTAL'] = '0'
        r = sh(['cargo', '+nightly', 'check', '--offline', '--locked', '--lib', '--bins',
                '--target-dir', tgt], cwd=REPO, env=env)
        if r.returncode:
            raise ExtractError('the tree does not type-check:\n' + r.stdout[-3000:])
        if not os.path.exists(os.path.join(out, 'rekordcrate.lib.json')):
            raise ExtractError('no facts were extracted for the library')
        return out
    finally:
        lock.close()


def drop(out):
    shutil.rmtree(out, ignore_errors=True)


class Crate:
    def __init__(self, d):
        self.d = d
        self.name = d['crate']
        self.bin = d['bin']
        self.T = d['types']
        self.fns = d['fns']
        self.by_key = {}
        self.by_path = {}
        for f in self.fns:
            f['crate'] = self
            self.by_path.setdefault(f['path'], f)
            self.by_key[f['key']] = f
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.files = d['files']

    def ts(self, i):
        return self.T[i]['s']


def load(out):
    res = {}
    for k in ('lib', 'bin'):
        p = os.path.join(out, 'rekordcrate.%s.json' % k)
        if os.path.exists(p):
            with open(p) as fh:
                res[k] = Crate(json.load(fh))
    if 'lib' not in res:
        raise ExtractError('no facts were extracted for the library')
    return res


if __name__ == '__main__':
    t = time.time()
    o = extract()
    print(o, time.time() - t)
    if len(sys.argv) > 1:
        for f in os.listdir(o):
            shutil.copy(os.path.join(o, f), sys.argv[1])
    drop(o)
