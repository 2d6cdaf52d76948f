"""Builds the MIR driver, compiles /repo's current tree with it and loads the dump."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QSA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CRATE = 'qesa'
# the builds whose code is analysed: with debug assertions, and without
PROFILES = ('', '-C debug-assertions=off -C overflow-checks=on')


class ToolError(Exception):
    """The machinery itself failed (not a verdict)."""


def _env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR',
              'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        e.pop(k, None)
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def _run(cmd, env, cwd=None, timeout=800):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def _hash_files(root, skip):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def sysroot(env):
    rc, out = _run(['rustc', '+nightly', '--print', 'sysroot'], env)
    if rc:
        raise ToolError('no nightly rustc: ' + out)
    return out.strip()


def build_driver():
    """Compiles the driver (cached by the hash of its source)."""
    src = os.path.join(VERIF, 'driver')
    key = _hash_files(src, {'target'})
    out = os.path.join(BUILD, 'driver-' + key[:16])
    exe = os.path.join(out, 'debug', 'qesa-mir-dump')
    if os.path.exists(exe):
        return exe
    env = _env()
    env['CARGO_TARGET_DIR'] = out
    rc, log = _run(['cargo', '+nightly', 'build', '--offline', '--manifest-path',
                    os.path.join(src, 'Cargo.toml')], env)
    if rc or not os.path.exists(exe):
        raise ToolError('driver build failed:\n' + log)
    return exe


def dump():
    """Returns ([mir json of each build that differs], source hash) for REPO's current tree."""
    exe = build_driver()
    key = _hash_files(REPO, {'target', '.git'})[:24] + '-' + os.path.basename(
        os.path.dirname(os.path.dirname(exe)))[7:]
    cache = os.path.join(BUILD, 'mir')
    os.makedirs(cache, exist_ok=True)
    cf = os.path.join(cache, key + '.json')
    if not os.path.exists(cf):
        env = _env()
        tmp = tempfile.mkdtemp(prefix='qsa-', dir=BUILD)
        try:
            tree = os.path.join(tmp, 'tree')
            shutil.copytree(REPO, tree, symlinks=True,
                            ignore=lambda d, n: [x for x in n if x in ('target', '.git')])
            lock = os.path.join(tree, 'Cargo.lock')
            if not os.path.exists(lock):
                for c in ('/opt/vp/Cargo.lock', os.path.join(VERIF, 'driver', 'repo-Cargo.lock')):
                    if os.path.exists(c):
                        shutil.copy(c, lock)
                        break
            outf = os.path.join(tmp, 'mir.json')
            env['LD_LIBRARY_PATH'] = os.path.join(sysroot(env), 'lib') + ':' + env.get(
                'LD_LIBRARY_PATH', '')
            env['QESA_MIR_CRATE'] = CRATE
            env['QESA_MIR_OUT'] = outf
            env['CARGO_TARGET_DIR'] = os.path.join(tmp, 't')
            shared = os.path.join(BUILD, 'target')
            # dependencies are reused between runs on one machine; the crate itself never is
            env['CARGO_TARGET_DIR'] = shared
            import fcntl
            os.makedirs(shared, exist_ok=True)
            with open(os.path.join(BUILD, 'lock'), 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                env['RUSTC_WORKSPACE_WRAPPER'] = exe
                out = []
                for flags in PROFILES:
                    # cargo must compile the crate again, with either of its layouts
                    for x in ('.fingerprint', 'build'):
                        fp = os.path.join(shared, 'debug', x)
                        for y in os.listdir(fp) if os.path.isdir(fp) else []:
                            if y == CRATE or y.startswith(CRATE + '-'):
                                shutil.rmtree(os.path.join(fp, y), ignore_errors=True)
                    env['QESA_MIR_FLAGS'] = flags
                    if os.path.exists(outf):
                        os.remove(outf)
                    rc, log = _run(['cargo', '+nightly', 'check', '--offline', '--lib',
                                    '--manifest-path', os.path.join(tree, 'Cargo.toml')], env)
                    if rc or not os.path.exists(outf):
                        raise ToolError('cannot compile %s:\n%s' % (REPO, log[-1500:]))
                    with open(outf) as f:
                        x = f.read()
                    if x not in out:
                        out.append(x)
            with open(outf, 'w') as f:
                f.write('[' + ',\n'.join(out) + ']')
            os.replace(outf, cf)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(cf) as f:
        d = json.load(f)
    olds = sorted((os.path.join(cache, x) for x in os.listdir(cache)), key=os.path.getmtime)
    for x in olds[:-40]:
        try:
            os.remove(x)
        except OSError:
            pass
    for x in d:
        if x.get('stolen'):
            raise ToolError('MIR of some bodies was not available: %s' % x['stolen'])
    return d, key


class Crate:
    def __init__(self, d):
        self.d = d
        self.fns = {}
        for f in d['fns']:
            self.fns[f['path']] = f
        self.adts = {a['path']: a for a in d['adts']}

    def bodies(self):
        for f in self.fns.values():
            if 'blocks' in f:
                yield f
                for p in f.get('promoted', []):
                    yield p


def load():
    """The crate as built by default."""
    d, key = dump()
    return Crate(d[0]), key


def load_all():
    """The crate in every build that makes a difference."""
    d, key = dump()
    return [Crate(x) for x in d], key
