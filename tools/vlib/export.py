"""Rebuild the MIR facts of /repo's current working tree.

A scratch manifest is derived from /repo/Cargo.toml (same dependencies and lock file; without the
build script, which only regenerates the C header, and without dev-dependencies) whose [lib]/[[bin]]
paths point at /repo/src, and `cargo check` is run with the exporter as workspace rustc wrapper.
"""
import hashlib, json, os, shutil, subprocess, sys, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
CACHE = os.path.join(VERIF, '.cache')
DRIVER_SRC = os.path.join(VERIF, 'tools', 'driver', 'driver.rs')
ALLOW = os.path.join(VERIF, 'tools', 'driver', 'allow.txt')
FAKECC = os.path.join(VERIF, 'tools', 'driver', 'fakecc')

class ExportError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode:
        raise ExportError('no nightly toolchain: ' + r.stdout)
    return r.stdout.strip()

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]

def source_files():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, 'src')):
        for f in files:
            out.append(os.path.join(base, f))
    for f in ('Cargo.toml', 'Cargo.lock', 'manifest.sql', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    for f in os.listdir(REPO):
        if f.endswith('.sql') and os.path.join(REPO, f) not in out:
            out.append(os.path.join(REPO, f))
    return out

def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    b = os.path.join(CACHE, 'driver-' + digest([DRIVER_SRC]))
    if not os.path.exists(b):
        tmp = b + '.%d' % os.getpid()
        r = sh(['rustc', '+nightly', '-O', '--edition', '2021', DRIVER_SRC, '-o', tmp])
        if r.returncode:
            raise ExportError('driver does not build:\n' + r.stdout[-3000:])
        os.rename(tmp, b)
    return b

def emit(d, out, pre=()):
    def val(v):
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, (int, float)):
            return str(v)
        if isinstance(v, str):
            return json.dumps(v)
        if isinstance(v, list):
            return '[' + ', '.join(val(x) for x in v) + ']'
        if isinstance(v, dict):
            return '{ ' + ', '.join('%s = %s' % (json.dumps(k), val(x)) for k, x in v.items()) + ' }'
        raise ExportError('manifest value %r' % (v,))
    for sec, body in d.items():
        if isinstance(body, list):
            for b in body:
                out.append('[[%s]]' % sec)
                out.extend('%s = %s' % (json.dumps(k), val(v)) for k, v in b.items())
        else:
            out.append('[%s]' % sec)
            out.extend('%s = %s' % (json.dumps(k), val(v)) for k, v in body.items())
        out.append('')

def write_manifest(d):
    with open(os.path.join(REPO, 'Cargo.toml'), 'rb') as f:
        m = tomllib.load(f)
    pk = {k: v for k, v in m['package'].items() if k in ('name', 'version', 'edition', 'rust-version', 'default-run', 'links')}
    pk.update({'build': False, 'autobins': False, 'autotests': False, 'autobenches': False, 'autoexamples': False})
    lib = {k: v for k, v in m.get('lib', {}).items() if k in ('name', 'path', 'edition', 'test', 'doctest')}
    lib['path'] = os.path.join(REPO, lib.get('path', 'src/lib.rs'))
    lib['crate-type'] = ['lib']
    bins = [dict(b) for b in m.get('bin', [])]
    if not bins and os.path.exists(os.path.join(REPO, 'src/main.rs')):
        bins = [{'name': pk['name'], 'path': 'src/main.rs'}]
    for b in bins:
        b['path'] = os.path.join(REPO, b.get('path', 'src/main.rs'))
        b.pop('bench', None)
    deps = {}
    for k, v in m.get('dependencies', {}).items():
        if isinstance(v, dict) and 'path' in v:
            v = dict(v, path=os.path.join(REPO, v['path']))
        deps[k] = v
    out = []
    o = {'package': pk, 'lib': lib, 'bin': bins, 'dependencies': deps, 'features': m.get('features', {}), 'workspace': {}}
    if 'patch' in m:
        raise ExportError('[patch] sections are not handled')
    emit(o, out)
    txt = '\n'.join(out)
    p = os.path.join(d, 'Cargo.toml')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    shutil.copyfile(os.path.join(REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    return p, pk['name']

def export(log=lambda s: None):
    """-> {'lib': path, 'bin': path, 'key':..., 'seconds':...}"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    drv = build_driver()
    key = digest(source_files() + [DRIVER_SRC, ALLOW])
    outd = os.path.join(CACHE, 'facts-' + key)
    res = {'lib': os.path.join(outd, 'lib.json'), 'bin': os.path.join(outd, 'bin.json'), 'key': key, 'dir': outd}
    if not (os.path.exists(res['lib']) and os.path.exists(res['bin'])):
        for f in os.listdir(CACHE):
            if f.startswith('facts-'):
                shutil.rmtree(os.path.join(CACHE, f), ignore_errors=True)
        tmp = outd + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        md = os.path.join(CACHE, 'manifest')
        os.makedirs(md, exist_ok=True)
        mp, pk = write_manifest(md)
        tgt = os.path.join(CACHE, 'deps-' + os.path.basename(drv).split('-')[-1])
        # cargo's freshness check does not know about the wrapper: drop the package's own outputs
        for sub in ('.fingerprint', 'build'):
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for f in os.listdir(fp):
                    if f == pk or f.startswith(pk + '-'):
                        shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_BOOTSTRAP'):
            env.pop(k, None)
        env.update(VDRV_OUT=tmp, VDRV_ALLOW=ALLOW, RUSTC_WRAPPER=drv, LD_LIBRARY_PATH=sysroot() + '/lib',
                   CC=FAKECC, CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='1',
                   CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG='false', CARGO_TERM_COLOR='never')
        for attempt in range(2):
            r = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins', '--manifest-path', mp, '--target-dir', tgt], env=env)
            if r.returncode == 0 and os.path.exists(tmp + '/lib.json') and os.path.exists(tmp + '/bin.json'):
                break
            if attempt:
                shutil.rmtree(tmp, ignore_errors=True)
                raise ExportError('exporting /repo failed:\n' + r.stdout[-40000:])
            # what was built before can be unusable (copied while it changed): start over
            shutil.rmtree(tgt, ignore_errors=True)
        os.rename(tmp, outd)
    res['seconds'] = round(time.time() - t0, 2)
    return res

if __name__ == '__main__':
    print(export())
