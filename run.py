#!/usr/bin/env python3
"""Static checker for sparseglm:  run.py PROPERTY...   (see DESIGN.md)

Dumps the type-checked program (THIR of every function of the two crates) from /repo's working tree with the
rustc driver in /verif/driver, parses the Python layer, and decides the property on that representation.
Exit 0: nothing violated.  Exit 1: a line `VIOLATION property=<id> replay=<path>` per run with a violation."""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')
EVID = os.path.join(HERE, 'evidence')
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def cargo_env():
    env = dict(os.environ)
    if os.path.exists('/opt/vp/env.sh'):
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
        for kv in out.decode(errors='replace').split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                env[k] = v
    env['RUSTUP_TOOLCHAIN'] = 'nightly'
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    env.pop('RUSTFLAGS', None)
    return env


def tree_hash(root, exts, skip=('target', '.git', '__pycache__', '.venv', 'venv')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    env = cargo_env()
    dr = os.path.join(HERE, 'driver')
    env['CARGO_TARGET_DIR'] = os.path.join(dr, 'target')
    rc, out = sh(['cargo', 'build', '--offline', '--quiet'], env, dr)
    exe = os.path.join(dr, 'target', 'debug', 'thirdump')
    if rc or not os.path.exists(exe):
        print(out[-4000:])
        raise SystemExit('cannot build the driver')
    return exe


def dump(exe):
    """THIR dump of the current working tree; reused only if every source file has the same content"""
    with open(exe, 'rb') as fh:
        dh = hashlib.sha256(fh.read()).hexdigest()[:12]
    key = tree_hash(REPO, ('.rs', 'Cargo.toml', 'Cargo.lock', '.cargo/config.toml', 'config.toml')) + '-' + dh
    base = os.path.join(CACHE, 'dump', key)
    files = [os.path.join(base, c + '.json') for c in ('sparseglm', 'sparseglmpy')]
    if all(os.path.exists(f) for f in files) and os.path.exists(base + '/ok'):
        return files
    os.makedirs(base, exist_ok=True)
    env = cargo_env()
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib'
    env['THIRDUMP_OUT'] = base
    env['RUSTC_WORKSPACE_WRAPPER'] = exe
    env['CARGO_TARGET_DIR'] = os.path.join(CACHE, 'target')
    for c in ('sparseglm', 'sparseglmpy'):     # cargo's freshness test would skip the driver
        sh(['cargo', 'clean', '--offline', '-p', c], env, REPO)
    rc, out = sh(['cargo', 'check', '--offline', '-p', 'sparseglm', '-p', 'sparseglmpy', '--lib',
                  '--features', 'pyo3/abi3-py37'], env, REPO)
    if rc or not all(os.path.exists(f) for f in files):
        print(out[-6000:])
        raise SystemExit('cannot analyse the working tree: cargo check failed')
    open(base + '/ok', 'w').close()
    # keep the cache small
    ds = sorted((os.path.join(CACHE, 'dump', d) for d in os.listdir(os.path.join(CACHE, 'dump'))), key=os.path.getmtime)
    for d in ds[:-6]:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return files


def known():
    p = os.path.join(HERE, 'known_findings.json')
    with open(p) as fh:
        return json.load(fh)


def run(pid, tier, seed, files):
    from registry import REGISTRY
    from prog import Program
    from api import Api, Missing
    from report import Report
    t0 = time.time()
    ent = REGISTRY[pid]
    rep = Report(pid)
    try:
        api = Api(Program(files))
        api.repo = REPO
        api.tier = tier
        ent['fn']()(api, rep)
    except Missing as ex:
        rep.und('anchor: %s' % ex, '', 'a construct this property is stated about is not found in the source: %s' % ex)
    except Exception:
        rep.und('analysis', '', traceback.format_exc()[-1200:])
    if len(rep.obs) < ent['floor']:
        rep.und('coverage', '', 'only %d obligations were found, the tree this was written for has at least %d' % (len(rep.obs), ent['floor']))
    n_und = [o for o in rep.obs if o['status'] == 'undecided']
    viol = [o for o in rep.obs if o['status'] == 'violated']
    kf = {f['key']: f for f in known()['findings'] if f['property'] == pid}
    listed = [o for o in viol if o['key'] in kf]
    new = [o for o in viol if o['key'] not in kf]
    held = [o for o in rep.obs if o['status'] == 'held']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': ent['explain'],
            'obligations': len(rep.obs), 'discharged': len(held), 'undecided': len(n_und),
            'violated': len(viol), 'known_findings': len(listed),
            'guard_cells': sum(o['cells'] for o in held),
            'functions_analysed': sorted(rep.fns), 'functions_analysed_count': len(rep.fns),
            'counts': rep.counts,
            'obligation_list': [{'key': o['key'], 'where': o['where'], 'status': o['status'], 'cells': o['cells'],
                                 **({'detail': o['detail']} if o['status'] != 'held' else {})} for o in rep.obs],
        },
        'assumptions': ent.get('assume', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d functions, %.1f s' % (
        pid, ent['title'], len(rep.obs), len(held), len(n_und), len(rep.fns), time.time() - t0))
    for o in n_und:
        print('UNDECIDED property=%s %s (%s): %s' % (pid, o['key'], o['where'], o['detail'][-300:].replace('\n', ' | ')))
    for o in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, o['key'], kf[o['key']]['what']))
    rpath = os.path.join(EVID, pid + '.violation.json')
    if new:
        with open(rpath, 'w') as fh:
            json.dump({'property': pid, 'violations': new}, fh, indent=1)
        for o in new:
            print('  broken: %s in %s: %s' % (o['key'], o['where'], o['detail'][:700].replace('\n', ' | ')))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rpath, HERE)))
        return 1
    if os.path.exists(rpath):
        os.unlink(rpath)
    return 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if args == ['setup']:
        dump(build_driver())
        print('driver built, working tree dumped')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    files = dump(build_driver())
    from registry import REGISTRY
    if args == ['all']:
        args = list(REGISTRY)
    return max(run(p, tier, seed, files) for p in args)


if __name__ == '__main__':
    sys.exit(main())
