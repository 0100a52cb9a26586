"""Obtains the compiler's facts about /repo's current source (nothing of it is run)."""
import fcntl, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OBS_REPO', '/repo')
BUILD = os.environ.get('OBS_BUILD') or os.path.join(VERIF, '.build')
DRIVER = os.path.join(VERIF, 'driver', 'target', 'release', 'mirfacts')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    for n in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET'):
        e.pop(n, None)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    src = [os.path.join(VERIF, 'driver', x) for x in ('src/main.rs', 'Cargo.toml')]
    if os.path.exists(DRIVER) and all(os.path.getmtime(DRIVER) >= os.path.getmtime(x) for x in src):
        return
    rc, out = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'driver'))
    if rc or not os.path.exists(DRIVER):
        raise BuildError('the fact driver does not build\n' + out)


def lockfile(dst):
    """Cargo.lock is not tracked in the repository; use the one the build uses. -> path to remove again or None"""
    if os.path.exists(dst):
        return None
    for c in ('/opt/vp/Cargo.lock', os.path.join(VERIF, 'Cargo.lock')):
        if os.path.exists(c):
            shutil.copyfile(c, dst)
            return dst
    return None


def facts(then=None):
    """-> {profile: facts}, or what `then` makes of the compiled library before anything else is compiled"""
    l = lock()
    try:
        driver()
        made = lockfile(os.path.join(REPO, 'Cargo.lock'))
        try:
            rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'])
            target = os.path.join(BUILD, 'target')
            fp = os.path.join(target, 'debug', 'build', 'obsidian')
            if os.path.isdir(fp):
                shutil.rmtree(fp)
            d = os.path.join(target, 'debug', '.fingerprint')
            if os.path.isdir(d):
                for x in os.listdir(d):
                    if x.startswith('obsidian-'):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            out = os.path.join(BUILD, 'facts')
            for tag in ('dev', 'release'):
                try:
                    os.remove('%s.%s.json' % (out, tag))
                except FileNotFoundError:
                    pass
            env = {'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'MIRFACTS_CRATE': 'obsidian', 'MIRFACTS_OUT': out, 'CARGO_INCREMENTAL': '0',
                   'LD_LIBRARY_PATH': os.path.join(sysroot.strip(), 'lib')}
            rc, log = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', target], env=env)
            res = {}
            for tag in ('dev', 'release'):
                p = '%s.%s.json' % (out, tag)
                if not os.path.exists(p):
                    raise BuildError('no facts for profile %s\n%s' % (tag, log))
                res[tag] = p
            if rc:
                raise BuildError(log)
            if then:
                return then(target, {'LD_LIBRARY_PATH': os.path.join(sysroot.strip(), 'lib')})
            # private copies, as another check may replace the files
            import json
            data = {}
            for tag, p in res.items():
                with open(p) as f:
                    data[tag] = json.load(f)
            return data
        finally:
            if made:
                os.remove(made)
    finally:
        l.close()


def compile_all(programs):
    """{name: source} of programs using the library -> {name: errors [(code or '-', line, message)]}; nothing is linked or run"""
    import glob, json, tempfile
    from concurrent.futures import ThreadPoolExecutor

    def then(target, env):
        outs = sorted({os.path.dirname(f) for f in glob.glob(os.path.join(target, 'debug', '**', '*.rmeta'), recursive=True) + glob.glob(os.path.join(target, 'debug', '**', '*.so'), recursive=True)})
        lib = [f for d in outs for f in glob.glob(os.path.join(d, 'libobsidian*.rmeta'))]
        mac = [f for d in outs for f in glob.glob(os.path.join(d, 'libasync_trait-*.so'))]
        if len(lib) != 1 or not mac:
            raise BuildError('the compiled library was not found: %s %s' % (lib, mac))
        # the version of the macro the library itself is built with
        work = tempfile.mkdtemp(prefix='obs-witness-')
        try:
            def one(x):
                name, src = x
                f = os.path.join(work, name + '.rs')
                with open(f, 'w') as h:
                    h.write(src)
                cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w_' + name.replace('-', '_'), '--emit', 'metadata', '--error-format', 'json', '-A', 'warnings',
                       '--out-dir', work, '--extern', 'obsidian=' + lib[0], '--extern', 'async_trait=' + mac[-1]] + [y for d in outs for y in ('-L', 'dependency=' + d)] + [f]
                rc, out = sh(cmd, env=env)
                errs = []
                for line in out.splitlines():
                    try:
                        m = json.loads(line)
                    except ValueError:
                        continue
                    if m.get('level') == 'error' and not m['message'].startswith('aborting due to'):
                        sp = [q for q in m['spans'] if q['is_primary']]
                        while sp and sp[0].get('expansion'):
                            sp = [sp[0]['expansion']['span']]
                        errs.append(((m.get('code') or {}).get('code') or '-', sp[0]['line_start'] if sp else 0, m['message']))
                if rc and not errs:
                    errs.append(('?', 0, out[-400:]))
                return name, errs
            with ThreadPoolExecutor(8) as ex:
                return dict(ex.map(one, programs.items()))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return facts(then)


if __name__ == '__main__':
    try:
        f = facts()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print({t: len(d['bodies']) for t, d in f.items()})
