"""Builds the MIR extractor and witness crates, runs the extractor (nothing is executed
except rustc and the derive macros inside it)."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = os.path.join(VERIF, '.work')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    if env:
        e.update(env)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        if not env or k not in env:
            e.pop(k, None)
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except BaseException:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b'\0')
    return h.hexdigest()[:16]


def tree_files(root, sub, exts):
    out = []
    for d, ds, fs in os.walk(os.path.join(root, sub)):
        ds[:] = [x for x in ds if x not in ('target', '.git')]
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def repo_digest():
    h = hashlib.sha256()
    for sub in ('structmeta', 'structmeta-derive'):
        for f in tree_files(REPO, sub, ('.rs', '.toml')):
            if '/tests/' in f:
                continue
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    for f in ('Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def driver():
    src = os.path.join(VERIF, 'driver/src/main.rs')
    d = digest(open(src).read())
    out = os.path.join(WORK, 'mirdump-' + d)
    with Lock('driver'):
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            r = sh(['rustc', '+nightly', '--edition', '2021', '-Copt-level=1', '-Ccodegen-units=16', src,
                    '--crate-name', 'mirdump', '--crate-type', 'bin', '-o', tmp])
            if r.returncode != 0:
                raise BuildError('the extractor does not build:\n' + r.stderr[-4000:])
            os.rename(tmp, out)
    return out


def lockfile():
    for p in (os.path.join(REPO, 'Cargo.lock'), '/opt/vp/Cargo.lock'):
        if os.path.exists(p):
            return open(p).read()
    return None


def make_crate(name, text, extra_deps='', deps=True, edition='2024'):
    d = os.path.join(WORK, 'crates', name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    toml = ('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\n[workspace]\n[lib]\npath = "src/lib.rs"\n[dependencies]\n'
            'structmeta = { path = "%s/structmeta" }\n' % (name, edition, REPO))
    if deps:
        toml += 'syn = { version = "3", features = ["full", "extra-traits"] }\nquote = "1"\nproc-macro2 = "1"\n'
    toml += extra_deps
    put(os.path.join(d, 'Cargo.toml'), toml)
    put(os.path.join(d, 'src/lib.rs'), text + '// %d.%d\n' % (os.getpid(), time.monotonic_ns()))      # always newer than the last build
    lk = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lk):
        s = lockfile()
        if s:
            open(lk, 'w').write(s)
    return d


def put(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)


def diagnostics(out):
    """compiler messages of one cargo run"""
    ms = []
    for l in out.splitlines():
        if not l.startswith('{'):
            continue
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message':
            ms.append(m)
    return ms


def forget(crate_dir, target):
    """rebuild the analysed crates whenever their text changed, whatever the times of the files say"""
    stamp, now = os.path.join(target, 'repo-digest'), repo_digest()
    with Lock('freshness'):
        if os.path.exists(target) and not (os.path.exists(stamp) and open(stamp).read() == now):
            sh(['cargo', '+nightly', 'clean', '--offline', '-p', 'structmeta', '-p', 'structmeta-derive', '--manifest-path', os.path.join(crate_dir, 'Cargo.toml')],
               env={'CARGO_TARGET_DIR': target}, cwd=crate_dir)
        os.makedirs(target, exist_ok=True)
        open(stamp, 'w').write(now)


def cargo_check(crate_dir, target, env=None):
    forget(crate_dir, target)
    # every build goes through the extractor, so that the dependencies always carry their MIR
    env = dict({'RUSTC_WRAPPER': driver(), 'LD_LIBRARY_PATH': sysroot() + '/lib', 'MIRDUMP_CRATE': ''}, **(env or {}))
    r = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json', '--manifest-path',
            os.path.join(crate_dir, 'Cargo.toml')],
           env=dict({'CARGO_TARGET_DIR': target, 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '0'}, **(env or {})), cwd=crate_dir)
    return r, diagnostics(r.stdout)


GATE_S, GATE_CAP, GATE_BUDGET = 60, 12, 240


def externs():
    """(directories, {crate: metadata file}) of the built dependencies"""
    d = make_crate('base', '')
    target = os.path.join(WORK, 'target')
    with Lock('crate-base'):
        r, ms = cargo_check(d, target)
        arts, dirs = {}, set()
        for l in r.stdout.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('reason') == 'compiler-artifact':
                    dirs |= {os.path.dirname(f) for f in m['filenames']}
                if m.get('reason') == 'compiler-artifact' and m['target']['name'] in ('structmeta', 'syn', 'quote', 'proc_macro2', 'proc-macro2'):
                    fs = [f for f in m['filenames'] if f.endswith('.rmeta')]
                    if len(fs) == len(m['filenames']) == 1:     # as checked, not as linked into the macros
                        arts[m['target']['name'].replace('-', '_')] = fs[0]
        for m in ms:
            if m['message']['level'] == 'error':
                raise BuildError('%s does not build: %s' % (m['target']['name'], m['message']['rendered'][:3000]))
    if len(arts) < 4:
        raise BuildError('the crates do not build:\n' + r.stderr[-3000:])
    return dirs, arts


def expansion(f, ext):
    """command that expands the file and nothing else"""
    cmd = ['rustc', '+nightly', '--edition', '2024', '--crate-type', 'lib', '--crate-name', 'gate', '-Zunpretty=expanded', '-o', f + '.out', f]
    for x in sorted(ext[0]):
        cmd += ['-L', 'dependency=' + x]
    for k, v in ext[1].items():
        cmd += ['--extern', '%s=%s' % (k, v)]
    return cmd, {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER')}


def expand(mods):
    """[(id, text of `pub mod id {..}`)] -> {id: text of the expanded module | None where the compiler rejects it}"""
    import tempfile
    from concurrent.futures import ThreadPoolExecutor
    ext, out = externs(), {}
    tmp = tempfile.mkdtemp(dir=WORK)

    def run(part):
        f = os.path.join(tmp, 'e%d.rs' % id(part))
        open(f, 'w').write('\n'.join(['#![allow(warnings)]'] + [t.replace('\n', ' ') for _, t in part]) + '\n')
        cmd, e = expansion(f, ext)
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, env=e, cwd=tmp)
        except subprocess.TimeoutExpired:
            r = None
        if r is not None and r.returncode == 0:
            t = re.split(r'^pub mod (\w+) \{', open(f + '.out').read(), flags=re.M)
            got = dict(zip(t[1::2], t[2::2]))
            for i, _ in part:
                out[i] = got.get(i)
            return []
        if len(part) == 1:
            out[part[0][0]] = None
            return []
        k = max(1, -(-len(part) // 8))
        return [part[i:i + k] for i in range(0, len(part), k)]
    try:
        with ThreadPoolExecutor(8) as ex:
            work = [mods[i::8] for i in range(8) if mods[i::8]]
            while work:
                work = [y for ys in ex.map(run, work) for y in ys]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def gate(name, items):
    """Expands the definitions and nothing else: {id: what happened} for those on which a derive
    does not return (the compiler dies or hangs), so that they can be left out and reported."""
    ext = externs()
    import resource, tempfile
    from concurrent.futures import ThreadPoolExecutor
    bad, end = {}, time.time() + GATE_BUDGET
    tmp = tempfile.mkdtemp(dir=WORK)

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def run(part, secs):
        """None if the compiler gets through, else what happened"""
        f = os.path.join(tmp, 'g%d.rs' % id(part))
        open(f, 'w').write('\n'.join(['#![allow(warnings)]'] + [t.replace('\n', ' ') for _, t in part]) + '\n')
        cmd, e = expansion(f, ext)
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs, preexec_fn=limits, env=e, cwd=tmp)
        except subprocess.TimeoutExpired:
            return 'the derive does not return within %d s' % secs
        return 'the derive crashes the compiler (exit status %d)' % r.returncode if r.returncode not in (0, 1) else None

    def narrow(part):
        left = end - time.time()
        if left < 1 or len([x for x in bad.values() if x]) >= GATE_CAP:
            for i, _ in part:
                bad[i] = None           # not examined
            return []
        what = run(part, min(20, left))
        if what is None:
            return []
        if len(part) == 1:
            bad[part[0][0]] = what
            return []
        k = max(1, -(-len(part) // 8))
        return [part[i:i + k] for i in range(0, len(part), k)]
    try:
        if run(items, GATE_S) is None:
            return {}
        with ThreadPoolExecutor(8) as ex:
            work = [items]
            while work:
                work = [y for ys in ex.map(narrow, work) for y in ys]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return bad


def line_spans(msg):
    out = []

    def walk(s):
        out.append((s['file_name'], s['line_start'], s['line_end'], s['is_primary']))
        e = s.get('expansion')
        if e:
            walk(e['span'])
    for s in msg['message'].get('spans', []):
        walk(s)
    return out


def dump_crate(name, items):
    """items: [(id, text)] one line each -> (path of dump or None, {id: [messages]}).

    Witnesses that do not compile are reported and left out."""
    drv = driver()
    failed = {}
    key = digest(repo_digest(), name, *[t for _, t in items], open(drv, 'rb').read())
    outp = os.path.join(WORK, 'dumps', '%s-%s.json' % (name, key))
    meta = outp + '.meta'
    os.makedirs(os.path.dirname(outp), exist_ok=True)
    with Lock('crate-' + name):
        if os.path.exists(meta) and os.path.exists(outp):
            return outp, json.load(open(meta))
        for old in os.listdir(os.path.dirname(outp)):
            if old.startswith(name + '-'):
                try:
                    os.unlink(os.path.join(os.path.dirname(outp), old))
                except OSError:
                    pass
        dead = gate(name, items)
        for i, what in dead.items():
            failed[i] = [what or 'left out: too many definitions stop the compiler']
        todo = [(i, t) for i, t in items if i not in dead]
        for rnd in range(6):
            lines = ['#![allow(warnings)]'] + [t.replace('\n', ' ') for _, t in todo]
            d = make_crate(name, '\n'.join(lines) + '\n')
            tgt = os.path.join(WORK, 'target')
            tmp = outp + '.tmp'
            if os.path.exists(tmp):
                os.unlink(tmp)
            os.utime(os.path.join(d, 'src/lib.rs'))
            r, ms = cargo_check(d, tgt, {'RUSTC_WRAPPER': drv, 'LD_LIBRARY_PATH': sysroot() + '/lib',
                                         'MIRDUMP_CRATE': name.replace('-', '_'), 'MIRDUMP_OUT': tmp})
            if r.returncode == 0:
                if not os.path.exists(tmp):
                    raise BuildError('no dump was written\n' + r.stderr[-2000:])
                os.rename(tmp, outp)
                json.dump(failed, open(meta, 'w'))
                return outp, failed
            bad = {}
            for m in ms:
                if m['message']['level'] != 'error':
                    continue
                if m['target']['name'] != name.replace('-', '_') and m['target']['name'] != name:
                    raise BuildError('%s does not build: %s' % (m['target']['name'], m['message']['rendered'][:3000]))
                for f, a, b, prim in line_spans(m):
                    if f.endswith('src/lib.rs') and 2 <= a <= len(todo) + 1:
                        bad.setdefault(todo[a - 2][0], []).append(m['message']['message'])
                        break
            if not bad:
                raise BuildError('witness crate does not build:\n' + r.stderr[-3000:] + '\n'.join(m['message']['rendered'] for m in ms if m['message']['level'] == 'error')[:3000])
            for i, ms_ in bad.items():
                failed.setdefault(i, []).extend(ms_)
            todo = [(i, t) for i, t in todo if i not in bad]
        raise BuildError('witness crate does not build')
