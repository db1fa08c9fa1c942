"""Extraction of facts from /repo's current tree, reports, evidence, known findings."""
import os, sys, json, time, hashlib, subprocess, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RERECAST_REPO', '/repo')
TARGET = os.path.join(VERIF, '.target')
FACTS = os.path.join(VERIF, '.facts')
DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'mirfacts')
PKGS = ['rerecast', 'bevy_rerecast', 'bevy_rerecast_core', 'bevy_rerecast_editor', 'bevy_rerecast_editor_integration', 'avian_rerecast',
        'gltf_scene', 'shapes_scene', 'trenchbroom_scene']

def env():
    e = dict(os.environ)
    e['PATH'] = os.path.expanduser('~/.cargo/bin') + ':/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_INCREMENTAL'] = '0'; e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTDOCFLAGS'): e.pop(k, None)
    return e

def sh(cmd, e, cwd=None):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def die(msg):
    sys.stderr.write(msg + '\n'); sys.exit(2)

def build_driver():
    e = env()
    src = [os.path.join(VERIF, 'driver', p) for p in ('src/main.rs', 'Cargo.toml', 'Cargo.lock')]
    if not os.path.exists(DRIVER) or any(os.path.getmtime(s) > os.path.getmtime(DRIVER) for s in src):
        rc, out = sh(['cargo', '+nightly', 'build', '--offline'], e, os.path.join(VERIF, 'driver'))
        if rc: die('driver build failed\n' + out[-4000:])
        os.utime(DRIVER)
    return DRIVER

def sysroot():
    rc, out = sh(['rustc', '+nightly', '--print', 'sysroot'], env())
    if rc: die('no nightly toolchain\n' + out)
    return out.strip().splitlines()[-1]

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('.git', 'target', 'node_modules'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')): files.append(os.path.join(root, f))
    files += [os.path.join(VERIF, 'driver/src/main.rs'), os.path.join(VERIF, 'models/models.rs')]
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        try: h.update(open(f, 'rb').read())
        except OSError: pass
        h.update(b'\0')
    return h.hexdigest()[:24]

def extract(verbose=False):
    """facts of the workspace as it is on disk now, plus those of the std models; -> list of directories"""
    build_driver()
    key = tree_hash()
    out = os.path.join(FACTS, key)
    if os.path.exists(os.path.join(out, 'ok')): return [os.path.join(out, 'ws'), os.path.join(out, 'models')]
    if os.path.isdir(FACTS):
        old = sorted(os.listdir(FACTS), key=lambda d: os.path.getmtime(os.path.join(FACTS, d)))
        for d in old[:-3]: shutil.rmtree(os.path.join(FACTS, d), ignore_errors=True)
    ws = os.path.join(out, 'ws'); mf = os.path.join(out, 'models')
    for d in (ws, mf):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sr = sysroot()
    e = env(); e['LD_LIBRARY_PATH'] = sr + '/lib'
    e['MIRFACTS_OUT'] = mf
    rc, o = sh([DRIVER, 'rustc', '--sysroot', sr, '--edition', '2024', '--crate-name', 'models', '--emit', 'metadata', '-o', mf + '/x.rmeta', VERIF + '/models/models.rs'], e)
    if rc or not os.path.exists(mf + '/models.json'): die('models do not compile\n' + o[-4000:])
    e['MIRFACTS_OUT'] = ws; e['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
    for p in PKGS:
        shutil.rmtree(os.path.join(TARGET, 'debug', 'build', p), ignore_errors=True)
        shutil.rmtree(os.path.join(TARGET, 'debug', '.fingerprint', p), ignore_errors=True)
    cmd = ['cargo', '+nightly', 'check', '--workspace', '--all-features', '--features', 'bevy/x11', '--offline', '--locked', '--target-dir', TARGET]
    rc, o = sh(cmd, e, REPO)
    if rc: die('cargo check failed\n' + o[-6000:])
    have = {f[:-5] for f in os.listdir(ws) if f.endswith('.json')}
    for p in PKGS[:6]:
        if p not in have: die('no facts for crate %s (%s)' % (p, sorted(have)))
    open(os.path.join(out, 'ok'), 'w').write(key)
    return [ws, mf]

def known():
    """-> {(property, key): text} of known findings (fixed entries suppress nothing)"""
    r = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                prop, key, text = (x.strip() for x in l[7:].split(' | ', 2))
                r[(prop.split('=', 1)[1], key.split('=', 1)[1])] = text
    return r

class Report:
    def __init__(self, pid):
        self.pid = pid; self.t0 = time.time()
        self.rules = {}        # rule -> [instances checked]
        self.fails = []        # (key, message)
        self.notes = {}
        self.assume = []
    def ok(self, rule, inst):
        self.rules.setdefault(rule, []).append(str(inst))
    def fail(self, rule, key, msg):
        """key identifies the violation without line numbers"""
        self.rules.setdefault(rule, []).append('VIOLATED ' + str(key))
        k = rule + ':' + str(key)
        if k not in [x[0] for x in self.fails]: self.fails.append((k, msg))
    def check(self, cond, rule, inst, msg=''):
        if cond: self.ok(rule, inst)
        else: self.fail(rule, inst, msg or 'rule "%s" does not hold for %s' % (rule, inst))
        return bool(cond)
    def floor(self, rule, n):
        k = len(self.rules.get(rule, []))
        if k < n: self.fail(rule, 'count', 'only %d instance(s) of rule "%s" found, at least %d expected: the construct it is about is gone or no longer recognised' % (k, rule, n))
    def note(self, k, v): self.notes[k] = v
    def finish(self, tier, level='other', explanation=''):
        kn = known()
        new = []
        for k, msg in self.fails:
            if (self.pid, k) in kn: print('KNOWN-FINDING: property=%s %s' % (self.pid, kn[(self.pid, k)]))
            else: new.append((k, msg))
        ob = sum(len(v) for v in self.rules.values())
        cov = {'explanation': explanation, 'obligations': ob, 'discharged': ob - len(self.fails),
               'rules': {r: {'instances': len(v), 'samples': [s[:160] for s in v[:6]]} for r, v in self.rules.items()}}
        cov.update(self.notes)
        ev = {'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        txt = json.dumps(ev, indent=1)
        if len(txt) > 60000:
            cov['rules'] = {r: v['instances'] for r, v in cov['rules'].items()}; txt = json.dumps(ev, indent=1)
        open(os.path.join(d, self.pid + '.json'), 'w').write(txt)
        for r, v in self.rules.items(): print('  %-60s %d instance(s)' % (r, len(v)))
        if new:
            rp = os.path.join(d, self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for k, msg in new: f.write('%s\n    %s\n' % (k, msg))
            for k, msg in new: print('  - %s: %s' % (k, msg))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s obligations=%d' % (self.pid, ob))
        return 0
