"""Shared machinery of the checks: build drivers from /repo, run TLC (generation, model checking, trace
validation), confirm and report violations, write evidence.  Standard library only, everything offline."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
CORES = min(8, os.cpu_count() or 4)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Broken(Exception):
    """The machinery itself could not give an answer (exit 2)."""


class Run:
    def __init__(self, prop, tier, level='model_checking'):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vg_%s_' % prop)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events_validated': 0,
                    'op_counts': {}, 'samples': [], 'parts': []}
        self.viol = []                # (description, replay path)
        self.assumptions = []
        self.replay_dir = os.path.join(EVID, prop + '.replay')
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    # ---- helpers -----------------------------------------------------------------
    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def log(self, msg):
        print('[%6.1fs] %s' % (time.time() - self.t0, msg), flush=True)

    def pmap(self, f, items):
        items = list(items)
        with ThreadPoolExecutor(max_workers=CORES) as ex:
            return list(ex.map(f, items))

    def build(self, jobs, extra=()):
        """jobs: list of (name, source, [defines]).  Returns {name: binary}."""
        def one(j):
            name, src, defs = j
            out = self.path(name)
            cmd = ['g++', '-O0', '-std=gnu++98', '-w', '-I' + REPO, '-I' + HARNESS] + list(extra) + ['-D' + d for d in defs] + \
                  [os.path.join(HARNESS, src), '-o', out]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode != 0:
                raise Broken('cannot build %s: %s\n%s' % (name, ' '.join(cmd), r.stdout[:3000]))
            return name, out
        return dict(self.pmap(one, jobs))

    def tlc(self, module, cfg, args=(), env=None, timeout=600, heap='1500m', cwd=None, par=False):
        """Run TLC on spec/<module>.tla (or a module written to the scratch dir) with the given config text."""
        d = tempfile.mkdtemp(dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        if isinstance(module, tuple):
            name, text = module
            open(os.path.join(d, name + '.tla'), 'w').write(text)
        else:
            name = module
        open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss8m', '-XX:+UseParallelGC' if par else '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
               '-cp', CP, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-config', 'run.cfg'] + list(args) + [name + '.tla']
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on %s' % name)
        finally:
            shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout

    def part(self, **kw):
        self.cov['parts'].append(kw)

    def violation(self, what, files):
        """files: {name: text}; returns the replay path."""
        n = len(self.viol)
        d = os.path.join(self.replay_dir, str(n))
        os.makedirs(d, exist_ok=True)
        for name, text in files.items():
            open(os.path.join(d, name), 'w').write(text)
        open(os.path.join(d, 'README'), 'w').write(what + '\n')
        self.viol.append((what, d))
        return d

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol), 'assumptions': self.assumptions}
        self.cov['violations_found'] = [w for w, _ in self.viol]
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + '.json'), 'w'), indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for w, d in self.viol[:5]:
            print('  ' + w)
            print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
        self.log('%s %s: %s' % (self.prop, self.tier, 'VIOLATED' if self.viol else 'held on everything explored'))
        return 1 if self.viol else 0


def run_driver(binary, script, out, err, timeout, env=None, cwd=None):
    """Returns (rc, last stderr lines)."""
    with open(err, 'w') as e:
        try:
            r = subprocess.run([binary, script, out], stdout=subprocess.DEVNULL, stderr=e, timeout=timeout, env=env, cwd=cwd)
            return r.returncode
        except subprocess.TimeoutExpired:
            return 'timeout'


def split_histories(lines):
    """Split script lines into histories, each starting with an R line."""
    hs, cur = [], None
    for ln in lines:
        ln = ln.rstrip('\n')
        if ln == 'R' or ln.startswith('R '):
            cur = [ln]
            hs.append(cur)
        elif cur is not None:
            cur.append(ln)
    return hs


def prints(out, tag='@'):
    """Lines printed by PrintT of a string that starts with tag."""
    res = []
    pat = '"' + tag
    for ln in out.splitlines():
        if ln.startswith(pat) and ln.endswith('"'):
            res.append(ln[len(pat):-1].replace('\\"', '"').replace('\\\\', '\\'))
    return res


def tla_str_set(xs):
    return '{' + ', '.join('"%s"' % x for x in sorted(xs)) + '}'


STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def tlc_stats(out):
    m = None
    for m in STAT.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)
