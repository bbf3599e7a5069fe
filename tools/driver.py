"""Check driver: encodes /repo's current sources, runs the symbolic executor, replays its counterexamples natively."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LIB = REPO + '/src/libeopsi'
BUILD = VERIF + '/build'
MODELS = ['crypto', 'gmp', 'ntl', 'stdmodel', 'stream']
WRAP = ['_ZN8CryptoPP16IteratedHashBaseIjNS_18HashTransformationEE6UpdateEPKhm',
        '_ZN8CryptoPP16IteratedHashBaseIjNS_18HashTransformationEE14TruncatedFinalEPhm',
        '_ZN8CryptoPP16IteratedHashBaseIjNS_18HashTransformationEE7RestartEv',
        '_ZN3NTL10RandomBitsERNS_2ZZEl', '_ZN3NTL9RandomLenERNS_2ZZEl', 'rand', 'srand', 'time', 'exit',
        '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv',
        '_Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl', '_Z16_ntl_gbytesfromzPhP17_ntl_gbigint_bodyl', '__gmpz_export']
CFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-emit-llvm', '-c']
NFLAGS = ['-O1', '-g1', '-w', '-c', '-fsanitize=address,shift,integer-divide-by-zero,null,bounds,return,unreachable,vptr', '-fno-sanitize-recover=all']
JOBS = max(2, min(8, os.cpu_count() or 2))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout


def must(cmd):
    rc, out = sh(cmd)
    if rc:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), out[-3000:]))


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()


def engine_files():
    return glob.glob(VERIF + '/engine/*.cpp') + glob.glob(VERIF + '/engine/*.h') + [VERIF + '/engine/build.sh']


def model_files():
    return glob.glob(VERIF + '/models/*.cpp') + glob.glob(VERIF + '/models/*.h') + glob.glob(VERIF + '/models/shim/bits/*')


BIG = 2304  # bits of the integers in instances that define BIGINT


def model_cmds(out):
    inc = ['-I' + VERIF + '/models/shim', '-I' + VERIF + '/models']
    c = [['clang++', '-std=c++14', '-fno-builtin'] + CFLAGS + inc + [VERIF + '/models/%s.cpp' % m, '-o', out + '/m_%s.bc' % m] for m in MODELS]
    c += [['clang++', '-std=c++14', '-fno-builtin'] + CFLAGS + inc + ['-DWB=%d' % BIG, VERIF + '/models/%s.cpp' % m, '-o', out + '/m_%s.big.bc' % m] for m in ('ntl', 'gmp')]
    c.append(['g++', '-std=c++14'] + NFLAGS + ['-I' + VERIF + '/models', VERIF + '/models/native.cpp', '-o', out + '/native.o'])
    return c


def parallel(cmds):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(must, cmds))


def setup(out=BUILD):
    """Build the engine and the models (once; checks rebuild them only when they are missing or stale)."""
    os.makedirs(out, exist_ok=True)
    stamp = out + '/stamp'
    d = digest(engine_files() + model_files())
    if os.path.exists(stamp) and open(stamp).read() == d:
        return out
    must(['bash', VERIF + '/engine/build.sh', out])
    parallel(model_cmds(out))
    open(stamp, 'w').write(d)
    return out


class Check:
    def __init__(self, pid, tier, specs):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.specs = [s for s in specs if s.get('tier', 'quick') == 'quick' or tier == 'thorough']
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vp-%s-' % pid)
        self.lock = threading.Lock()
        self.nat = {}
        self.natlock = {}
        self.natready = None

    # ---- building
    def includes(self):
        inc = ['-I' + VERIF + '/models', '-I' + VERIF + '/harness', '-I' + REPO + '/src', '-I' + LIB]
        if not os.path.exists(REPO + '/src/config.h'):
            os.makedirs(self.dir + '/cfg', exist_ok=True)
            open(self.dir + '/cfg/config.h', 'w').write('#define PROGRAM_VERSION "0"\n#define HAVE_PTHREAD_H 1\n')
            inc.append('-I' + self.dir + '/cfg')
        return inc

    def build(self):
        try:
            self.eng = setup()
        except Exception:
            self.eng = setup(self.dir + '/build')
        srcs = sorted(glob.glob(LIB + '/*.cpp'))
        os.makedirs(self.dir + '/bc'); os.makedirs(self.dir + '/o')
        inc = self.includes()
        self.hkeys = {}
        for s in self.specs:
            k = (s['src'], tuple(sorted(s.get('defs', {}).items())))
            self.hkeys.setdefault(k, 'h%d' % len(self.hkeys))
            s['h'] = self.hkeys[k]
        cmds = [['clang++', '-std=c++11'] + CFLAGS + ['-I' + VERIF + '/models/shim'] + inc + [f, '-o', self.dir + '/bc/' + os.path.basename(f)[:-4] + '.bc'] for f in srcs]
        for (src, defs), h in self.hkeys.items():
            d = ['-D%s=%s' % kv for kv in defs]
            cmds.append(['clang++', '-std=c++14'] + CFLAGS + ['-I' + VERIF + '/models/shim'] + inc + d + [VERIF + '/harness/' + src, '-o', self.dir + '/%s.bc' % h])
        parallel(cmds)
        big = {h: any(k == 'BIGINT' for k, v in defs) for (src, defs), h in self.hkeys.items()}
        for b in sorted(set(big.values())):
            must(['llvm-link-18'] + sorted(glob.glob(self.dir + '/bc/*.bc')) + [self.eng + '/m_%s%s.bc' % (m, '.big' if b and m in ('ntl', 'gmp') else '') for m in MODELS] + ['-o', self.dir + '/base%d.bc' % b])
        parallel([['bash', '-c', 'llvm-link-18 %s/base%d.bc %s/%s.bc -o %s/%s.l.bc && opt-18 -passes=internalize,globaldce,sroa,early-cse,simplifycfg --internalize-public-api-list=vp_main %s/%s.l.bc -o %s/%s.x.bc' % (self.dir, big[h], self.dir, h, self.dir, h, self.dir, h, self.dir, h)] for h in self.hkeys.values()])
        self.srcs = srcs
        # native objects are compiled in the background
        self.natpool = cf.ThreadPoolExecutor(JOBS)
        self.natfut = [self.natpool.submit(must, ['g++', '-std=c++11'] + NFLAGS + inc + [f, '-o', self.dir + '/o/' + os.path.basename(f)[:-4] + '.o']) for f in srcs]

    def native(self, h):
        with self.lock:
            l = self.natlock.setdefault(h, threading.Lock())
        with l:
            if h in self.nat:
                return self.nat[h]
            for f in self.natfut:
                f.result()
            (src, defs) = [k for k, v in self.hkeys.items() if v == h][0]
            d = ['-D%s=%s' % kv for kv in defs]
            exe = self.dir + '/%s.nat' % h
            must(['g++', '-std=c++14'] + NFLAGS + self.includes() + d + [VERIF + '/harness/' + src, '-o', self.dir + '/%s.o' % h])
            objs = [self.dir + '/o/' + os.path.basename(f)[:-4] + '.o' for f in self.srcs]
            must(['g++', '-fsanitize=address,undefined', self.dir + '/%s.o' % h, self.eng + '/native.o'] + objs + ['-o', exe] + ['-Wl,--wrap=' + w for w in WRAP] +
                 ['/usr/lib/x86_64-linux-gnu/libcryptopp.a', '-lntl', '-lgmpxx', '-lgmp', '-lpthread'])
            self.nat[h] = exe
            return exe

    # ---- running
    def run_engine(self, s):
        out = self.dir + '/out-%s.json' % s['name']
        T = s.get(self.tier, s.get('quick', 100 if self.tier == 'quick' else 600))
        T = max(5, min(T, (800 if self.tier == 'quick' else 1e9) - (time.time() - self.t0)))
        cmd = [self.eng + '/exec', self.dir + '/%s.x.bc' % s['h'], '--out', out, '--time', str(T), '--seed', str(self.seed), '--repo', REPO + '/src/',
               '--samples', str(s.get('samples', 4)), '--path-limit', str(s.get('path_limit', 60000000)), '--qtimeout', str(s.get('qtimeout', 60000))]
        for k, v in s.get('fix', {}).items():
            cmd += ['--fix', '%s=%d' % (k, v)]
        lim = 'ulimit -v %d; exec "$@"' % (s.get('mem', 6) * 1024 * 1024)
        try:
            r = subprocess.run(['bash', '-c', lim, 'x'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=T + 40, errors='replace', text=True)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = -99, 'timeout'
        try:
            res = json.load(open(out))
        except Exception:
            res = {'error': 'engine ended with %d: %s' % (rc, err[-400:]), 'failures': [], 'samples': []}
        return res

    def replay(self, s, rec, tag, env=None, timeout=60):
        exe = self.native(s['h'])
        f = self.dir + '/in-%s-%s.txt' % (s['name'], tag)
        with open(f, 'w') as o:
            for n, w, h in rec['inputs']:
                o.write('in %s %s\n' % (n, h))
            for t, i, out in rec['uf']:
                o.write('uf %s %s %s\n' % (t, i or '-', out))
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=44:allocator_may_return_null=0:' + (env or 'malloc_fill_byte=190:max_malloc_fill_size=65536'), UBSAN_OPTIONS='exitcode=44:print_stacktrace=1')
        try:
            r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', env=e, cwd=self.dir)
            return r.returncode, r.stdout, r.stderr, f
        except subprocess.TimeoutExpired as x:
            return -99, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout', f

    @staticmethod
    def obs_of(text):
        return [tuple(l.split()[1:3]) for l in text.split('\n') if l.startswith('VP-OBS ')]

    def handle(self, s):
        """Run one instance; returns a result record."""
        res = self.run_engine(s)
        r = {'spec': s, 'res': res, 'viol': [], 'unconf': [], 'validated': 0, 'mismatch': []}
        for i, f in enumerate(res.get('failures', [])):
            ok = False
            for k, env in enumerate(('malloc_fill_byte=190:max_malloc_fill_size=65536', 'malloc_fill_byte=0:max_malloc_fill_size=65536', 'malloc_fill_byte=255:max_malloc_fill_size=65536')):
                rc, out, err, fn = self.replay(s, f, 'f%d' % i, env, 90 if f['kind'] == 'bound' else 60)
                if rc == 43:
                    continue
                if rc == 42 or rc == 44 or (rc < 0 and rc != -99) or rc in (134, 139, 136) or (rc == -99 and f['kind'] == 'bound'):
                    ok = True
                    break
                if k == 0 and 'uninit#0' not in [x[0] for x in f['inputs']]:
                    break
            f['native_rc'], f['native_out'] = rc, (out[-1500:] + '\n' + err[-2500:])
            (r['viol'] if ok else r['unconf']).append((f, fn))
        for i, smp in enumerate(res.get('samples', [])):
            rc, out, err, fn = self.replay(s, smp, 's%d' % i)
            if rc in (42, 44, 134, 139, 136) or (rc < 0 and rc != -99):
                f = dict(smp, kind='replay', msg='a path the executor completed fails in the real run: ' + (re.findall(r'VP-FAIL.*|ERROR: AddressSanitizer.*|runtime error.*', out + err) + ['?'])[0][:200], fn='', where='', native_rc=rc, native_out=out[-1500:] + '\n' + err[-2500:])
                r['viol'].append((f, fn))
                continue
            if rc == 43:
                continue
            want = [(a, b) for a, b in smp['obs']]
            if rc == 0 and self.obs_of(out) == want:
                r['validated'] += 1
            else:
                r['mismatch'].append({'rc': rc, 'engine': want[:40], 'native': self.obs_of(out)[:40], 'input': smp['inputs'][:40]})
        return r

    def main(self):
        try:
            return self._main()
        finally:
            if os.environ.get('VP_KEEP'):
                print('kept', self.dir)
            else:
                shutil.rmtree(self.dir, ignore_errors=True)

    def _main(self):
        self.build()
        tb = time.time() - self.t0
        if os.environ.get('VP_ONLY'):
            self.specs = [s for s in self.specs if re.search(os.environ['VP_ONLY'], s['name'])]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(self.handle, self.specs))
        self.natpool.shutdown(wait=False, cancel_futures=True)
        known = load_known()
        rdir = VERIF + '/evidence/replays/' + self.pid
        shutil.rmtree(rdir, ignore_errors=True)
        violations, findings = [], []
        for r in results:
            s = r['spec']
            for n, (f, fn) in enumerate(r['viol']):
                k = match_known(known, self.pid, s['name'], f)
                if k:
                    if k not in findings:
                        findings.append(k)
                    continue
                os.makedirs(rdir, exist_ok=True)
                base = '%s/%s-%d' % (rdir, s['name'], n)
                shutil.copy(fn, base + '.in')
                json.dump({'property': self.pid, 'instance': s['name'], 'harness': s['src'], 'defs': s.get('defs', {}), 'kind': f['kind'], 'message': f['msg'], 'function': f['fn'], 'where': f['where'],
                           'inputs': f['inputs'], 'choices': f['choices'], 'uf': f['uf'], 'native_exit': f['native_rc'], 'native_output': f['native_out'],
                           'replay': 'tools/replay.sh %s.json' % base}, open(base + '.json', 'w'), indent=1)
                violations.append((s['name'], f, base + '.json'))
        tot = lambda k: sum(r['res'].get(k, 0) or 0 for r in results)
        incomplete = []
        for r in results:
            res, n = r['res'], r['spec']['name']
            if res.get('error'):
                incomplete.append('%s: %s' % (n, res['error']))
                continue
            if res.get('timed_out') or res.get('pending'):
                incomplete.append('%s: time budget used up (%d paths done, %d pending)' % (n, res['paths'], res['pending']))
            if res.get('unknown'):
                incomplete.append('%s: %d solver queries undecided' % (n, res['unknown']))
            for u, c in res.get('unsupported', {}).items():
                incomplete.append('%s: %d paths left the modelled code: %s' % (n, c, u))
            for u, c in res.get('bounds_hit', {}).items():
                if u not in r['spec'].get('bounds_ok', []):
                    incomplete.append('%s: %d paths left the bounds: %s' % (n, c, u))
            for l in r['spec'].get('reach', ['end']):
                if not res.get('reached', {}).get(l):
                    incomplete.append('%s: label %s not reached' % (n, l))
            for m in r['mismatch']:
                incomplete.append('%s: native run of a completed path differs: rc=%s engine=%s native=%s' % (n, m['rc'], m['engine'][:6], m['native'][:6]))
            for f, fn in r['unconf']:
                incomplete.append('%s: UNCONFIRMED %s: %s at %s (native exit %s)' % (n, f['kind'], f['msg'], f['where'][:200], f['native_rc']))
        fns = sorted(set(x for r in results for x in r['res'].get('functions', []) if not x.startswith('__') and not x.startswith('_GLOBAL__')))
        samples = []
        for r in results:
            for smp in r['res'].get('samples', [])[:1]:
                samples.append({'instance': r['spec']['name'], 'inputs': [x for x in smp['inputs'] if not x[0].startswith('uninit')][:24], 'observed': smp['obs'][:8]})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {
                  'states': tot('states'), 'transitions': tot('instructions'), 'traces_validated_against_impl': sum(r['validated'] for r in results),
                  'paths_completed': tot('paths'), 'forks': tot('forks'), 'assertions_checked': tot('checks'), 'assertions_needing_solver': tot('checks_to_solver'),
                  'solver_queries': tot('queries'), 'solver_cache_hits': tot('cache_hits'), 'solver_sat': tot('sat'), 'solver_unsat': tot('unsat'), 'solver_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 2),
                  'exhaustive': not incomplete and not violations,
                  'incomplete': incomplete[:40],
                  'functions_encoded': fns,
                  'instances': [{'name': r['spec']['name'], 'bounds': r['spec'].get('bounds', ''), 'paths': r['res'].get('paths'), 'queries': r['res'].get('queries'), 'solver_s': r['res'].get('solver_s'), 'wall_s': r['res'].get('wall_s'), 'reached': r['res'].get('reached'), 'validated': r['validated']} for r in results],
                  'samples': samples[:10],
                  'known_findings_reproduced': [k['what'] for k in findings],
              },
              'assumptions': ['NTL, GMP, Crypto++ and the C/C++ runtime behave as their models in /verif/models (sampled paths are replayed against the real libraries)',
                              'bounds per instance as listed; nothing outside them is decided'],
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.pid, 'w'), indent=1)
        for i in incomplete[:40]:
            print('NOTE ' + i[:400])
        for k in findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        seen = set()
        for name, f, path in violations:
            key = (f['kind'], f['msg'], f['fn'])
            if key in seen:
                continue
            seen.add(key)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s: %s: %s %s' % (name, f['kind'], f['msg'], ('in ' + f['fn']) if f['fn'] else ''))
        print('%s %s: %d instances, %d paths, %d queries, solver %.1f s, %d traces validated, build %.1f s, wall %.1f s' % (self.pid, self.tier, len(results), tot('paths'), tot('queries'), tot('solver_s'), ev['coverage']['traces_validated_against_impl'], tb, ev['wall_s']))
        return 1 if violations else 0


def load_known():
    p = VERIF + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def match_known(known, pid, name, f):
    for k in known:
        if k.get('status') != 'open' or k['property'] != pid:
            continue
        if re.fullmatch(k['instance'], name) and f['kind'] == k['kind'] and re.fullmatch(k['message'], f['msg']) and re.search(k.get('where', ''), f['where']):
            return k
    return None
